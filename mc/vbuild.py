"""Builds of /repo's current working tree and of the harnesses, cached by content."""
import hashlib, os, shutil, subprocess, sys, glob, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
T = os.path.join(REPO, "src/thunder")
CAS = "/opt/thunder_deps/py/casadi"
EIGEN = ["-I/usr/include/eigen3"]
BASE = ["-std=c++17", "-w", "-DCASADI_SNPRINTF=snprintf", "-DCASADI_WITH_THREADSAFE_SYMBOLICS", "-DCASADI_WITH_THREAD",
        "-I%s/include" % CAS, "-I%s/library" % T]
LINK = ["-L" + CAS, "-lcasadi", "-Wl,-rpath," + CAS, "-lyaml-cpp", "-lpthread"]
JOBS = 8


class BuildError(Exception):
    pass


_lock = threading.RLock()
_cache = None


def cache_dir():
    global _cache
    with _lock:
        if _cache is None:
            d = os.environ.get("MC_CACHE", os.path.join(VERIF, ".cache"))
            try:
                os.makedirs(d, exist_ok=True)
                fd, t = tempfile.mkstemp(dir=d)
                os.close(fd)
                os.unlink(t)
            except OSError:
                d = os.path.join(tempfile.gettempdir(), "mc-cache")
                os.makedirs(d, exist_ok=True)
            _cache = d
        return _cache


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(f):
    with open(f, "rb") as x:
        return x.read()


def tree_hash(files):
    return digest(*[x for f in sorted(files) for x in (os.path.basename(f), read(f))])


def repo_headers():
    return [f for f in glob.glob(T + "/library/*.h*") + glob.glob(T + "/src/*.h*")]


def mc_headers():
    return glob.glob(MC + "/*.hpp")


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return r.returncode, r.stdout.decode(errors="replace")


def compile_one(src, flags, key_extra):
    cache = cache_dir()
    key = digest("obj", src if not src.startswith(VERIF) else os.path.relpath(src, VERIF), read(src), " ".join(flags), key_extra)
    out = os.path.join(cache, key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, log = sh([os.environ.get("MC_CXX", "g++"), "-c"] + flags + [src, "-o", tmp])
        if rc:
            raise BuildError("cannot compile %s\n%s" % (src, log[-3000:]))
        os.replace(tmp, out)
    return out


def compile_all(jobs):
    """jobs: list of (src, flags, key_extra) -> object files"""
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, *j) for j in jobs]
        return [f.result() for f in fs]


def lib_jobs(extra=()):
    hk = tree_hash(repo_headers())
    return [(s, BASE + ["-O1"] + list(extra), hk) for s in sorted(glob.glob(T + "/src/*.cpp"))]


def link(objs, extra=()):
    cache = cache_dir()
    key = digest("bin", *[os.path.basename(o) for o in objs], " ".join(extra))
    out = os.path.join(cache, key + ".bin")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, log = sh(["g++"] + objs + list(extra) + LINK + ["-o", tmp])
        if rc:
            raise BuildError("cannot link\n" + log[-3000:])
        os.replace(tmp, out)
    return out


def harness(name, opt="-O2", extra=(), withlib=True):
    """binary of mc/<name>.cpp linked with the library sources of /repo"""
    hk = tree_hash(repo_headers() + mc_headers())
    jobs = [(os.path.join(MC, name + ".cpp"), BASE + [opt, "-I" + MC] + EIGEN + list(extra), hk)]
    if withlib:
        jobs += lib_jobs()
    return link(compile_all(jobs))


def cli():
    """the thunder command line program built from /repo"""
    hk = tree_hash(repo_headers())
    inc = "/opt/vp/cmake/argparse"
    for d in glob.glob("/opt/vp/cmake/argparse*") + glob.glob("/opt/vp/cmake/argparse*/include"):
        if os.path.exists(d + "/argparse/argparse.hpp"):
            inc = d
    jobs = [(T + "/thunder_main.cpp", BASE + ["-O0", "-I" + inc] + EIGEN, hk)] + lib_jobs()
    return link(compile_all(jobs))


def template_ready():
    """thunder gen reads its template from a fixed system path that build.sh links to /repo"""
    p = "/usr/local/share/thunder_dynamics/thunder_robot_template"
    return os.path.isdir(p) and os.path.samefile(p, T + "/thunder_robot_template")


def prune(keep_days=2):
    import time
    c = cache_dir()
    for f in os.listdir(c):
        p = os.path.join(c, f)
        if f.endswith((".o", ".bin", ".so", ".tmp")) and time.time() - os.path.getmtime(p) > keep_days * 86400:
            os.unlink(p)


# ------------------------------------------------------------------ generated robots
def ensure_template():
    """the fixed path `thunder gen` reads its template from must be /repo's template, as build.sh arranges"""
    if template_ready():
        return
    p = "/usr/local/share/thunder_dynamics/thunder_robot_template"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.islink(p):
        os.unlink(p)
    os.symlink(T + "/thunder_robot_template", p)


class GenError(Exception):
    """the code under test failed to generate or to compile a robot it should accept"""

    def __init__(self, robot, what, log):
        super().__init__(what)
        self.robot, self.what, self.log = robot, what, log


def run_cli(binary, args, cwd, timeout=120):
    env = dict(os.environ, HOME=cwd)
    r = subprocess.run([binary] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return r.returncode, r.stdout.decode(errors="replace")


def gen_one(binary, e, outdir):
    """runs thunder gen for robot e in its own directory outdir/<name>; returns the directory of the generated files"""
    d = os.path.join(outdir, e["name"])
    os.makedirs(d, exist_ok=True)
    # the program is started in d on a copy of the configuration
    y = e.get("file", e["name"] + ".yaml")
    os.makedirs(os.path.dirname(os.path.join(d, y)) or d, exist_ok=True)
    shutil.copy(e["yaml"], os.path.join(d, y))
    args = ["gen", y] + e.get("flags", [])
    try:
        rc, log = run_cli(binary, args, d)
    except subprocess.TimeoutExpired:
        raise GenError(e, "thunder gen does not end", "")
    g = os.path.join(d, e["name"] + "_generatedFiles")
    for f in ("thunder_%s.h", "thunder_%s.cpp", "%s_gen.h", "%s_gen.cpp", "%s_conf.yaml", "%s_par_REG.yaml"):
        if not os.path.exists(os.path.join(g, f % e["name"])):
            raise GenError(e, "thunder gen did not write " + f % e["name"], "exit %d\n%s" % (rc, log[-2000:]))
    return g


def pch(flags):
    src = os.path.join(MC, "genpch.hpp")
    key = digest("pch", read(src), " ".join(flags))
    d = os.path.join(cache_dir(), "pch-" + key)
    h = os.path.join(d, "genpch.hpp")
    with _lock:
        if os.path.exists(h + ".gch"):
            return h
        os.makedirs(d, exist_ok=True)
        shutil.copy(src, h)
        tmp = h + ".%d.tmp" % os.getpid()
        rc, log = sh(["g++", "-x", "c++-header"] + flags + [h, "-o", tmp])
        if rc:
            raise BuildError(log[-2000:])
        os.replace(tmp, h + ".gch")
    return h


GENFLAGS = ["-std=c++17", "-w", "-fPIC", "-I/usr/include/eigen3"]


def so_for(batch, opt=("-O0",), pre="", cc="g++"):
    """one shared object with the wrapper classes of a batch of generated robots: list of (entry, gendir)"""
    flags = GENFLAGS + list(opt)
    parts = []
    for e, g in batch:
        for f in ("thunder_%s.h", "thunder_%s.cpp", "%s_gen.h", "%s_gen.cpp"):
            parts.append(read(os.path.join(g, f % e["name"])))
        parts.append(" ".join(e["functions"]))
    key = digest("so", cc, " ".join(flags), pre, read(MC + "/genapi.hpp"), read(MC + "/genimpl.hpp"), *parts)
    out = os.path.join(cache_dir(), key + ".so")
    if os.path.exists(out):
        return out
    tu = ""
    for e, g in batch:
        n = e["name"]
        tu += pre + '\n#include "%s/thunder_%s.cpp"\n' % (g, n)
        tu += '#include "%s/genimpl.hpp"\n' % MC
        tu += "static void mc_fill_%s(GenImpl<thunder_%s>::Fns& m) {\n" % (n, n)
        for f in e["functions"]:
            tu += '  m["%s"] = [](thunder_%s& r) -> Eigen::MatrixXd { return r.get_%s(); };\n' % (f, n, f)
        tu += '}\nextern "C" GenRobot* mc_make_%s() { return new GenImpl<thunder_%s>(mc_fill_%s); }\n' % (n, n, n)
    d = tempfile.mkdtemp(prefix="mc-so-")
    try:
        src = os.path.join(d, "tu.cpp")
        with open(src, "w") as f:
            f.write(tu)
        objs = []
        p = pch(flags) if cc == "g++" and not pre else None
        rc, log = sh([cc, "-c"] + flags + (["-include", p] if p else ["-include", MC + "/genpch.hpp"]) + [src, "-o", d + "/tu.o"])
        if rc:
            return GenError(batch[0][0], "the generated class does not compile", log[-3000:]) if len(batch) == 1 else None
        objs.append(d + "/tu.o")
        for e, g in batch:
            o = "%s/%s_gen.o" % (d, e["name"])
            rc, log = sh([cc, "-c"] + flags + ["%s/%s_gen.cpp" % (g, e["name"]), "-o", o])
            if rc:
                return GenError(e, "the generated functions do not compile", log[-3000:])
            objs.append(o)
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, log = sh([cc, "-shared"] + [x for x in opt if x.startswith("-fsanitize")] + objs + ["-o", tmp, "-lyaml-cpp"])
        if rc:
            return GenError(batch[0][0], "the generated code does not link", log[-3000:])
        os.replace(tmp, out)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_robots(entries, outdir, batch=6, opt=("-O0",), pre="", cc="g++", gens=None):
    """generates and compiles all entries; writes outdir/robots.txt (name, shared object, directory).
    returns the list of GenErrors (a robot that cannot be generated or compiled)"""
    binary = cli()
    ensure_template()
    errors, good = [], []

    def g1(e):
        try:
            return e, gen_one(binary, e, outdir)
        except GenError as x:
            return e, x
    if gens is None:
        with ThreadPoolExecutor(JOBS) as ex:
            gens = list(ex.map(g1, entries))
    for e, g in gens:
        if isinstance(g, GenError):
            errors.append(g)
        else:
            good.append((e, g))
    batches = [good[i:i + batch] for i in range(0, len(good), batch)]
    if not [x for x in batches]:
        return errors
    if not pre:
        pch(GENFLAGS + list(opt))
    lines = []

    def b1(b):
        s = so_for(b, opt, pre, cc)
        if isinstance(s, str):
            return [(e, g, s) for e, g in b]
        if len(b) == 1:
            return [(b[0][0], b[0][1], s)]
        return [(e, g, so_for([(e, g)], opt, pre, cc)) for e, g in b]
    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(b1, batches):
            for e, g, s in r:
                if isinstance(s, str):
                    lines.append("%s %s %s" % (e["name"], s, g))
                else:
                    errors.append(s)
    with open(os.path.join(outdir, "robots.txt"), "a") as f:
        f.write("".join(l + "\n" for l in lines))
    return errors


def emit(binary, scratch, tier, extra=()):
    """asks a harness for the robots it needs: directory with list.json"""
    import json
    d = os.path.join(scratch, "robots")
    os.makedirs(d, exist_ok=True)
    cmd = [binary, "--emit", d] + list(extra) + (["--thorough"] if tier == "thorough" else [])
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=600)
    f = os.path.join(d, "list.json")
    if r.returncode or not os.path.exists(f):
        raise RuntimeError("harness could not list its robots (%s)\n%s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
    with open(f) as x:
        return d, json.load(x)


def gen_violation(e, case=-1):
    y = ""
    try:
        y = read(e.robot["yaml"]).decode()
    except OSError:
        pass
    return {"case": case, "name": "robot %s flags %s" % (e.robot["name"], e.robot.get("flags", [])), "what": e.what, "detail": e.log + "\n" + y}


def gen_check(binary, tier, scratch, only, run_bin, budget, batch=1, opt=("-O0",), extra=()):
    """robots listed by the harness are generated and compiled, then the harness explores them"""
    d, entries = emit(binary, scratch, tier, extra)
    errors = gen_robots(entries, d, batch=batch, opt=opt)
    res = run_bin(binary, list(extra) + ["--robots", d] + (["--case", str(only)] if only is not None else []), scratch, tier, budget)
    res["violations"] = [gen_violation(e) for e in errors] + res["violations"]
    res["coverage"] = {"generated_robots": len(entries)}
    return res
