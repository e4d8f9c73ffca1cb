"""C25: malformed configurations, with instrumented code, in the library, the generator and the generated classes"""
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import MC, BASE, EIGEN

ASSERT = ["-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all"]
SAN = ["-fsanitize=address", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"] + ASSERT
ASAN = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_odr_violation=0:detect_container_overflow=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")


def binary(name, extra=()):
    hk = vbuild.tree_hash(vbuild.repo_headers() + vbuild.mc_headers())
    jobs = [(os.path.join(MC, name + ".cpp"), BASE + ["-O1", "-I" + MC] + EIGEN + SAN + list(extra), hk)] + vbuild.lib_jobs(SAN)
    return vbuild.link(vbuild.compile_all(jobs), SAN + list(extra))


def prebuild():
    vbuild.cli()
    binary("c25g", ["-rdynamic"])
    return binary("c25")


def command_line(binary_, scratch, tier):
    """every refused file given to thunder gen: nothing is written"""
    import c24
    src, d = os.path.join(scratch, "texts"), os.path.join(scratch, "cli")
    os.makedirs(src)
    os.makedirs(d)
    subprocess.run([binary_, "--emit", src] + (["--thorough"] if tier == "thorough" else []), check=True, stdout=subprocess.DEVNULL, timeout=300)
    shim = os.path.join(scratch, "crash.so")
    rc, log = vbuild.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(MC, "crash.c"), "-o", shim, "-ldl"])
    if rc:
        raise RuntimeError(log)
    w = c24.World(vbuild.cli(), shim, d)
    todo = []
    with open(os.path.join(src, "list.txt")) as f:
        for line in f:
            name, what = line.rstrip("\n").split(" ", 1)
            with open(os.path.join(src, name), "rb") as g:
                text = g.read()
            todo.append(lambda text=text, what=what: c24.refused(w, {"A.yaml": text, "A_generatedFiles/A_conf.yaml": b"old\n"}, ["gen", "A.yaml", "-p"], "thunder gen, %s\n%s" % (what, text.decode())))
            todo.append(lambda text=text, what=what: c24.refused(w, {"m.yaml": text}, ["gen", "m.yaml", "-n", "arm", "-f"], "thunder gen, %s\n%s" % (what, text.decode())))
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda f: f() if len(w.viol) < 8 else None, todo))
    return w


def check(tier, scratch, only, run_bin, budget, seed, **k):
    b = prebuild()
    env = dict(os.environ, **ASAN)
    if only is not None and only >= 100000:
        res = {"violations": [], "states": 0, "transitions": 0, "traces": 0}
    else:
        s0 = os.path.join(scratch, "lib")
        os.makedirs(s0)
        res = run_bin(b, ["--case", str(only)] if only is not None else [], s0, tier, budget, env=env)
        if only is not None:
            return res
    w = command_line(b, scratch, tier)
    res["violations"] += w.viol
    # generated classes
    g = binary("c25g", ["-rdynamic"])
    d, entries = vbuild.emit(g, scratch, tier)
    san = ["-fsanitize=address,bounds", "-O1", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"] + ASSERT
    errors = vbuild.gen_robots(entries, d, batch=1, opt=san)
    s2 = os.path.join(scratch, "gen")
    os.makedirs(s2)
    r2 = run_bin(g, ["--robots", d] + (["--case", str(only - 100000)] if only is not None else []), s2, tier, budget, env=env)
    for v in r2["violations"]:
        v["case"] += 100000
    res["violations"] += [vbuild.gen_violation(e) for e in errors] + r2["violations"]
    res.setdefault("coverage", {}).update({"files_refused_by_thunder_gen": w.states, "generated_robots": len(entries), "files_given_to_generated_classes": r2["traces"]})
    for f in ("states", "transitions", "traces"):
        res[f] += r2[f]
    res["states"] += w.states
    res["transitions"] += w.runs
    res["traces"] += w.traces
    return res
