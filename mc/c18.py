"""C18: the command line generator explored as a transition system on directory contents; options and paths; programs of several robots"""
import hashlib, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import MC

CONF = {  # one-joint (and a two-joint elastic) configurations
 "A": """num_joints: 1
type_joints: ['R']
kinematics: {symb: [1, 0, 0, 1], DH: [0.3, 0.5, 0.25, -0.7]}
gravity: {symb: [0, 0, 1], value: [0.1, 0.2, -9.81]}
Base_to_L0: {symb: [0, 0, 0, 0, 0, 0], tr: [0.1, 0.2, 0.3], ypr: [0.4, 0.5, 0.6]}
Ln_to_EE: {symb: [0, 0, 0, 0, 0, 0], tr: [1, 0, 0.5], ypr: [0, 0.2, 0]}
dynamics:
  link1:
    inertial: {symb: [1, 1, 1, 1, 1, 1, 1, 1, 1, 1], mass: 2.5, CoM_x: 0.1, CoM_y: -0.2, CoM_z: 0.3, Ixx: 0.7, Ixy: 0.01, Ixz: 0.02, Iyy: 0.8, Iyz: 0.03, Izz: 0.9}
""",
 "B": """num_joints: 2
type_joints: ['P', 'R_SEA']
kinematics: {symb: [0, 0, 0, 0, 0, 0, 0, 0], DH: [0.3, 0.5, 0.25, -0.7, 0.1, -1.5, 0.2, 0.4]}
gravity: {symb: [0, 0, 0], value: [0, 0, -9.81]}
Base_to_L0: {symb: [0, 0, 0, 0, 0, 0], tr: [0, 0, 0], ypr: [0, 0, 0]}
Ln_to_EE: {symb: [1, 0, 0, 0, 0, 0], tr: [1, 0, 0.5], ypr: [0, 0.2, 0]}
Dl_order: 1
dynamics:
  link1:
    inertial: {symb: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0], mass: 2.5, CoM_x: 0.1, CoM_y: -0.2, CoM_z: 0.3, Ixx: 0.7, Ixy: 0.01, Ixz: 0.02, Iyy: 0.8, Iyz: 0.03, Izz: 0.9}
    friction: {symb: [1], Dl: [0.3]}
  link2:
    inertial: {symb: [0, 0, 0, 0, 0, 0, 0, 0, 0, 0], mass: 1.5, CoM_x: 0.2, CoM_y: 0.2, CoM_z: 0.1, Ixx: 0.6, Ixy: 0.01, Ixz: 0.02, Iyy: 0.5, Iyz: 0.03, Izz: 0.4}
    friction: {symb: [0], Dl: [0.4]}
ELASTIC_MODEL: true
elastic:
  K_order: 1
  D_order: 1
  Dm_order: 1
  joints:
    joint2: {K_symb: [1], K: [100], D_symb: [0], D: [0.5], Dm_symb: [0], Dm: [0.2], Mm_symb: 0, Mm: 0.1}
""",
}
CONF["C"] = CONF["A"].replace("'R'", "'P'").replace("2.5", "7.25").replace("symb: [1, 0, 0, 1]", "symb: [0, 0, 0, 0]")
CONF["D"] = CONF["A"].replace("mass: 2.5", "mass: 3.5").replace("CoM_y: -0.2", "CoM_y: -0.4")  # files of the same size
CONF["bad"] = CONF["A"].replace("'R'", "'X'")
FILES = {"A.yaml": "A", "B.yaml": "B", "sub/A.yaml": "C", "same/A.yaml": "D", "bad.yaml": "bad"}


def snap(d):
    """contents of a directory: relative path -> bytes (None for a directory)"""
    r = {}
    for base, ds, fs in os.walk(d):
        for x in ds:
            r[os.path.relpath(os.path.join(base, x), d)] = None
        for x in fs:
            p = os.path.join(base, x)
            with open(p, "rb") as f:
                r[os.path.relpath(p, d)] = f.read()
    return r


def put(d, files):
    os.makedirs(d)
    for n in sorted(files):
        p = os.path.join(d, n)
        if files[n] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(files[n])
            if "_generatedFiles" in n:  # what is there already looks newer than the configuration
                t = time.time() + 3600
                os.utime(p, (t, t))


def key(files):
    h = hashlib.sha256()
    for n in sorted(files):
        h.update(n.encode() + b"\0" + (b"dir" if files[n] is None else hashlib.sha256(files[n]).digest()))
    return h.hexdigest()


def flags_of(kw):
    return (["-n", kw["n"]] if "n" in kw else []) + (["-p"] if kw.get("p") else []) + (["-f"] if kw.get("f") else []) + (["-c"] if kw.get("c") else [])


class Explorer:
    def __init__(self, binary, scratch):
        self.bin, self.scratch, self.n, self.cache, self.viol = binary, scratch, 0, {}, []
        self.transitions = self.states = self.traces = 0

    def tmp(self):
        self.n += 1
        return os.path.join(self.scratch, "d%d-%s" % (self.n, os.urandom(3).hex()))

    def run(self, args, cwd, env=None, home=True):
        e = dict(os.environ, HOME=cwd)
        if not home:
            e.pop("HOME", None)
        e.update(env or {})
        self.transitions += 1
        try:
            r = subprocess.run([self.bin] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=e)
            return r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""

    def fresh(self, conf, name, kw):
        """what the command writes into an empty directory: {path relative to the cwd: bytes}"""
        k = (conf, name, tuple(sorted(kw.items())))
        if k not in self.cache:
            d = self.tmp()
            os.makedirs(d)
            with open(os.path.join(d, name + ".yaml"), "wb") as f:
                f.write(conf)
            kw2 = {a: b for a, b in kw.items() if a in ("p", "f")}
            rc, log = self.run(["gen", name + ".yaml"] + flags_of(kw2), d)
            r = snap(d)
            r.pop(name + ".yaml", None)
            shutil.rmtree(d)
            self.cache[k] = r
        return self.cache[k]

    def bad(self, name, what, detail):
        self.viol.append({"case": -1, "name": name, "what": what, "detail": detail})

    def diff(self, got, want):
        for n in sorted(set(got) | set(want)):
            if n not in got:
                return "%s is missing" % n
            if n not in want:
                return "%s is unexpected" % n
            if got[n] != want[n]:
                if got[n] is None or want[n] is None:
                    return "%s has the wrong kind" % n
                a, b = got[n], want[n]
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                s = max(0, i - 60)
                return "%s differs at byte %d:\n%s\ninstead of\n%s" % (n, i, a[s:i + 100].decode(errors="replace"), b[s:i + 100].decode(errors="replace"))
        return None

    # -------------------------------------------------------------- histories in one directory
    def actions(self):
        A = [("A.yaml", {}), ("A.yaml", {"f": 1}), ("A.yaml", {"p": 1}), ("A.yaml", {"n": "B"}), ("B.yaml", {}), ("B.yaml", {"n": "A", "p": 1}), ("B.yaml", {"f": 1, "p": 1, "n": "robot"}), ("A.yaml", {"n": "robot"}),
             ("sub/A.yaml", {}), ("sub/A.yaml", {"n": "B", "f": 1}), ("same/A.yaml", {"p": 1}), ("bad.yaml", {}), ("bad.yaml", {"n": "A"}), ("A_generatedFiles/A_conf.yaml", {"n": "A"}), ("A_generatedFiles/A_conf.yaml", {"n": "B"}), ("missing.yaml", {"n": "A"})]
        return A

    def step(self, state, act):
        """(real next state, model's next state)"""
        f, kw = act
        d = self.tmp()
        put(d, state)
        self.run(["gen", f] + flags_of(kw), d)
        got = snap(d)
        shutil.rmtree(d)
        want = dict(state)
        if f in state:
            want.update(self.fresh(state[f], kw.get("n", os.path.basename(f)[:-5]), kw))
        return got, want

    def explore(self, depth, cap, pool):
        base = {n: CONF[c].encode() for n, c in FILES.items()}
        base["sub"] = base["same"] = None
        foreign = dict(base)
        good = self.fresh(CONF["A"].encode(), "A", {})
        for n, b in good.items():  # longer, older contents under the names of the generated files
            foreign[n] = None if b is None else b + b"\n#error left over\n" + b
        foreign["A_generatedFiles/notes.txt"] = b"mine"
        foreign["A_generatedFiles/A_gen.cpp.old"] = b"mine too"
        sized = dict(base)  # other contents of the same length
        for n, b in good.items():
            sized[n] = None if b is None else b.translate(bytes.maketrans(b"0123456789", b"1234567890"))
        cut = dict(base)    # what an interrupted run leaves
        for n, b in good.items():
            cut[n] = None if b is None else b[:len(b) // 2]
        seen, layer, acts = {}, [], self.actions()  # the three littered directories start one step later
        for s, start in ((base, 0), (foreign, 1), (sized, 1), (cut, 1)) if depth < 4 else ((base, 0), (foreign, 0), (sized, 1), (cut, 1)):
            seen[key(s)] = 1
            layer.append((s, "", start))
        for level in range(depth):
            todo = [(s, h, a) for s, h, left in layer if left <= level for a in acts]
            wait = [x for x in layer if x[2] > level]
            layer = wait
            for (s, h, a), (got, want) in zip(todo, pool.map(lambda t: self.step(t[0], t[2]), todo)):
                how = h + "; thunder gen %s %s" % (a[0], " ".join(flags_of(a[1])))
                d = self.diff(got, want)
                if d:
                    self.bad("history" + how, "a directory with earlier contents changes what is generated", d)
                    if len(self.viol) > 5:
                        return
                    continue
                k = key(got)
                if k not in seen and len(seen) < cap:
                    seen[k] = 1
                    layer.append((got, how, 0))
            if self.viol:
                return
        self.states += len(seen)
        self.depth, self.frontier, self.capped = depth, len(layer), len(seen) >= cap

    # -------------------------------------------------------------- directories, option orders, environments
    def variants(self, pool, th):
        V = []
        for c, name in (("A", "A"), ("B", "B")) if th else (("A", "A"),):
            y = CONF[c].encode()
            for kw in ({}, {"p": 1, "f": 1}, {"n": "robo"}, {"n": "robo", "p": 1, "f": 1}, {"n": "robo", "f": 1}):
                nm = kw.get("n", name)
                places = [(".", name + ".yaml"), ("build", name + ".yaml"), ("w d/é", name + ".yaml"), (".", "./" + name + ".yaml"), (".", "x/y.z/" + name + ".yaml"), ("run/here", "../../conf/" + name + ".yaml"), ("robot", "ABS")]
                if "n" in kw:
                    places += [(".", "other_name.yaml"), (".", "with.dots.yaml"), ("A_generatedFiles", name + ".yaml")]
                for cwd, f in places:
                    V.append((y, nm, kw, cwd, f, ["gen", "@"] + flags_of(kw), {}, True))
            sh = ("A", "A.yaml")
            for args in (["gen", "-n", "robo", "@"], ["gen", "--name", "robo", "@"], ["gen", "@", "--name=robo"], ["gen", "-n", "robo", "@", "--python", "--casadifunc"], ["gen", "-f", "-n", "robo", "-p", "@"], ["gen", "-p", "-f", "@", "-n", "robo"],
                         ["gen", "--casadifunc", "@", "--python"], ["gen", "-p", "@", "-f"], ["gen", "-f", "@", "-p"], ["gen", "-f", "@"], ["gen", "-p", "@"]):
                kw = {}
                if any("robo" in a for a in args):
                    kw["n"] = "robo"
                if "-p" in args or "--python" in args:
                    kw["p"] = 1
                if "-f" in args or "--casadifunc" in args:
                    kw["f"] = 1
                V.append((y, kw.get("n", name), kw, ".", name + ".yaml", args, {}, True))
            for env in ({"LANG": "de_DE.UTF-8", "LC_ALL": "de_DE.UTF-8"}, {"HOME": "/nonexistent"}, {"TZ": "Asia/Tokyo"}, {"OMP_NUM_THREADS": "3"}, {"USER": "robot"}, {"PWD": "/", "OLDPWD": "/tmp", "TMPDIR": "/nonexistent"}, {"PATH": "/nonexistent"}, {"SOURCE_DATE_EPOCH": "1000000000"},
                        {"LD_PRELOAD": self.shim, "HOSTNAME": "another-host", "LOGNAME": "someone"}, {"_age": "-90000000"}, {"_age": "90000000"}):
                V.append((y, name, {"p": 1, "f": 1}, ".", name + ".yaml", ["gen", "@", "-p", "-f"], env, True))
            V.append((y, name, {"p": 1, "f": 1}, ".", name + ".yaml", ["gen", "@", "-p", "-f"], {}, False))
            for _ in range(3):  # address space layout differs from run to run
                V.append((y, name, {"p": 1, "f": 1}, ".", name + ".yaml", ["gen", "@", "-p", "-f"], {}, True))

        def one(v):
            y, nm, kw, cwd, f, args, env, home = v
            root = self.tmp()
            d = os.path.join(root, "t", cwd)
            os.makedirs(d)
            full = os.path.join(root, "elsewhere", "x.d", "A.yaml" if nm in ("A", "robo") else "B.yaml") if f == "ABS" else os.path.normpath(os.path.join(d, f))
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as o:
                o.write(y)
            if "_age" in env:
                t = time.time() + int(env["_age"])
                os.utime(full, (t, t))
            before = snap(root)
            self.run([{"@": full if f == "ABS" else f}.get(a, a) for a in args], d, env, home)
            got = snap(root)
            want = dict(before)
            pre = os.path.relpath(d, root)
            want.update({os.path.normpath(os.path.join(pre, n)): b for n, b in self.fresh(y, nm, kw).items()})
            shutil.rmtree(root)
            return self.diff(got, want)
        for v, d in zip(V, pool.map(one, V)):
            self.states += 1
            self.traces += 1
            if d:
                self.bad("thunder " + " ".join(v[5]) + " with configuration %s in directory %s, environment %s" % (v[4], v[3], v[6] if v[7] else "without HOME"), "where and how the program is called changes what is generated", d)

    # -------------------------------------------------------------- the copy option, in a build directory of a scratch tree
    def copies(self, pool):
        cpp, inc, rob = "src/%s/src", "src/%s/library", "src/%s/robots"
        for pre in ({}, {"old": 1}):
            for kw in ({"c": 1}, {"c": 1, "p": 1, "n": "B"}):
                root = self.tmp()
                d = os.path.join(root, "src/thunder/build")
                os.makedirs(d)
                for t in ("thunder_robot", "thunder_robot_chrono"):
                    for p in (cpp, inc, rob):
                        os.makedirs(os.path.join(root, p % t))
                        if pre:
                            for n in ("A_gen.cpp", "thunder_A.h", "A_conf.yaml"):
                                with open(os.path.join(root, p % t, n), "w") as o:
                                    o.write("old " * 20000)
                with open(os.path.join(d, "A.yaml"), "w") as o:
                    o.write(CONF["A"])
                want = snap(root)
                self.run(["gen", "A.yaml"] + flags_of(kw), d)
                got = snap(root)
                shutil.rmtree(root)
                n = kw.get("n", "A")
                fr = self.fresh(CONF["A"].encode(), n, {k: v for k, v in kw.items() if k == "p"})
                want.update({"src/thunder/build/" + a: b for a, b in fr.items()})
                for t in ("thunder_robot", "thunder_robot_chrono"):
                    for a, p in (("thunder_%s.h", inc), ("%s_gen.h", inc), ("thunder_%s.cpp", cpp), ("%s_gen.cpp", cpp), ("%s_conf.yaml", rob), ("%s_par_REG.yaml", rob)):
                        want[p % t + "/" + a % n] = fr.get("%s_generatedFiles/" % n + a % n)
                self.states += 1
                self.traces += 1
                df = self.diff(got, want)
                if df:
                    self.bad("thunder gen A.yaml " + " ".join(flags_of(kw)), "the copies made with -c are not the generated files", df)


# ------------------------------------------------------------------ several robots in one program
def program(d, entries, binary, scratch):
    """generates the robots, compiles each class on its own, links all of them into one shared object with a file that includes all headers"""
    errors, gens = [], []

    def g1(e):
        try:
            return e, vbuild.gen_one(binary, e, d)
        except vbuild.GenError as x:
            return e, x
    with ThreadPoolExecutor(8) as ex:
        for e, g in ex.map(g1, entries):
            if isinstance(g, vbuild.GenError):
                errors.append(g)
            else:
                gens.append((e, g))
    if errors:
        return errors
    inc = ["-I" + g for e, g in gens]
    fl = vbuild.GENFLAGS + ["-O0"]
    vbuild.pch(fl)
    h = vbuild.pch(fl)
    jobs = []
    for e, g in gens:
        n = e["name"]
        jobs.append((os.path.join(g, "thunder_%s.cpp" % n), ["-include", h]))
        jobs.append((os.path.join(g, "%s_gen.cpp" % n), []))
    for i, order in enumerate((gens, gens[::-1])):
        t = "".join('#include "thunder_%s.h"\n' % e["name"] for e, g in order)
        if i == 0:
            t += '#include "%s/genimpl.hpp"\n' % MC
            for e, g in gens:
                n = e["name"]
                t += "static void fill_%s(GenImpl<thunder_%s>::Fns& m) {\n" % (n, n)
                for f in e["functions"]:
                    t += '  m["%s"] = [](thunder_%s& r) -> Eigen::MatrixXd { return r.get_%s(); };\n' % (f, n, f)
                t += '}\nextern "C" GenRobot* mc_make_%s() { return new GenImpl<thunder_%s>(fill_%s); }\n' % (n, n, n)
        else:
            t += "int mc_second() { return 0; }\n"
        # a program that uses both the classes and the generated functions of all robots
        t += "".join('#include "%s_gen.h"\n' % e["name"] for e, g in order)
        s = os.path.join(scratch, "all%d.cpp" % i)
        with open(s, "w") as o:
            o.write(t)
        jobs.append((s, ["-include", h]))
    keys = vbuild.digest("c18", " ".join(fl), vbuild.read(MC + "/genapi.hpp"), vbuild.read(MC + "/genimpl.hpp"), *[vbuild.read(os.path.join(g, f % e["name"])) for e, g in gens for f in ("thunder_%s.h", "thunder_%s.cpp", "%s_gen.h", "%s_gen.cpp")], *[" ".join(e["functions"]) for e, g in gens])
    so = os.path.join(vbuild.cache_dir(), keys + ".so")
    names = ", ".join(e["name"] for e, g in gens)
    if not os.path.exists(so):
        def comp(j):
            o = os.path.join(scratch, vbuild.digest(j[0]) + ".o")
            rc, log = vbuild.sh(["g++", "-c"] + fl + inc + j[1] + [j[0], "-o", o])
            return j[0], o, rc, log
        with ThreadPoolExecutor(8) as ex:
            R = list(ex.map(comp, jobs))
        for s, o, rc, log in R:
            if rc:
                return [vbuild.GenError(gens[0][0], "robots used in one program do not compile (%s)" % os.path.basename(s), names + "\n" + log[-3000:])]
        tmp = so + ".%d.tmp" % os.getpid()
        rc, log = vbuild.sh(["g++", "-shared", "-Wl,--no-allow-shlib-undefined"] + [o for s, o, rc, log in R] + ["-o", tmp, "-lyaml-cpp"])
        if rc:
            return [vbuild.GenError(gens[0][0], "robots used in one program do not link", names + "\n" + log[-3000:])]
        os.replace(tmp, so)
    with open(os.path.join(d, "robots.txt"), "w") as f:
        for e, g in gens:
            f.write("%s %s %s\n" % (e["name"], so, g))
    return []


def prebuild():
    vbuild.cli()
    vbuild.pch(vbuild.GENFLAGS + ["-O0"])
    return vbuild.harness("c18", extra=["-rdynamic"])


def check(tier, scratch, only, run_bin, budget, seed, **k):
    b = prebuild()
    th = tier == "thorough"
    binary = vbuild.cli()
    vbuild.ensure_template()
    d, entries = vbuild.emit(b, scratch, tier)
    errors = program(d, entries, binary, scratch)
    open(os.path.join(d, "robots.txt"), "a").close()
    res = run_bin(b, ["--robots", d] + (["--case", str(only)] if only is not None and only >= 0 else []), scratch, tier, budget)
    if only is None or only < 0:
        w = os.path.join(scratch, "cli")
        os.makedirs(w)
        x = Explorer(binary, w)
        x.shim = os.path.join(scratch, "shift.so")  # another day, host, user and process number
        rc, log = vbuild.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(MC, "shift.c"), "-o", x.shim])
        if rc:
            raise RuntimeError(log)
        with ThreadPoolExecutor(8) as pool:
            x.explore(4 if th else 3, 20000 if th else 2000, pool)
            x.variants(pool, th)
            x.copies(pool)
        res["violations"] = x.viol + res["violations"]
        for f in ("states", "transitions", "traces"):
            res[f] += getattr(x, f)
        res["coverage"] = {"directory_states": x.states, "runs_of_thunder_gen": x.transitions, "directory_history_depth": getattr(x, "depth", 0), "directory_state_cap_reached": getattr(x, "capped", False), "robots_in_one_program": len(entries)}
    res["violations"] = [vbuild.gen_violation(e) for e in errors] + res["violations"]
    return res
