"""C24: what one run of the generator does to the file system: exactly its output, nothing for refused calls; every crash and fault point, repeated; two generations at once"""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import MC
from c18 import CONF, snap, put, flags_of

REFUSED = {  # configurations that do not describe a robot
    "type.yaml": CONF["A"].replace("'R'", "'X'"), "types.yaml": CONF["A"].replace("['R']", "['R', 'R']"), "none.yaml": CONF["A"].replace("['R']", "[]"), "empty.yaml": "", "text.yaml": "no robot\n", "broken.yaml": CONF["A"][:200] + "\n{[",
    "nokin.yaml": "\n".join(l for l in CONF["A"].split("\n") if not l.startswith("kinematics")), "nojoints.yaml": "\n".join(l for l in CONF["A"].split("\n") if not l.startswith("num_joints")),
}


class World:
    def __init__(self, binary, shim, scratch):
        self.bin, self.shim, self.scratch, self.n, self.viol, self.fresh_of = binary, shim, scratch, 0, [], {}
        self.runs = self.states = self.traces = 0

    def root(self, files, cwd="w"):
        """a scratch tree: cwd with files, a home, a directory for temporary files, a place next to them"""
        self.n += 1
        r = os.path.join(self.scratch, "r%d-%s" % (self.n, os.urandom(3).hex()))
        put(r, {"home/.profile": b"home\n", "tmp/other": b"other\n", "near/A_generatedFiles/keep": b"keep\n", cwd: None})
        for n, b in files.items():
            p = os.path.join(r, cwd, n)
            if b is None:
                os.makedirs(p, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(b)
        return r

    def run(self, r, args, at=None, mode=None, log=False, hook=None, cwd="w"):
        """runs the generator; returns (status, output, file-changing calls [(kind, path)])"""
        e = dict(os.environ, HOME=os.path.join(r, "home"), TMPDIR=os.path.join(r, "tmp"), LD_PRELOAD=self.shim)
        lf = r + ".log"
        if log:
            e["MC_LOG"] = lf
        if at is not None:
            e.update(MC_AT=str(at), MC_MODE=mode)
        if hook:
            e["MC_HOOK"] = hook
        self.runs += 1
        try:
            p = subprocess.run([self.bin] + args, cwd=os.path.join(r, cwd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=e)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, out = "timeout", ""
        ev = []
        if log:
            if os.path.exists(lf):
                with open(lf, errors="replace") as f:
                    for l in f:
                        x = l.rstrip("\n").split(" ", 2)
                        ev.append((x[1], os.path.normpath(x[2])))
                os.unlink(lf)
        return rc, out, ev

    def bad(self, name, what, detail):
        self.viol.append({"case": -1, "name": name, "what": what, "detail": detail})

    def fresh(self, conf, name, kw):
        """output of an undisturbed run in an empty directory"""
        k = (conf, name, tuple(sorted(kw.items())))
        if k not in self.fresh_of:
            r = self.root({"c.yaml": CONF[conf].encode()})
            before = snap(r)
            rc, out, ev = self.run(r, ["gen", "c.yaml", "-n", name] + flags_of({a: kw[a] for a in kw if a in "pf"}), log=True)
            after = snap(r)
            shutil.rmtree(r)
            self.fresh_of[k] = ({n: b for n, b in after.items() if before.get(n, 0) != b}, len(ev), out, before, after, ev, r)
        return self.fresh_of[k]


def differs(got, want, extra=True):
    for n in sorted(set(got) | set(want)):
        if n not in got:
            return "%s is missing" % n
        if n not in want:
            if extra:
                return "%s is unexpected" % n
            continue
        if got[n] != want[n]:
            if got[n] is None or want[n] is None:
                return "%s has the wrong kind" % n
            a, b = got[n], want[n]
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            s = max(0, i - 60)
            return "%s differs at byte %d:\n%s\ninstead of\n%s" % (n, i, a[s:i + 100].decode(errors="replace"), b[s:i + 100].decode(errors="replace"))
    return None


# what the README and the options promise
def outputs(w, name, kw, functions):
    d = "w/%s_generatedFiles" % name
    s = {d, d + "/thunder_%s.h" % name, d + "/thunder_%s.cpp" % name, d + "/%s_gen.h" % name, d + "/%s_gen.cpp" % name, d + "/%s_conf.yaml" % name, d + "/%s_par_REG.yaml" % name}
    if kw.get("p"):
        s.add(d + "/CMakeLists.txt")
    if kw.get("f"):
        s |= {d + "/%s.casadi" % f for f in functions}
    return s


def output_set(w, conf, name, kw):
    new, n, out, before, after, ev, r = w.fresh(conf, name, kw)
    how = "thunder gen c.yaml -n %s %s (configuration %s)" % (name, " ".join(flags_of(kw)), conf)
    w.states += 1
    w.traces += 1
    h = (after.get("w/%s_generatedFiles/%s_gen.h" % (name, name)) or b"").decode(errors="replace")
    fns = re.findall(r"\b%s_get_(\w+)_fun\s*\(\s*const casadi_real\s*\*\*" % re.escape(name), h)
    want = outputs(w, name, kw, fns)
    if not fns:
        w.bad(how, "no functions are generated", out[-500:])
    for x in sorted(set(new) | want):
        if x not in new:
            w.bad(how, "an output is missing", "%s was not written\n%s" % (x, out[-500:]))
        elif x not in want:
            w.bad(how, "something else is written", "%s was %s" % (x, "changed" if x in before else "created"))
    for x in before:
        if x not in after:
            w.bad(how, "something is removed", x)
    inside = os.path.join(r, "w", name + "_generatedFiles")
    for kind, p in ev:  # writes elsewhere, even when nothing of them is left
        if not (p == inside or p.startswith(inside + "/") or p.startswith(os.path.join(r, "tmp") + "/")) and kind != "rename-from":
            w.bad(how, "something else is written", "%s %s" % (kind, p.replace(r, "")))
    for x, b in new.items():
        if b is not None and not x.endswith(".casadi"):
            if not b.strip():
                w.bad(how, "an output is empty", x)
        if b is not None and "robot" not in name and b"thunder_robot" in b and x.rsplit(".", 1)[1] in ("h", "cpp", "txt"):
            code = "\n".join(l.split("//")[0] for l in b.decode(errors="replace").split("\n"))
            if "thunder_robot" in code:
                i = code.index("thunder_robot")
                w.bad(how, "a name of the template is left", "%s: %s" % (x, code[max(0, i - 60):i + 60]))


def places(w, conf, stem, given, path, cwd, kw):
    """the same output, in the working directory, wherever the configuration lies and whatever the working directory is called"""
    name = given or stem
    r = w.root({}, cwd)
    f = os.path.normpath(os.path.join(r, cwd, path % stem))
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w") as o:
        o.write(CONF[conf])
    base = snap(r)
    arg = f if path.startswith("../near") else path % stem  # one of the forms is given as an absolute path
    out = w.run(r, ["gen", arg] + (["-n", given] if given else []) + flags_of(kw), cwd=cwd)[1]
    got = snap(r)
    shutil.rmtree(r)
    w.states += 1
    w.traces += 1
    want = dict(base)
    want.update({(cwd + x[1:] if x.startswith("w/") else x): b for x, b in w.fresh(conf, name, kw)[0].items()})
    d = differs(got, want)
    if d:
        w.bad("thunder gen %s %s %s run in a directory called %s" % (arg.replace(r, ""), "-n " + given if given else "", " ".join(flags_of(kw)), cwd), "the output depends on where the generator runs or the configuration lies", d + "\n" + out[-300:])


def refused(w, files, args, what, at=None, mode=None):
    r = w.root(files)
    before = snap(r)
    rc, out, ev = w.run(r, args, log=True, at=at, mode=mode)
    after = snap(r)
    shutil.rmtree(r)
    w.states += 1
    w.traces += 1
    d = differs(after, before)
    if d:
        w.bad(what, "a refused call changes files", d + "\n" + out[-500:])
    elif "Library generated" in out:
        w.bad(what, "a call that should be refused is not", out[-500:])


def interrupted(w, conf, name, kw, start, label, points):
    """the run disturbed at each of `points` [(call number, mode)], one after the other, then repeated undisturbed"""
    r = w.root(dict(start, **{"c.yaml": CONF[conf].encode()}))
    base = snap(r)
    args = ["gen", "c.yaml", "-n", name] + flags_of(kw)
    for at, mode in points:
        w.run(r, args, at=at, mode=mode)
    mid = snap(r)
    out = w.run(r, args)[1]
    got = snap(r)
    shutil.rmtree(r)
    w.states += len(points)
    w.traces += 1
    want = dict(base)
    want.update(w.fresh(conf, name, kw)[0])
    how = "thunder gen c.yaml -n %s %s (configuration %s, %s), disturbed at %s, then repeated" % (name, " ".join(flags_of(kw)), conf, label, ", ".join("file call %d (%s)" % p for p in points))
    inside = "w/%s_generatedFiles" % name
    for n in set(mid) | set(base):
        if mid.get(n, 0) != base.get(n, 0) and not (n == inside or n.startswith(inside + "/")) and not n.startswith("tmp/"):
            w.bad(how, "something else is written", n)
    d = differs(got, want, extra=False)
    if d:
        w.bad(how, "a run after an interrupted one does not give the files of an undisturbed run", d + "\n" + out[-300:])


def together(w, a, b, at):
    """run b entirely while a is paused before its file call number `at`"""
    (ca, na, ka), (cb, nb, kb) = a, b
    r = w.root({"a.yaml": CONF[ca].encode(), "b.yaml": CONF[cb].encode()})
    base = snap(r)
    hook = "'%s' gen b.yaml -n %s %s > /dev/null 2>&1" % (w.bin, nb, " ".join(flags_of(kb)))
    w.run(r, ["gen", "a.yaml", "-n", na] + flags_of(ka), at=at, mode="p", hook=hook)
    w.runs += 1
    got = snap(r)
    shutil.rmtree(r)
    w.states += 1
    w.traces += 1
    want = dict(base)
    want.update(w.fresh(ca, na, ka)[0])
    want.update(w.fresh(cb, nb, kb)[0])
    d = differs(got, want)
    if d:
        w.bad("%s (%s) generated while %s (%s) is paused before file call %d" % (nb, cb, na, ca, at), "two generations at the same time disturb each other", d)


def prebuild():
    return vbuild.cli()


def check(tier, scratch, only, run_bin, budget, seed, **k):
    th = tier == "thorough"
    binary = prebuild()
    vbuild.ensure_template()
    shim = os.path.join(scratch, "crash.so")
    rc, log = vbuild.sh(["gcc", "-shared", "-fPIC", "-O1", "-w", os.path.join(MC, "crash.c"), "-o", shim, "-ldl"])
    if rc:
        raise RuntimeError(log)
    d = os.path.join(scratch, "w")
    os.makedirs(d)
    w = World(binary, shim, d)
    template = "/usr/local/share/thunder_dynamics/thunder_robot_template"
    t0 = snap(template)
    todo = []
    flags = [{}, {"p": 1}, {"f": 1}, {"p": 1, "f": 1}]
    for c in ("A", "B", "C"):
        for n in ("A", "arm", "r2", "my_Robot_v10", "x", "conf", "gen"):
            for kw in flags:
                todo.append(lambda c=c, n=n, kw=kw: output_set(w, c, n, kw))
    for path in ("%s.yaml", "./%s.yaml", "sub/%s.yaml", "sub/dir/%s.yaml", "../%s.yaml", "../near/%s.yaml", "../near/A_generatedFiles/%s.yaml", "a b/%s.yaml", "%s_generatedFiles/%s.yaml"):
        for cwd in ("w", "build", "a b", "x/y.yaml/z", "thunder_robot"):
            for c, stem, given, kw in (("A", "arm", None, {}), ("B", "r2", "A", {"p": 1}), ("C", "x", "yaml", {"p": 1, "f": 1}), ("A", "robot", None, {"f": 1}), ("B", "maya", None, {"p": 1})):
                if path.count("%s") == 2:
                    if given:
                        continue
                    todo.append(lambda c=c, stem=stem, path=path.replace("%s", stem, 1), cwd=cwd, kw=kw: places(w, c, stem, None, path, cwd, kw))
                else:
                    todo.append(lambda c=c, stem=stem, given=given, path=path, cwd=cwd, kw=kw: places(w, c, stem, given, path, cwd, kw))
    # refused calls
    base = {"A.yaml": CONF["A"].encode(), "sub": None, "A_generatedFiles/A_conf.yaml": b"old\n", "A_generatedFiles/notes": b"n\n"}
    base.update({n: t.encode() for n, t in REFUSED.items()})
    calls = [[], ["gen"], ["gen", "-p"], ["gen", "-n", "A"], ["gen", "missing.yaml"], ["gen", "missing.yaml", "-n", "A"], ["gen", "sub"], ["gen", "sub", "-n", "A"], ["gen", "A.yaml", "--no-such-option"], ["gen", "A.yaml", "-x", "-n", "A"], ["gen", "A.yaml", "-n"], ["no-such-command", "A.yaml"],
             ["gen", "A.yaml", "B.yaml"], ["--help"], ["gen", "--help"], ["gen", "-h"], ["--version"], ["gen", "-v"], ["gen", "A.yaml", "-n", "no/such/place/r"]]
    for n in REFUSED:
        calls += [["gen", n] + o for o in ([], ["-n", "A"], ["-n", "arm", "-p", "-f"])]
    for a in calls:
        todo.append(lambda a=a: refused(w, base, a, "thunder " + " ".join(a)))
    for kw in flags:  # the place of the output directory is taken by a file
        todo.append(lambda kw=kw: refused(w, {"A.yaml": CONF["A"].encode(), "A_generatedFiles": b"mine\n"}, ["gen", "A.yaml"] + flags_of(kw), "thunder gen A.yaml %s where A_generatedFiles is a file" % " ".join(flags_of(kw))))
        todo.append(lambda kw=kw: refused(w, {"A.yaml": CONF["A"].encode()}, ["gen", "A.yaml"] + flags_of(kw), "thunder gen A.yaml %s where no directory can be created" % " ".join(flags_of(kw)), -1, "directory"))
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda f: f(), todo))
        if not w.viol:
            # crash and fault points: every file-changing call, before it, half-way, failing, and failing from there on
            todo = []
            for c, n, kw, full in [("A", "A", {}, 1), ("A", "A", {"p": 1, "f": 1}, 1), ("B", "arm", {"p": 1}, 1), ("B", "B", {"f": 1}, th), ("C", "r2", {"f": 1}, th), ("B", "B", {"p": 1, "f": 1}, th), ("C", "x", {}, 1)]:
                new, calls_made = w.fresh(c, n, kw)[:2]
                same = {x[2:]: b for x, b in new.items()}
                other = {x[2:]: b for x, b in w.fresh("D" if c != "D" else "A", n, kw)[0].items()}
                for start, label in (({}, "empty directory"), (same, "generated before"), (other, "another robot of that name generated before")):
                    if not full and start is not other:
                        continue
                    for at in range(calls_made):
                        for mode in ("stop", "half", "error", "full"):
                            todo.append(lambda a=(c, n, kw, start, label, [(at, mode)]): interrupted(w, *a))
            # interrupted twice
            calls_made = w.fresh("A", "A", {"p": 1})[1]
            step = 1 if th else 3
            for i in range(0, calls_made, step):
                for j in range(0, calls_made, step):
                    for m in ("stop", "half") if th else ("stop",):
                        todo.append(lambda a=("A", "A", {"p": 1}, {}, "empty directory", [(i, m), (j, m)]): interrupted(w, *a))
            # two generations in one directory at the same time
            for a, b in ((("A", "A", {"p": 1, "f": 1}), ("B", "B", {"p": 1, "f": 1})), (("A", "r", {"p": 1}), ("C", "r2", {"p": 1})), (("B", "r2", {}), ("A", "r", {})), (("A", "A", {"p": 1}), ("D", "A_gen", {"p": 1}))):
                for at in range(w.fresh(*a)[1]):
                    todo.append(lambda a=a, b=b, at=at: together(w, a, b, at))
            list(pool.map(lambda f: f() if len(w.viol) < 8 else None, todo))
    dt = differs(snap(template), t0)
    if dt:
        w.bad("all runs", "the template is changed", dt)
    return {"violations": w.viol, "states": w.states, "transitions": w.runs, "traces": w.traces, "cases": 1, "cases_run": 1, "stopped": False,
            "samples": ["thunder gen c.yaml -n A -p -f, disturbed at each of its %d file-changing calls" % w.fresh("A", "A", {"p": 1, "f": 1})[1], "thunder gen missing.yaml -n A", "robot B generated while the generation of A is paused before each of its calls"],
            "coverage": {"runs_of_thunder_gen": w.runs, "file_calls_per_run": w.fresh("A", "A", {"p": 1, "f": 1})[1]}}
