import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import MC

WRAP = ["-Wl," + ",".join("--wrap=" + s for s in ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock"))]
TS = vbuild.GENFLAGS + ["-O1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"]


def parts():
    hk = vbuild.tree_hash(vbuild.mc_headers())
    fl = ["-std=c++17", "-w", "-O2", "-I" + MC] + vbuild.EIGEN
    return [(os.path.join(MC, f), fl + ["-fno-builtin"] * (f == "c17rt.cpp"), hk) for f in ("c17rt.cpp", "c17.cpp")]


def prebuild():
    vbuild.cli()
    vbuild.compile_all(parts())
    vbuild.pch(TS)
    return vbuild.harness("c17emit", extra=["-rdynamic"])


def obj(src, extra, key):
    out = os.path.join(vbuild.cache_dir(), "ts-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        rc, log = vbuild.sh(["g++", "-c"] + TS + extra + [src, "-o", tmp])
        if rc:
            return log
        os.replace(tmp, out)
    return out


def check(tier, scratch, only, run_bin, budget, seed, **k):
    em = prebuild()
    d, entries = vbuild.emit(em, scratch, tier)
    binary, errors, srcs = vbuild.cli(), [], []
    vbuild.ensure_template()
    for e in entries:
        try:
            g = vbuild.gen_one(binary, e, d)
        except vbuild.GenError as x:
            errors.append(x)
            continue
        n = e["name"]
        tu = '#include "%s/thunder_%s.cpp"\n#include "%s/genimpl.hpp"\n' % (g, n, MC)
        tu += "static void mc_fill_%s(GenImpl<thunder_%s>::Fns& m) {\n" % (n, n)
        for f in e["functions"]:
            tu += '  m["%s"] = [](thunder_%s& r) -> Eigen::MatrixXd { return r.get_%s(); };\n' % (f, n, f)
        tu += '}\nextern "C" GenRobot* mc_make_%s() { return new GenImpl<thunder_%s>(mc_fill_%s); }\n' % (n, n, n)
        t = os.path.join(scratch, n + "_tu.cpp")
        with open(t, "w") as o:
            o.write(tu)
        files = [vbuild.read(os.path.join(g, f % n)) for f in ("thunder_%s.h", "thunder_%s.cpp", "%s_gen.h", "%s_gen.cpp")]
        key = vbuild.digest(*files, vbuild.read(MC + "/genapi.hpp"), vbuild.read(MC + "/genimpl.hpp"), " ".join(TS), " ".join(e["functions"]))
        srcs.append((e, t, ["-include", vbuild.pch(TS)], "tu-" + key))
        srcs.append((e, "%s/%s_gen.cpp" % (g, n), [], "gen-" + key))
    objs = []
    if not errors:
        with ThreadPoolExecutor(8) as ex:
            for (e, _, _, _), o in zip(srcs, ex.map(lambda s: obj(*s[1:]), srcs)):
                if not o.endswith(".o") or "\n" in o:
                    errors.append(vbuild.GenError(e, "the generated class does not compile", o[-3000:]))
                objs.append(o)
    if errors:
        return {"violations": [vbuild.gen_violation(e) for e in errors], "states": 0, "transitions": 0, "traces": 0, "cases": 0, "cases_run": 0}
    b = vbuild.link(objs + vbuild.compile_all(parts()), WRAP + ["-rdynamic", "-ldl"])
    res = run_bin(b, ["--robots", d] + (["--case", str(only)] if only is not None else []), scratch, tier, budget)
    res["coverage"] = {"threads": "2 (3 in some cases)", "preemption_bound": "0 for all pairs with happens-before monitor, 1 at every access of short calls, 2 for the shortest"}
    res["assumptions"] = ["libstdc++, yaml-cpp and libc are correctly synchronised inside; the schedules interleave the accesses of the generated code"]
    return res
