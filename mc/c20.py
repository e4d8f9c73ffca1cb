import glob, os
import vbuild
from vbuild import MC, T

SYM = "_ZN10thunder_ns19compute_userDefinedERNS_5RobotE"  # thunder_ns::compute_userDefined(thunder_ns::Robot&)


def weak_lib():
    """the library with compute_userDefined, the place for the user's code, replaceable"""
    out = []
    for o in vbuild.compile_all(vbuild.lib_jobs()):
        w = o[:-2] + ".weak2.o"
        if not os.path.exists(w):
            tmp = w + ".%d.tmp" % os.getpid()
            rc, log = vbuild.sh(["objcopy", "--weaken-symbol=" + SYM, o, tmp])
            if rc:
                raise vbuild.BuildError(log)
            os.replace(tmp, w)
        out.append(w)
    return out


def prebuild():
    hk = vbuild.tree_hash(vbuild.repo_headers() + vbuild.mc_headers())
    fl = vbuild.BASE + ["-O2", "-I" + MC] + vbuild.EIGEN
    inc = "/opt/vp/cmake/argparse"
    for d in glob.glob("/opt/vp/cmake/argparse*") + glob.glob("/opt/vp/cmake/argparse*/include"):
        if os.path.exists(d + "/argparse/argparse.hpp"):
            inc = d
    objs = vbuild.compile_all([(os.path.join(MC, "c20.cpp"), fl + ["-rdynamic"], hk), (os.path.join(MC, "c20hook.cpp"), fl, hk),
                               (T + "/thunder_main.cpp", vbuild.BASE + ["-O0", "-I" + inc] + vbuild.EIGEN, vbuild.tree_hash(vbuild.repo_headers()))])
    lib = weak_lib()
    return vbuild.link([objs[0], objs[1]] + lib, ["-rdynamic"]), vbuild.link([objs[2], objs[1]] + lib)


def check(tier, scratch, only, run_bin, budget, seed, **k):
    b, cli = prebuild()
    d, entries = vbuild.emit(b, scratch, tier)
    vbuild.ensure_template()
    errors, gens = [], []
    for e in entries:
        try:
            gens.append((e, vbuild.gen_one(cli, e, d)))
        except vbuild.GenError as x:
            errors.append(x)
    errors += vbuild.gen_robots(entries, d, batch=1, gens=gens)
    res = run_bin(b, ["--robots", d] + (["--case", str(only)] if only is not None else []), scratch, tier, budget)
    res["violations"] = [vbuild.gen_violation(e) for e in errors] + res["violations"]
    res["coverage"] = {"generated_robots": len(entries)}
    return res
