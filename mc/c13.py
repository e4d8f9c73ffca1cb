import json, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vbuild


def prebuild():
    vbuild.cli()
    return vbuild.harness("c13", extra=["-rdynamic"])


def check(tier, scratch, only, run_bin, budget, seed, **k):
    b = prebuild()
    d, entries = vbuild.emit(b, scratch, tier)
    errors = vbuild.gen_robots(entries, d, batch=5)
    res = run_bin(b, ["--robots", d] + (["--case", str(only)] if only is not None else []), scratch, tier, budget)
    res["violations"] = [vbuild.gen_violation(e) for e in errors] + res["violations"]
    res["coverage"] = {"generated_robots": len(entries)}
    # memory: the same exploration with instrumented generated code (work buffers made static so that they are checked)
    sub = [e for e in entries if e["name"] in ASAN] if tier == "quick" else entries
    d2 = os.path.join(scratch, "asan")
    os.makedirs(d2)
    gens = [(e, os.path.join(d, e["name"], e["name"] + "_generatedFiles")) for e in sub]
    bad = set(x.robot["name"] for x in errors)
    gens = [g for g in gens if g[0]["name"] not in bad]
    san = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-O1", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1"]
    for pre in ("#define thread_local static", "#define thread_local"):
        # the long chains first and without optimisation (the compiler is slow on them)
        big = [g for g in gens if g[0]["name"].startswith("chain")]
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(vbuild.gen_robots, sub, d2, batch=1, opt=["-O0" if o == "-O1" else o for o in san], pre=pre, gens=big)
            c = ex.submit(vbuild.gen_robots, sub, d2, batch=1, opt=san, pre=pre, gens=[g for g in gens if g not in big])
            err2 = a.result() + c.result()
        if not err2:
            break
    b2 = vbuild.link([x for x in vbuild.compile_all(harness_jobs())], ["-fsanitize=address,undefined", "-rdynamic"])
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_odr_violation=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
    s2 = os.path.join(scratch, "asanrun")
    os.makedirs(s2)
    r2 = run_bin(b2, ["--robots", d2] + (["--case", str(only)] if only is not None else []), s2, tier, budget, env=env)
    for v in r2["violations"]:
        v["what"] = "memory: " + v["what"]
    res["violations"] += r2["violations"]
    res["coverage"]["memory_checked_robots"] = len(gens)
    for f in ("states", "transitions", "traces"):
        res["coverage"]["memory_checked_" + f] = r2[f]
    return res


def harness_jobs():
    hk = vbuild.tree_hash(vbuild.repo_headers() + vbuild.mc_headers())
    return [(os.path.join(vbuild.MC, "c13.cpp"), vbuild.BASE + ["-O2", "-I" + vbuild.MC] + vbuild.EIGEN + ["-rdynamic"], hk)] + vbuild.lib_jobs()


ASAN = {"g1", "g3", "g9", "g20", "g30", "g40", "g55", "g70", "g90", "g110", "robot", "savefe", "indir", "chain8", "chain11"}
