import glob, os
import vbuild
G = os.path.join(vbuild.REPO, "src/genYAML")


def gy_jobs(flags=("-O1",)):
    hk = vbuild.tree_hash(glob.glob(G + "/library/*.h*"))
    return [(s, ["-std=c++17", "-w", "-I" + G] + vbuild.EIGEN + list(flags), hk) for s in sorted(glob.glob(G + "/src/*.cpp"))]


def prebuild():
    a = vbuild.harness("c19")
    hk = vbuild.tree_hash(glob.glob(G + "/library/*.h*") + vbuild.mc_headers())
    b = vbuild.link(vbuild.compile_all([(os.path.join(vbuild.MC, "c19.cpp"), ["-std=c++17", "-w", "-O2", "-DGENY", "-I" + vbuild.MC, "-I" + G] + vbuild.EIGEN, hk)] + gy_jobs()))
    hk = vbuild.tree_hash(glob.glob(G + "/library/*.h*"))
    p = vbuild.link(vbuild.compile_all([(G + "/main_YAML.cpp", ["-std=c++17", "-w", "-O1", "-I" + G] + vbuild.EIGEN, hk)] + gy_jobs()))
    return a, b, p


def check(tier, scratch, only, run_bin, budget, seed, **k):
    a, b, p = prebuild()
    out = None
    base = 0
    for name, binary in (("library", a), ("genYAML", b)):
        d = os.path.join(scratch, name)
        os.makedirs(d)
        sel = []
        if only is not None:  # cases of the second binary are numbered from 1000
            if (only >= 1000) != (name == "genYAML"):
                continue
            sel = ["--case", str(only % 1000)]
        r = run_bin(binary, sel, d, tier, budget, env=dict(os.environ, MC_GENYAML=p))
        for v in r["violations"]:
            v["what"] = name + ": " + v["what"]
            if name == "genYAML" and v["case"] >= 0:
                v["case"] += 1000
        if out is None:
            out = r
        else:
            for f in ("states", "transitions", "traces", "cases", "cases_run"):
                out[f] += r[f]
            out["violations"] += r["violations"]
            out["samples"] = out["samples"][:4] + r["samples"]
            out["stopped"] = out["stopped"] or r["stopped"]
    return out
