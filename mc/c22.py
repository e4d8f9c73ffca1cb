import glob, os, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import vbuild
from vbuild import MC, T

MOCK = os.path.join(MC, "pymock")


def prebuild():
    import c20
    hk = vbuild.tree_hash(vbuild.repo_headers() + vbuild.mc_headers() + glob.glob(MOCK + "/pybind11/*.h"))
    fl = vbuild.BASE + ["-O2", "-I" + MC] + vbuild.EIGEN
    objs = vbuild.compile_all([(os.path.join(MC, "c22.cpp"), fl + ["-rdynamic"], hk), (os.path.join(MC, "c20hook.cpp"), fl, hk)])
    return vbuild.link(objs + c20.weak_lib(), ["-rdynamic"]), c20.prebuild()[1]


def public_names(header):
    """setters, getters, loaders and savers of variables, parameters, functions and sizes in the public part of a generated
    class (an internal helper that happens to be public need not be exported)"""
    t = re.sub(r"/\*.*?\*/", "", header, flags=re.S)
    t = re.sub(r"//[^\n]*", "", t)
    pub, on = "", False
    for part in re.split(r"\b(public|private|protected)\s*:", t):
        if part in ("public", "private", "protected"):
            on = part == "public"
        elif on:
            pub += part
    names = set(re.findall(r"\b(set_\w+|load_\w+|save_\w+|get_num\w+)\s*\(", pub))
    names = set(n for n in names if re.fullmatch(r"(set_(q|dq|ddq|d3q|d4q|dqr|ddqr|x|dx|ddx|ddxr|w|par_[A-Z]\w*|par_gravity|par_world2L0))|load_(conf|par(_[A-Z]+)?)|save_par(_[A-Z]+)?|get_num(Joints|ParDYN|ParREG)", n))
    return sorted(names | set(re.findall(r"\b(get_\w+)\s*\(\s*\)", pub)))


def module(g, name):
    """the generated project, built with its own CMakeLists.txt; returns the module or a GenError text"""
    files = sorted(f for f in glob.glob(g + "/*") if f.endswith((".h", ".cpp", ".txt")))
    mock = sorted(f for f in glob.glob(MOCK + "/*/*"))
    key = vbuild.digest("pymod", *[x for f in files + mock for x in (os.path.basename(f), vbuild.read(f))])
    out = os.path.join(vbuild.cache_dir(), key + ".py.so")
    if not os.path.exists(out):
        b = tempfile.mkdtemp(prefix="mc-pymod-")
        try:
            pch = vbuild.pch(["-std=gnu++14", "-w", "-fPIC", "-I/usr/include/eigen3"])
            rc, log = vbuild.sh(["cmake", "-S", g, "-B", b, "-DCMAKE_MODULE_PATH=" + MOCK + "/cmake", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_YAML-CPP=" + MOCK + "/yaml",
                                 "-DCMAKE_CXX_FLAGS=-w -include " + pch])
            if rc:
                return None, "the CMakeLists.txt of the bindings is not accepted", log[-3000:]
            rc, log = vbuild.sh(["cmake", "--build", b, "-j", "2"])
            if rc:
                return None, "the binding module cannot be built", log[-3000:]
            so = [f for f in glob.glob(b + "/*.so")]
            if len(so) != 1 or os.path.basename(so[0]) != "thunder_%s_py.so" % name:
                return None, "the bindings' project builds other modules than thunder_%s_py" % name, str([os.path.basename(f) for f in so])
            shutil.copy(so[0], out + ".tmp%d" % os.getpid())
            os.replace(out + ".tmp%d" % os.getpid(), out)
        finally:
            shutil.rmtree(b, ignore_errors=True)
    return out, "", ""


def check(tier, scratch, only, run_bin, budget, seed, **k):
    b, cli = prebuild()
    d, entries = vbuild.emit(b, scratch, tier)
    vbuild.ensure_template()
    vbuild.pch(["-std=gnu++14", "-w", "-fPIC", "-I/usr/include/eigen3"])

    def one(e):
        try:
            g = vbuild.gen_one(cli, e, d)
            p = vbuild.gen_one(cli, dict(e, flags=["-p"]), os.path.join(d, "py"))
        except vbuild.GenError as x:
            return e, None, x
        so, what, log = module(p, e["name"])
        if not so:
            return e, g, vbuild.GenError(e, what, log)
        shutil.copy(so, g + "/module.so")
        open(g + "/public.txt", "w").write("\n".join(public_names(vbuild.read(p + "/thunder_%s.h" % e["name"]).decode())))
        return e, g, None
    with ThreadPoolExecutor(vbuild.JOBS) as ex:
        r = list(ex.map(one, entries))
    errors = [x for e, g, x in r if x]
    errors += vbuild.gen_robots([e for e, g, x in r], d, batch=1, gens=[(e, g) for e, g, x in r if not x])
    res = run_bin(b, ["--robots", d] + (["--case", str(only)] if only is not None else []), scratch, tier, budget)
    res["violations"] = [vbuild.gen_violation(e) for e in errors] + res["violations"]
    res["coverage"] = {"generated_robots": len(entries), "binding_modules": len([1 for e, g, x in r if g and not x])}
    return res
