import vbuild

NAME = "c14"


def prebuild():
    vbuild.cli()
    return vbuild.harness("c14", extra=["-rdynamic"])


def check(tier, scratch, only, run_bin, budget, seed, **k):
    return vbuild.gen_check(prebuild(), tier, scratch, only, run_bin, budget, opt=("-O1",))
