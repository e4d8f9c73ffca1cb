import vbuild

NAME = "c09"


def prebuild():
    vbuild.cli()
    return vbuild.harness("c09", extra=["-rdynamic"])


def check(tier, scratch, only, run_bin, budget, seed, **k):
    return vbuild.gen_check(prebuild(), tier, scratch, only, run_bin, budget, batch=2)
