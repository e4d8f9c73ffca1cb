import os
import vbuild


def prebuild():
    vbuild.cli()
    return vbuild.harness("c16", extra=["-rdynamic"])


def check(tier, scratch, only, run_bin, budget, seed, **k):
    os.environ["MC_CLI"] = vbuild.cli()
    return vbuild.gen_check(prebuild(), tier, scratch, only, run_bin, budget, opt=("-O0",))
