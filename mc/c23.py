import vbuild
def prebuild(): return vbuild.harness("c23")
def check(tier, scratch, only, run_bin, budget, seed, **k):
    return run_bin(prebuild(), ["--case", str(only)] if only is not None else [], scratch, tier, budget)
