#!/usr/bin/env python3
"""Decides one property on /repo's current tree.  usage: run.py <ID> [--thorough] [--replay FILE] | run.py --setup"""
import importlib, json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from vbuild import VERIF, BuildError

ASSUME = ["IEEE double arithmetic as compiled by g++ 13 at the stated flags",
          "CasADi 3.7 (external) evaluates and differentiates expressions correctly",
          "values outside the enumerated alphabets behave like the enumerated generic ones (small-scope hypothesis on analytic functions)"]
FN = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11"]


def run_bin(binary, args, scratch, tier, timeout, jobs=8, env=None):
    """runs a harness built on mc::run; returns its parsed result"""
    d = os.path.join(scratch, "run")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(scratch, "result.json")
    cmd = [binary] + args + ["--out", out, "--dir", d, "--jobs", str(jobs)] + (["--thorough"] if tier == "thorough" else [])
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, env=env, cwd=scratch)
    try:
        log = p.communicate(timeout=timeout)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise RuntimeError("harness exceeded %d s" % timeout)
    if not os.path.exists(out):
        raise RuntimeError("harness gave no result (exit %s)\n%s" % (p.returncode, log[-3000:]))
    with open(out, errors="replace") as f:
        r = json.load(f, strict=False)
    if r.get("infra"):
        raise RuntimeError("a worker of the harness was killed from outside")
    return r


def known(pid):
    """entries `finding: property=<id> key=<substring> <what fails>` of the known-findings file"""
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % pid):
                k = l.split(" key=", 1)[1].split(" ", 1)
                r.append((k[0], k[1].strip()))
    return r


def decide(pid, tier, replay=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.chmod(scratch, 0o755)
    only = None
    if replay:
        rp = json.load(open(replay))
        only, tier = rp["case"], rp.get("tier", tier)
    try:
        budget = 860 if tier == "quick" else 4 * 3600
        if pid in FN:
            b = vbuild.harness("fn")
            extra = ["--prop", pid] + (["--case", str(only)] if only is not None else [])
            res = run_bin(b, extra, scratch, tier, budget)
        else:
            m = importlib.import_module(pid.lower())
            res = m.check(tier=tier, scratch=scratch, only=only, run_bin=run_bin, budget=budget, seed=seed)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol, hits = [], {}
    for v in res.get("violations", []):
        for key, text in known(pid):
            if key in v.get("what", "") + " " + v.get("name", ""):
                hits[key] = text
                break
        else:
            viol.append(v)
    for key, text in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    nviol = len(viol)
    cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["traces"],
           "samples": res.get("samples", [])[:8] or ["(none)"], "cases": res["cases"], "cases_run": res["cases_run"],
           "exhaustive": bool(res["cases"] == res["cases_run"] and not res.get("stopped") and only is None)}
    for k, v in res.get("coverage", {}).items():
        cov[k] = v
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME + res.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d states, %d transitions, %d traces, %d violations, %.1f s" % (
        pid, tier, res["cases_run"], res["states"], res["transitions"], res["traces"], nviol, time.time() - t0))
    if viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        v = viol[0]
        f = os.path.join(d, pid + ".json")
        with open(f, "w") as o:
            json.dump({"property": pid, "tier": tier, "case": v.get("case"), "name": v.get("name"), "what": v.get("what"), "detail": v.get("detail"),
                       "others": [{"name": x.get("name"), "what": x.get("what")} for x in viol[1:30]],
                       "replay": "python3 mc/run.py %s --replay %s" % (pid, f)}, o, indent=1)
        print("what: %s\n%s" % (v.get("what"), (v.get("detail") or "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    return 0


def setup():
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        ids = [c["property"] for c in json.load(f)["checks"]]
    vbuild.prune()
    if any(i in FN for i in ids):
        vbuild.harness("fn")
    for i in ids:
        if i not in FN:
            m = importlib.import_module(i.lower())
            if hasattr(m, "prebuild"):
                m.prebuild()
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            sys.exit(setup())
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        sys.exit(decide(a[0], tier, a[a.index("--replay") + 1] if "--replay" in a else None))
    except BuildError as e:
        print("BUILD ERROR: " + str(e))
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
