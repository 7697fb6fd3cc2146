#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--config NAME] [--replay FILE] [--list]

Decides one property by symbolic execution of the code in /repo.  Exit 0: the
property held on everything explored; exit 1 with a VIOLATION line: it is broken.
"""
import argparse
import importlib
import json
import os
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["TQDM_DISABLE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
for v in ("PSP_CONFIG_FILE", "PSP_DATA_ROOT"):
    os.environ.pop(v, None)
warnings.simplefilter("ignore")

EVID = os.path.join(HERE, "evidence")


def preload():
    import dask, dask.array, h5py, numpy, scipy, scipy.integrate, scipy.interpolate, xarray, yaml   # noqa
    import geotiepoints.multilinear   # noqa
    import requests   # noqa
    import sx   # noqa
    import z3   # noqa
    from sx import arr, core, env, loader, masked, run, strs   # noqa


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config")
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("--all", action="store_true", help="go on with the other configurations after a violation")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    preload()
    from sx import run
    mod = importlib.import_module("props." + args.prop.lower())
    cfgs = mod.configs(tier)
    if args.list:
        for c in cfgs:
            print(c.name, c.params)
        return 0
    if args.replay:
        return replay(mod, args)
    if args.config:
        cfgs = [c for c in cfgs if args.config in c.name]
    results = []
    kf = known_findings(args.prop)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    with tempfile.TemporaryDirectory(prefix="sxverif_", ignore_cleanup_errors=True) as tmp:
        pend = sorted(enumerate(cfgs), key=lambda p: -p[1].budget)
        live = {}
        while pend or live:
            while pend and len(live) < args.jobs:
                i, c = pend.pop(0)
                left = deadline - time.time()
                if left < 5:
                    results.append({"config": c.name, "error": "not started: the time of the check is used up"})
                    continue
                c.budget = min(c.budget, left)
                out = os.path.join(tmp, "%d.json" % i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        run.run_config(c, tier, seed, out)
                    finally:
                        os._exit(3)
                live[pid] = (c, out, time.time())
            time.sleep(0.02)
            for pid in list(live):
                c, out, ts = live[pid]
                r, _ = os.waitpid(pid, os.WNOHANG)
                if r == 0:
                    if time.time() - ts > c.budget * 2 + 60 or time.time() > deadline + 60:
                        os.kill(pid, 9)
                    continue
                del live[pid]
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    results.append({"config": c.name, "error": "the exploring process ended without a result"})
                r = results[-1]
                if r.get("violation") and not args.all and not any(matches(k, r) for k in kf):
                    pend = []           # confirmed on the real code: the verdict is known
                    for other in live:
                        os.kill(other, 9)
                        os.waitpid(other, 0)
                    live = {}
                    break
                if args.v:
                    print("%-40s %6.1f s %5s paths %6s asserts %6s queries %6.1f s solver %4s validated %3s skipped %s%s" % (
                        r["config"], r.get("wall_s", 0), r.get("paths"), r.get("asserts"), r.get("queries"),
                        r.get("solver_s", 0), r.get("validated"), r.get("skipped_validation"),
                        "VIOLATION " if r.get("violation") else "", "UNDECIDED" if r.get("n_undecided") else ""), flush=True)
    return report(mod, args.prop, tier, seed, cfgs, results, time.time() - t0, bool(args.config))


def matches(finding, res):
    v = res["violation"]
    return finding["config"] == res["config"] and finding["label"] == v["label"]


def report(mod, prop, tier, seed, cfgs, results, wall, partial):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    results.sort(key=lambda r: r["config"])
    bad, known = [], []
    kf = known_findings(prop)
    for r in results:
        if r.get("violation"):
            f = [k for k in kf if matches(k, r)]
            (known if f else bad).append((r, f))
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)      # noqa
    und = [dict(u, config=r["config"]) for r in results for u in r.get("undecided", [])]
    und += [{"config": r["config"], "why": "engine error: " + r["error"][-600:]} for r in results if r.get("error")]
    und += [{"config": r["config"], "why": "vacuity: assertion(s) never reached: %s" % r["missing_labels"]}
            for r in results if r.get("missing_labels") and not r.get("violation") and not r.get("undecided")]
    samples = [dict(s, config=r["config"]) for r in results for s in r.get("samples", [])[:1]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("validated"), "samples": samples,
            "exhaustive": all(r.get("complete") for r in results) and not und,
            "explanation": "states: paths of the harness and the code under test explored symbolically; transitions: "
                           "feasible branch decisions; every assertion is decided by the solver for all inputs of its path.",
            "functions_encoded": funcs,
            "configurations": [{k: r.get(k) for k in ("config", "paths", "aborted_paths", "asserts", "trivial_asserts",
                                                      "queries", "solver_s", "complete", "validated", "skipped_validation",
                                                      "unknown_branches", "n_undecided", "wall_s", "bounds", "labels",
                                                      "fallback_runs")}
                               for r in results],
            "assertions_discharged": tot("asserts"),
            "assertions_true_by_normalisation": tot("trivial_asserts"),
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2),
            "undecided": und,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = {}
    for u in und:
        k = "UNDECIDED property=%s config=%s %s" % (prop, u["config"], u["why"].replace("\n", " ")[:400])
        seen[k] = seen.get(k, 0) + 1
    for k, n in list(seen.items())[:40]:
        print(k + (" (%d times)" % n if n > 1 else ""))
    for r, f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f[0]["what"]))
    print("%s: %d configurations, %d paths, %d assertions (%d by normalisation), %d solver queries in %.1f s, "
          "%d replays on the unpatched code, %d functions, %.1f s" % (
              prop, len(results), tot("paths"), tot("asserts"), tot("trivial_asserts"), tot("queries"),
              tot("solver_s"), tot("validated"), len(funcs), wall))
    for nb, (r, _) in enumerate(bad):
        v = r["violation"]
        path = os.path.join(EVID, "replay", "%s-%s.json" % (prop, r["config"].replace("/", "_")))
        with open(path, "w") as f:
            json.dump({"property": prop, "config": r["config"], "tier": tier, **v}, f, indent=1)
        if nb >= 4:
            continue
        print("  %s [%s]: %s: %s" % (prop, r["config"], v["label"], str(v["detail"]).replace("\n", " ")[:500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if bad else 0


COMMON = [
    "floating point arithmetic is modelled by exact real arithmetic: rounding is outside the claim (assertions carry "
    "relative tolerances, and every counterexample is replayed in floating point on the unpatched code)",
    "numpy, scipy, dask, h5py, xarray and geotiepoints behave as documented; numpy ufuncs, the trapezoidal rule, "
    "multilinear interpolation and HDF5 files are replaced by symbolic models of their documentation (DESIGN.md, 'Trusted models')",
    "exp, log, cos, arccos and sqrt are uninterpreted with monotonicity, convexity, range, inverse and point lemmas",
]


def replay(mod, args):
    from sx import run
    from sx.env import make_scratch
    import shutil
    d = json.load(open(args.replay))
    cfg = [c for c in mod.configs(d.get("tier", "quick")) if c.name == d["config"]][0]
    scratch = make_scratch()
    w = run.Worker(cfg.fn, cfg.params, scratch)
    res = w.run(d["inputs"])
    w.kill()
    shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1))
    if res["status"] in ("fail", "error"):
        print("VIOLATION property=%s replay=%s" % (d["property"], args.replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
