"""Decide one property:  check.py --property ID [--tier quick|thorough] | --replay FILE"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ.setdefault("PYGAME_HIDE_SUPPORT_PROMPT", "1")

LIMIT = {"quick": 700, "thorough": 780}
ASSUME_COMMON = [
    "Python floats are read as real numbers; decimal constants are read as the short decimals they denote (rounding, "
    "overflow and NaN propagation are outside the claim)",
    "obligations are decided up to a stated margin (default 1e-4 on equalities and inequalities)",
    "division by exactly zero and similar domain boundaries are replayed on the real code and excluded when it carries on",
]


def functions(results):
    """Functions executed by the check (class bodies, which only define them, left out)."""
    fs = {f for r in results for f in r["functions"]}
    return sorted(f for f in fs if not f.split(":")[-1].split(".")[-1][:1].isupper())


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    d = dict(x.split("=", 1) for x in line[len("known: "):].split(" :: ")[0].split(" "))
                    out.append((d, line.split(" :: ", 1)[1]))
    except FileNotFoundError:
        pass
    return out


def child(args):
    module, name, tier, deadline, seed = args
    from symx import loader
    loader.install()
    from symx import engine
    mod = importlib.import_module(module)
    case = [c for c in mod.cases(tier) if c.name == name][0]
    ex = engine.Explorer(module, case, tier, min(deadline, time.time() + case.opts.get("time", 1e9)), seed)
    try:
        r = ex.explore()
    except Exception as e:
        import traceback
        r = {"case": name, "violations": [], "errors": ["engine: " + traceback.format_exc()[-1500:]], "excluded": [],
             "engines": {}, "samples": [], "mismatch": [], "validated": 0, "stats": {}, "wall_s": 0, "known": []}
    finally:
        ex.worker.stop()
    r["functions"] = sorted("%s:%s" % k for k in loader.EXECUTED)
    r["sources"] = dict(loader.SOURCES)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.replay:
        return replay(a.replay)
    pid, tier = a.property, a.tier if a.tier in LIMIT else "quick"
    module = "props." + pid.lower()
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    # the case list needs no code under test
    mod = importlib.import_module(module)
    cs = [c for c in mod.cases(tier) if a.case is None or a.case in c.name]
    cs.sort(key=lambda c: -c.opts.get("cost", 1))
    jobs = [(module, c.name, tier, deadline, seed) for c in cs]
    results = []
    stop = False
    ctx = mp.get_context("spawn")
    with ctx.Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(child, jobs):
            results.append(r)
            if a.v:
                print(r["case"], "paths=%d" % r["stats"].get("paths", 0), "q=%d" % r["stats"].get("queries", 0),
                      "%.1fs" % r["wall_s"], "solver=%.1fs" % r["stats"].get("solver_s", 0), "valid=%d" % r["validated"],
                      "viol=%d" % len(r["violations"]), "err=%d" % len(r["errors"]), r["excluded"][:2], r["engines"], flush=True)
                for e in r["errors"][:3] + [str(v)[:1500] for v in r["violations"][:2]] + [str(x)[:600] for x in r["mismatch"][:2]]:
                    print("   !", e, flush=True)
            if any(not is_known(v, pid) for v in r["violations"]):
                stop = True
                if not a.v:
                    pool.terminate()
                    break
    return report(pid, tier, seed, mod, cs, results, time.time() - t0, stop)


def is_known(v, pid):
    """Every failed obligation of the violation is listed for its case (check names have their blanks replaced by _)."""
    listed = {d.get("check") for d, _ in known_findings(pid) if d.get("case") == v["case"]}
    return bool(v["checks"]) and all(c.replace(" ", "_") in listed for c in v["checks"])


def report(pid, tier, seed, mod, cs, results, wall, stopped):
    viol = [v for r in results for v in r["violations"]]
    new = [v for v in viol if not is_known(v, pid)]
    errors = ["%s: %s" % (r["case"], e) for r in results for e in r["errors"]]
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    eng = {}
    for r in results:
        for k, v in r["engines"].items():
            eng[k] = eng.get(k, 0) + v
    novalid = [r["case"] for r in results if not r["validated"] and not r["violations"]]
    I = lambda k: int(st.get(k, 0))
    cov = {
        "states": I("paths_complete"), "transitions": I("forks") + I("paths"),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": [s for r in results for s in r["samples"]][:6],
        "exhaustive": not errors and not new,
        "cases": len(results), "case_names": sorted(r["case"] for r in results)[:200],
        "paths_explored": I("paths"), "paths_complete": I("paths_complete"), "paths_infeasible": I("paths_infeasible") + I("paths_dead"),
        "paths_excluded": I("paths_excluded"), "excluded": sorted({e for r in results for e in r["excluded"]})[:20],
        "obligations": I("obligations"), "obligations_trivial_after_normalisation": I("trivial"),
        "obligations_discharged_by_solver": I("discharged"), "goal_queries": I("queries"),
        "feasibility_queries": I("feas_queries"), "solver_s": round(st.get("solver_s", 0), 2), "verdicts": eng,
        "replays_on_real_code": I("replays"), "cases_without_validated_trace": novalid,
        "encoding_mismatches": sum(len(r["mismatch"]) for r in results),
        "functions_encoded": functions(results),
        "source_hashes": {k: v for r in results for k, v in r["sources"].items()},
        "bounds": getattr(mod, "BOUNDS", ""), "inconclusive": errors[:20],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUME_COMMON + list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2),
          "violations": len(new)}
    # runs against another tree (mutants) leave the evidence of /repo alone
    evidence = os.path.join(ROOT, "evidence") if os.environ.get("SYMX_REPO", "/repo") == "/repo" else "/tmp/symx_evidence"
    os.makedirs(evidence, exist_ok=True)
    with open(os.path.join(evidence, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for d, text in known_findings(pid):
        if any(v["case"] == d.get("case") and is_known(v, pid) for v in viol):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for v in new[:3]:
            h = hashlib.sha256(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, h))
            with open(p, "w") as f:
                json.dump(dict(v, property=pid), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  case %s: %s" % (v["case"], v["what"]))
            print("  inputs: %s" % json.dumps(v["assignment"])[:600])
        return 1
    if errors:
        print("UNDECIDED property=%s: %d obligation(s) or path(s) left undecided (listed in the evidence, outside the claim)" % (
            pid, len(errors)))
        for e in errors[:8]:
            print("  ", e[:1500])
        if not st.get("paths_complete"):
            return 2
    print("OK property=%s tier=%s cases=%d paths=%d obligations=%d (solver-discharged %d) queries=%d validated=%d solver=%.1fs wall=%.1fs" % (
        pid, tier, len(results), I("paths"), I("obligations"), I("discharged"), I("queries"), cov["traces_validated_against_impl"],
        st.get("solver_s", 0), wall))
    return 0


def replay(path):
    from symx import loader
    loader.install_concrete()
    from symx import engine
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module(v["module"])
    case = [c for t in (v.get("tier", "quick"), "thorough") for c in mod.cases(t) if c.name == v["case"]][0]
    rep = engine.run_concrete(case.fn, case.params, v["assignment"], case.opts)
    print(json.dumps(rep, indent=1))
    return 1 if rep["status"] == "exc" or rep.get("failed") else 0


if __name__ == "__main__":
    sys.exit(main())
