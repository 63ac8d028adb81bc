"""Run the check of one property.

usage: check PROPERTY [--tier quick|thorough] [--scenario NAME] [--serial]
       check --replay FILE
"""

import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
import warnings
from collections import Counter

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    for fn in sorted(os.listdir(os.path.join(VERIF, "props"))):
        if fn.startswith(prop + "_") and fn.endswith(".py"):
            return importlib.import_module("props." + fn[:-3])
    raise SystemExit(f"no check for property {prop}")


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == prop]


def worker(args):
    prop, idx, tier, seed, end = args
    budget = max(end - time.time(), 5)
    from symsolph import engine as E
    from symsolph.prove import Prover

    mod = load(prop)
    scn = mod.SCENARIOS[idx]
    E.STATS.__init__()
    t0 = time.time()
    p = Prover(prop, tier, seed, budget, known_findings(prop))
    err = None
    try:
        p.run([scn])
    except BaseException as e:  # engine failure: report as such
        err = f"{scn.name}: {type(e).__name__}: {e}\n" + traceback.format_exc()
    return dict(
        name=scn.name,
        bounds=scn.bounds,
        findings=[
            dict(
                scenario=f.scenario,
                label=f.label,
                kind=f.kind,
                values=f.values,
                detail=f.detail,
                obs=getattr(f, "obs", None),
            )
            for f in p.findings
        ],
        inconclusive=p.inconclusive,
        spurious=p.spurious,
        obligations=p.obligations,
        discharged=p.discharged,
        pinned=p.pinned_discharged,
        witnesses=p.witnesses,
        notes=p.notes,
        functions=sorted(p.functions),
        samples=p.samples,
        scen=p.scen_stats,
        stats=vars(E.STATS),
        err=err,
        wall=time.time() - t0,
    )


def matches(k, f):
    return k["scenario"] == f["scenario"] and k["label"] == f["label"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--width", type=int, default=500)
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(a.prop)
    known = known_findings(a.prop)
    from symsolph.prove import jsonable

    idxs = [
        i
        for i, s in enumerate(mod.SCENARIOS)
        if (s.tier == "quick" or a.tier == "thorough")
        and (not a.scenario or s.name == a.scenario)
    ]
    # soft limit: scenarios report what is decided until then; hard limit:
    # scenarios which do not come back are stopped and reported as undecided
    soft, hard = (600, 780) if a.tier == "quick" else (3 * 3600, 4 * 3600)
    jobs = [(a.prop, i, a.tier, seed, t0 + soft) for i in idxs]
    results, undecided = [], []
    if a.serial:
        for j in jobs:
            results.append(worker(j))
            if any(not any(matches(k, f) for k in known)
                   for f in results[-1]["findings"]):
                break
    else:
        ctx = mp.get_context("fork")
        end = t0 + hard
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=4) as pool:
            it = pool.imap_unordered(worker, jobs, chunksize=1)
            for _ in jobs:
                try:
                    r = it.next(timeout=max(end - time.time(), 0.1))
                except mp.TimeoutError:
                    break
                results.append(r)
                if any(not any(matches(k, f) for k in known)
                       for f in r["findings"]):
                    # the verdict is clear, the rest is details
                    end = min(end, time.time() + 240)
            pool.terminate()
        done = {r["name"] for r in results}
        undecided = [
            f"{mod.SCENARIOS[i].name}: stopped after {time.time() - t0:.0f} s"
            for i in idxs if mod.SCENARIOS[i].name not in done
        ]
    results.sort(key=lambda r: r["name"])
    findings = [f for r in results for f in r["findings"]]
    new, old = [], []
    for f in findings:
        k = next((k for k in known if matches(k, f)), None)
        (old if k else new).append((f, k))
    rdir = os.path.join(VERIF, "replay", a.prop)
    shutil.rmtree(rdir, ignore_errors=True)
    code = 0
    seen_known = set()
    for f, k in old:
        if k["id"] not in seen_known:
            seen_known.add(k["id"])
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for n, (f, _) in enumerate(new[:20]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{n}.json")
        with open(path, "w") as fh:
            json.dump(jsonable(dict(property=a.prop, **f)), fh, indent=1)
        print(f"VIOLATION property={a.prop} replay={path}")
        print(f"  scenario {f['scenario']}: {f['label']} ({f['kind']})")
        code = 1
    errs = [r["err"] for r in results if r["err"]]
    tot = lambda k: sum(r[k] for r in results)  # noqa: E731
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    inconclusive = undecided + [
        x for r in results for x in r["inconclusive"]]
    spurious = [x for r in results for x in r["spurious"]]
    functions = sorted({x for r in results for x in r["functions"]})
    samples = [s for r in results for s in r["samples"]][:6]
    bounds = {r["name"]: r["bounds"] for r in results}
    ev = dict(
        property=a.prop,
        tier=a.tier,
        seed=seed,
        level="other",
        coverage=dict(
            explanation=(
                "Bounded symbolic execution of the real oemof.solph code: "
                f"{len(results)} scenarios, {st.get('paths', 0)} feasible "
                f"paths explored, {tot('obligations')} obligations, "
                f"{tot('discharged')} discharged by z3 for all parameter "
                "values and all values of the decision variables within the "
                f"stated bounds, {tot('pinned')} discharged for pinned "
                "parameter instances only, "
                f"{len(inconclusive)} inconclusive, "
                f"{len(spurious)} candidate counterexamples that did not "
                "replay on the real code (not reported)."
            ),
            scenarios=len(results),
            paths=st.get("paths", 0),
            forks=st.get("forks", 0),
            obligations=tot("obligations"),
            discharged=tot("discharged"),
            discharged_pinned_only=tot("pinned"),
            reachability_witnesses=tot("witnesses"),
            inconclusive=inconclusive,
            unreplayed_candidates=spurious,
            queries=st.get("queries", 0),
            queries_sat=st.get("sat", 0),
            queries_unsat=st.get("unsat", 0),
            queries_unknown=st.get("unknown", 0),
            solver_seconds=round(st.get("time", 0), 2),
            functions_encoded=functions,
            models_encoded=st.get("models_built", 0),
            bounds=bounds,
            notes=[
                f"{n} x {x}"
                for x, n in Counter(
                    x for r in results for x in r["notes"]
                ).items()
            ][:60],
            samples=samples,
            scenario_stats=[s for r in results for s in r["scen"]],
            engine_errors=[e.splitlines()[0] for e in errs],
        ),
        assumptions=[
            "numbers are exact reals; rounding of machine floats is outside "
            "the claim",
            "Pyomo (expression construction) and the MILP solver are "
            "trusted; the constraint system handed to the solver is what "
            "is decided",
        ]
        + list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    # --scenario runs are for debugging and write their own file
    ef = a.prop if not a.scenario else a.prop + ".debug"
    with open(os.path.join(VERIF, "evidence", ef + ".json"), "w") as fh:
        json.dump(jsonable(ev), fh, indent=1)
    print(
        f"{a.prop} [{a.tier}] scenarios={len(results)} "
        f"paths={st.get('paths', 0)} obligations={tot('obligations')} "
        f"discharged={tot('discharged')} pinned={tot('pinned')} "
        f"inconclusive={len(inconclusive)} unreplayed={len(spurious)} "
        f"queries={st.get('queries', 0)} violations={len(new)} "
        f"wall={ev['wall_s']}s"
    )
    if a.verbose:
        for r in results:
            print(r["name"], round(r["wall"], 1), "s", r["obligations"],
                  r["discharged"], "paths", r["stats"]["paths"])
            for x, n in Counter(r["notes"]).items():
                print("   note", n, "x", x[:300])
            for f in r["findings"][:12]:
                print("   finding", f["label"], f["kind"], f["values"],
                      str(f["detail"])[-a.width:], f.get("obs"))
    for x in inconclusive:
        print("INCONCLUSIVE", x)
    for x in spurious:
        print("UNREPLAYED", x)
    for e in errs:
        print("ENGINE-ERROR", e if a.verbose else e.splitlines()[0])
    if code == 0 and errs and len(errs) == len(results):
        return 2
    return code


def replay(path):
    """Re-run a stored counterexample on the real code."""
    from symsolph import engine as E
    from symsolph.prove import Prover

    with open(path) as fh:
        d = json.load(fh)
    mod = load(d["property"])
    scn = next(s for s in mod.SCENARIOS if s.name == d["scenario"])
    p = Prover(d["property"], "quick", 1, 600)
    vals = d["values"]
    if d["kind"] == "exception":
        ctx, o = p.concrete(scn, vals)
        ok = o.result.exc is not None
        print("raised" if ok else "no exception", o.result.exc)
    elif d["kind"] == "accepted":
        ok = p.replay_noexc(scn, vals)
    elif d.get("obs"):
        rep = p.replay_complete(scn, vals, d["obs"])
        print(json.dumps(rep, indent=1, default=str))
        ok = rep is not None
    else:
        rep = p.replay_sound(scn, vals, d["label"])
        print(json.dumps(rep, indent=1, default=str))
        ok = rep is not None
    print("REPRODUCED" if ok else "NOT REPRODUCED")
    return 1 if ok else 0


if __name__ == "__main__":
    sys.exit(main())
