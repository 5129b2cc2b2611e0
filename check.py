#!/opt/veriftools/pyvenv/bin/python3
"""check.py P05 [--tier quick|thorough] [--only SCENARIO] [--verbose]

Decides one property: builds the contracts from /repo's working tree, executes their IR symbolically along
every path of the property's scenarios and lets the solver decide each assertion; counterexamples are
replayed on the real Soroban host against the built wasm before they are reported."""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import build, ir, interp, explore, harness, portfolio, expr as E   # noqa: E402
from engine.path import Prune, Revert, EngineError                     # noqa: E402

OWN = re.compile(r"phoenix|curve|soroban_decimal|soroban_token_contract|zz_probe|contract::|uninterpreted")
ASSUMPTIONS = [
    "the Soroban host behaves as modelled in engine/host.py (cross-checked on witnesses by the thorough tier)",
    "rustc 1.79 compiles the sources to wasm as it compiles them to the LLVM IR executed here",
    "other tokens follow SEP-41 (engine/tokens.py); archived entries are restored by the host before use",
]
KNOWN = os.path.join(HERE, "known-findings.json")
REPLAYS = os.path.join(HERE, "build", "replay")


def load(built):
    out = {}
    for n, b in built.items():
        if n[0] != "_":
            out[n] = interp.Loaded(ir.Module(open(b["ll"]).read()))
    return out


def replay(v, scen, loaded, built, native):
    """run a scenario concretely on the real host; -> (reproduced, ctx, note)"""
    fn, kw = scen[v["scenario"]]
    path = harness.ConcretePath(v["model"])
    ctx = harness.Ctx(v["scenario"], path, loaded, built, replay=native)
    note = ""
    try:
        fn(ctx, **kw)
    except harness.Done:
        pass
    except Revert as e:
        note = "reverted: %s" % e
    except Prune as e:
        note = "assumption failed: %s" % e
    except (TypeError, LookupError, AttributeError, ValueError):
        # a state that has already failed an assertion need not have the shape the rest of the scenario expects
        if not ctx.viol:
            raise
    hit = [x for x in ctx.viol if v.get("msg") is None or x["msg"].split(": ")[0] == v["msg"].split(": ")[0]]
    return bool(hit), ctx, note or ("; ".join(x["msg"] for x in ctx.viol))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--noreplay", action="store_true")
    ap.add_argument("--replay", help="replay a recorded counterexample file")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = a.budget or (800 if tier == "quick" else 6 * 3600)
    mod = importlib.import_module("checks." + a.prop.lower())
    known = []
    if os.path.exists(KNOWN):
        known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == a.prop]
    try:
        built = build.build(mod.CONTRACTS)
    except build.BuildError as e:
        print("error: the build failed\n%s" % e)
        return 2
    loaded = load(built)
    tl = time.time()
    scen = mod.scenarios(tier)
    if a.only:
        scen = {k: v for k, v in scen.items() if a.only in k}
    if a.replay:
        r = json.load(open(a.replay))
        native = harness.Native(built)
        hit, ctx, note = replay(r, scen, loaded, built, native)
        print("reproduced" if hit else "not reproduced", note, ctx.mismatch)
        return 1 if hit else 0
    harness.KNOWN = {k["id"] for k in known if not k.get("fixed")}
    res = explore.explore(scen, loaded, built, workers=int(os.environ.get("VERIF_JOBS", "8")),
                          timeout=getattr(mod, "TIMEOUT", 20.0) * (1 if tier == "quick" else 6),
                          deadline=t0 + budget - 60, verbose=a.verbose)
    st = res["stats"]
    te = time.time()
    status = 0
    lines = []
    for e in res["errs"]:
        print("error: %s" % e)
        status = 2
    if res["cut"]:
        print("error: exploration incomplete: %s" % sorted(set(res["cut"])))
        status = 2
    for n in scen:
        if n not in res["witness"] and not any(v["scenario"] == n for v in res["viol"]) and not res["errs"] \
                and not scen[n][1].get("mayfail"):
            print("error: scenario %s has no complete path (vacuous)" % n)
            status = 2
    for x in res["incon"][:10]:
        print("undecided: %s" % x)
    if res["incon"] and status == 0:
        status = 2
    # violations: one per (scenario, message), replayed on the real host
    seen = {}
    for v in res["viol"]:
        seen.setdefault((v["scenario"], v["msg"]), []).append(v)
    native = None
    reported = []
    knownhit = {}
    for v in (x for vs in seen.values() for x in vs if x.get("known")):
        knownhit.setdefault(v["known"], v)
    crossed = []
    if a.noreplay:
        for k in seen:
            print("unreplayed:", k, seen[k][0]["model"])
        return 3
    fresh = [vs for vs in seen.values() if not vs[0].get("known")]
    if fresh or knownhit or tier == "thorough":
        native = harness.Native(built)
    for vs in fresh[:8]:
        ok = False
        for v in vs[:3]:
            hit, ctx, note = replay(v, scen, loaded, built, native)
            if hit:
                reported.append((v, ctx, note))
                ok = True
                break
        if not ok:
            print("error: counterexample not reproduced on the real host: %s %s (%s) %s" %
                  (v["scenario"], v["msg"], note, "; ".join(map(str, ctx.mismatch))[:2000]))
            print("       inputs: %s" % json.dumps(v["model"]))
            status = status or 2
        if reported and not a.verbose:
            break
    for kid in sorted(knownhit):
        v = knownhit[kid]
        hit, ctx, note = replay(v, scen, loaded, built, native)
        if hit:
            k = [k for k in known if k["id"] == kid][0]
            lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        else:
            print("error: known finding %s not reproduced on the real host (%s) %s" % (kid, note, ctx.mismatch))
            status = status or 2
    if tier == "thorough":
        for n, w in sorted(res["witness"].items()):
            if w.pop("_abstract", None):
                # results of the curve's solver are uninterpreted there: the real host computes other ones
                crossed.append({"scenario": n, "note": "uninterpreted results, not compared"})
                continue
            v = {"scenario": n, "model": w, "msg": None}
            try:
                hit, ctx, note = replay(v, scen, loaded, built, native)
                crossed.append({"scenario": n, "calls": ctx.ncalls, "mismatch": ctx.mismatch[:3], "note": note})
                if ctx.mismatch or hit:
                    print("error: engine and real host disagree on a witness of %s: %s %s" % (n, ctx.mismatch, note))
                    status = status or 2
            except EngineError as e:
                print("error: witness of %s: %s" % (n, e))
                status = status or 2
    for l in lines:
        print(l)
    nrep = []
    if reported:
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (v, ctx, note) in enumerate(reported):
            f = os.path.join(REPLAYS, "%s-%d.json" % (a.prop, i))
            tr = [{"contract": "%x" % t["to"], "function": t["fn"], "args": repr(t["args"]), "now": str(t["now"]),
                   "returned": repr(t.get("ret"))} for t in ctx.trace]
            with open(f, "w") as fh:
                json.dump({"property": a.prop, "scenario": v["scenario"], "msg": v["msg"], "model": v["model"],
                           "note": note, "calls": tr, "mismatch": ctx.mismatch, "job": getattr(ctx, "last_job", None),
                           "how": "python3-vt /verif/check.py %s --replay %s" % (a.prop, f)}, fh, indent=1)
            nrep.append((v, f))
        status = 1
    if native:
        native.close()
    st.qtimes.sort(reverse=True)
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(time.time() - t0, 1),
        "violations": len(nrep),
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "coverage": {
            "states": st.paths, "transitions": st.instrs,
            "traces_validated_against_impl": len(crossed) + len(nrep),
            "rule": "states: symbolic paths explored; transitions: IR instructions executed symbolically; "
                    "traces validated: concrete runs of a scenario compared with the real Soroban host",
            "samples": [{"scenario": n, "inputs": w} for n, w in sorted(res["witness"].items())],
            "exhaustive": False,
            "scenarios": {n: dict(res["per"].get(n, {}), complete=res["ends"].get(n, 0)) for n in scen},
            "contracts": {n: built[n]["hash"] for n in built if n[0] != "_"},
            "functions_encoded": len(st.functions),
            "functions": sorted(f for f in st.functions if f and OWN.search(f) and "testutils" not in f)[:400],
            "bounds": mod.BOUNDS,
            "outside": mod.OUTSIDE,
            "reverted_calls": st.reverts, "pruned_paths": st.pruned, "loop_cuts": st.loopcut,
            "assertions": st.labels,
            "obligations": st.obligations, "discharged": st.discharged,
            "decided_by_intervals": st.trivial,
            "queries": st.queries, "solver_s": round(st.q_time, 1), "slowest": st.qtimes[:5],
            "undecided": len(res["incon"]),
            "cross_checked_on_real_host": crossed,
            "known_findings": lines, "violated": [v["msg"] for v, f in nrep],
            "times": {"build_s": built["_s"], "load_s": round(tl - t0 - built["_s"], 1), "explore_s": round(te - tl, 1)},
        }}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s %s: %d scenarios, %d paths, %d obligations (%d discharged), %d queries, solver %.1f s, wall %.1f s" %
          (a.prop, tier, len(scen), st.paths, st.obligations, st.discharged, st.queries, st.q_time, time.time() - t0))
    for v, f in nrep:
        print("violated in scenario %s: %s" % (v["scenario"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, f))
    return status


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
