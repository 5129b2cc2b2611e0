"""Exploring all paths of a set of scenarios in parallel worker processes."""
import multiprocessing as mp
import os
import queue
import time
import traceback
from . import expr as E, portfolio
from .path import Path, Stats, Revert, Prune, EngineError, Inconclusive
from .harness import Ctx, Done

G = {}
GRACE = 60


def run_path(name, prefix, stats):
    """-> (ctx, path, outcome)"""
    fn, kw = G["scenarios"][name]
    path = Path(prefix, stats, prove_timeout=G["timeout"])
    ctx = Ctx(name, path, G["loaded"], G["built"])
    out = "end"
    try:
        fn(ctx, **kw)
    except Prune:
        out = "pruned"
        stats.pruned += 1
    except Revert:
        out = "revert"
    except Done:
        out = "done"
    stats.paths += 1
    return ctx, path, out


def worker(inq, outq):
    while True:
        t = inq.get()
        if t is None:
            return
        name, prefixes, want_witness = t
        stats = Stats()
        viol, incon, errs, witness = [], [], [], None
        t0 = time.time()
        todo = list(prefixes)
        ends = 0
        try:
            while todo and time.time() - t0 < G["slice"] and len(todo) < 400:
                pre = todo.pop()
                ctx, path, out = run_path(name, pre, stats)
                todo += path.pending
                viol += ctx.viol
                incon += ctx.incon
                if out == "end":
                    ends += 1
                    if want_witness and witness is None and not ctx.viol:
                        r, m = portfolio.check(path.pc, 10)
                        stats.queries += 1
                        if r == "sat":
                            witness = ctx.names(m)
                            if path.abstracted:
                                witness["_abstract"] = True
                if len(viol) >= 3:
                    todo = []
        except Exception as e:
            errs.append("%s: %s\n%s" % (name, e, traceback.format_exc()))
            todo = []
        outq.put((name, todo, stats, viol, incon, errs, witness, ends))


def explore(scenarios, loaded, built, workers=8, timeout=20.0, deadline=None, verbose=False, slice_s=1.5):
    """scenarios: {name: (fn, kwargs)} -> dict of results"""
    G.update(scenarios=scenarios, loaded=loaded, built=built, timeout=timeout, slice=slice_s)
    ctxm = mp.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    ps = [ctxm.Process(target=worker, args=(inq, outq), daemon=True) for _ in range(workers)]
    for p in ps:
        p.start()
    stats = Stats()
    res = {"stats": stats, "viol": [], "incon": [], "errs": [], "witness": {}, "ends": {}, "per": {}, "cut": []}
    pend = 0
    for n in scenarios:
        inq.put((n, [[]], True))
        pend += 1
    stop = set()
    try:
        while pend:
            try:
                name, todo, st, viol, incon, errs, wit, ends = outq.get(timeout=1.0)
            except queue.Empty:
                if deadline and time.time() > deadline:
                    res["cut"].append("deadline")
                    break
                if not any(p.is_alive() for p in ps):
                    res["errs"].append("workers died")
                    break
                if any(not p.is_alive() for p in ps):
                    res["errs"].append("a worker died")
                    break
                continue
            pend -= 1
            stats.merge(st)
            pp = res["per"].setdefault(name, {"paths": 0, "s": 0})
            pp["paths"] += st.paths
            res["viol"] += viol
            if any(not v.get("known") and not v.get("abs") for v in viol):
                # one counterexample decides: leave the rest a little time
                deadline = min(deadline or 1e18, time.time() + GRACE)
            res["incon"] += incon
            res["errs"] += errs
            res["ends"][name] = res["ends"].get(name, 0) + ends
            if wit is not None and name not in res["witness"]:
                res["witness"][name] = wit
            if sum(1 for v in res["viol"] if v["scenario"] == name) >= 3:
                stop.add(name)
            if errs:
                stop.add(name)
            if name in stop:
                continue
            if deadline and time.time() > deadline:
                res["cut"].append(name)
                continue
            # hand out the pending prefixes in small groups
            k = max(1, min(len(todo) // workers, 12))
            for i in range(0, len(todo), k):
                inq.put((name, todo[i:i + k], name not in res["witness"]))
                pend += 1
            if verbose:
                print("  %s paths=%d pend=%d viol=%d incon=%d" % (name, pp["paths"], pend, len(res["viol"]),
                                                              len(res["incon"])), flush=True)
    finally:
        for p in ps:
            p.terminate()
        for p in ps:
            p.join(1)
    res["stats"] = stats
    return res
