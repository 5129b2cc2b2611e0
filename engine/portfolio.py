"""Deciding a conjunction of conditions: in-process z3 first, then z3/cvc5 processes in parallel."""
import os
import re
import subprocess
import tempfile
import time
import z3
from . import expr as E

TRACE = os.environ.get("VERIF_TRACE")
COUNT = {"z3-inproc": 0, "portfolio": 0}


def _build(conds, s):
    from .path import zcond, atom_axioms, congruence
    decl = {}
    for c in conds:
        E.atoms_of(c, decl)
    for a in decl.values():
        for ax in atom_axioms(a):
            s.add(ax)
    s.add(*congruence(decl))
    for c in conds:
        s.add(zcond(c))
    return decl


def _complete(decl, get):
    """Values of the variables (not derived atoms)."""
    env = {}
    for i, a in decl.items():
        if a.kind in ("var", "uf"):
            v = get(i)
            if v is None:
                v = a.lo if a.lo is not None else (min(0, a.hi) if a.hi is not None else 0)
            env[i] = v
    return env


def _holds(conds, env):
    try:
        e = dict(env)
        return all(E.evc(c, e) for c in conds)
    except E.EvalError:
        return False


def check(conds, timeout=20.0, want_model=True):
    """-> ('unsat', None) | ('sat', {atom id: value}) | ('unknown', None)"""
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds):
        return "unsat", None
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(min(timeout, 2.0) * 1000))
    decl = _build(conds, s)
    r = s.check()
    COUNT["z3-inproc"] += 1
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()

        def get(i):
            v = m[z3.Int("a%d" % i)]
            return None if v is None else v.as_long()
        env = _complete(decl, get)
        if _holds(conds, env):
            return "sat", env
    COUNT["portfolio"] += 1
    left = timeout - (time.time() - t0)
    if left <= 0:
        return "unknown", None
    smt = "(set-logic QF_NIA)\n" + "".join(
        l for l in s.to_smt2().splitlines(True) if not l.startswith("(set-info") and "benchmark" not in l)
    vs = [i for i, a in decl.items()]
    tail = "(get-value (%s))\n" % " ".join("a%d" % i for i in vs) if vs else ""
    d = tempfile.mkdtemp(prefix="smt", dir=os.environ.get("VERIF_TMP") or None)
    f = os.path.join(d, "q.smt2")
    with open(f, "w") as fh:
        fh.write("(set-option :produce-models true)\n" + smt + tail)
    if TRACE:
        import shutil
        shutil.copy(f, "/tmp/last_query_%d.smt2" % os.getpid())
    cmds = [
        ["z3", "-T:%d" % max(1, int(left)), f],
        ["z3-new", "-T:%d" % max(1, int(left)), f],
        ["cvc5", "--tlimit=%d" % int(left * 1000), "--nl-ext-tplanes", f],
        ["cvc5", "--tlimit=%d" % int(left * 1000), "--nl-cov", f],
    ]
    procs = []
    for c in cmds:
        procs.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    res = ("unknown", None)
    alive = list(procs)
    try:
        while alive and time.time() - t0 < timeout + 2:
            for p in list(alive):
                if p.poll() is None:
                    continue
                alive.remove(p)
                out = p.stdout.read()
                head = out.lstrip().split("\n", 1)[0].strip()
                if head == "unsat":
                    res = ("unsat", None)
                    alive = []
                    break
                if head == "sat":
                    env = _complete(decl, _parse_values(out).get)
                    if _holds(conds, env):
                        res = ("sat", env)
                        alive = []
                        break
            time.sleep(0.005)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        os.unlink(f)
        os.rmdir(d)
    return res


def _parse_values(out):
    env = {}
    for m in re.finditer(r"\(a(\d+)\s+(\(-\s*(\d+)\)|-?\d+)\)", out):
        env[int(m.group(1))] = -int(m.group(3)) if m.group(3) else int(m.group(2))
    return env
