"""One symbolic path: path condition, interval facts, decisions, solver queries."""
import time
import z3
from . import expr as E
from .expr import P, Poly, Cond, Atom, lin, cnot, cand
from . import portfolio

z3.set_param("auto_config", True)


class Revert(Exception):
    """The transaction traps / a host function fails: all effects of the call are undone."""


class Prune(Exception):
    """This path is of no interest (or infeasible)."""


class Inconclusive(Exception):
    pass


class EngineError(Exception):
    pass


def _zatom(a):
    return z3.Int("a%d" % a.id)


def zpoly(p):
    if p._z is None:
        terms = []
        for m, k in p.key:
            if not m:
                terms.append(z3.IntVal(k))
                continue
            x = None
            for i in m:
                v = _zatom(Atom.by_id[i])
                x = v if x is None else x * v
            if k == -1 and False:
                x = -x
            elif k != 1:
                x = z3.IntVal(k) * x
            terms.append(x)
        p._z = z3.IntVal(0) if not terms else (terms[0] if len(terms) == 1 else z3.Sum(terms))
    return p._z


def zcond(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if c._z is None:
        if c.op == "le":
            # split positive and negative parts: nicer for the solver
            r = zpoly(c.a) <= 0
        elif c.op == "eq":
            r = zpoly(c.a) == 0
        elif c.op == "ne":
            r = zpoly(c.a) != 0
        elif c.op == "and":
            r = z3.And([zcond(x) for x in c.a])
        else:
            r = z3.Or([zcond(x) for x in c.a])
        c._z = r
    return c._z


def congruence(decl):
    """equal inputs give equal results of an uninterpreted function"""
    by = {}
    for a in decl.values():
        if a.kind == "uf":
            by.setdefault((a.name, len(a.args)), []).append(a)
    out = []
    for l in by.values():
        for i, a in enumerate(l):
            for b in l[:i]:
                same = [zpoly(x) == zpoly(y) for x, y in zip(a.args, b.args) if x is not y]
                out.append(z3.Implies(z3.And(*same), _zatom(a) == _zatom(b)))
    return out


def atom_axioms(a):
    """Defining constraints of an atom, as z3 terms."""
    v = _zatom(a)
    out = []
    if a.kind == "fdiv":
        x, d = zpoly(a.args[0]), zpoly(a.args[1])
        out.append(z3.Implies(d > 0, z3.And(d * v <= x, x - d * v <= d - 1,
                                            z3.Implies(x >= 0, v >= 0))))
        if a.args[1].c is not None:
            out = [d * v <= x, x - d * v <= d - 1]
    elif a.kind == "ite":
        out.append(v == z3.If(zcond(a.args[0]), zpoly(a.args[1]), zpoly(a.args[2])))
    if a.lo is not None:
        out.append(v >= a.lo)
    if a.hi is not None:
        out.append(v <= a.hi)
    return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.q_time = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.paths = 0
        self.reverts = 0
        self.pruned = 0
        self.instrs = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.branches = 0
        self.loopcut = 0
        self.functions = set()
        self.reached = {}
        self.labels = {}
        self.qtimes = []

    def merge(self, o):
        for k in ("queries", "q_time", "unsat", "sat", "unknown", "paths", "reverts", "pruned",
                  "instrs", "obligations", "discharged", "trivial", "branches", "loopcut"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.functions |= o.functions
        for k, v in o.reached.items():
            self.reached[k] = self.reached.get(k, 0) + v
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.qtimes += o.qtimes


class Path:
    FEAS_TIMEOUT = 250

    def __init__(self, prefix=(), stats=None, prove_timeout=20.0):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.pc = []
        self.pcset = set()
        self.bounds = {}
        self._iv = {}
        self.stats = stats or Stats()
        self.nfresh = {}
        self.solver = None
        self.solver_n = 0
        self.declared = set()
        self.trap_mode = "assume"      # or "prove"
        self.prove_timeout = prove_timeout
        self.violations = []
        self.inconclusive = []
        self.dead = False
        self.vars = []
        self.abstract = False          # numeric kernels are uninterpreted (kernel.py)
        self.abstracted = False
        self.kernels = []              # (function, inputs, result) of the uninterpreted calls
        self.kernel_fact = None        # (inputs, result) -> what a scenario assumes of the result
        self.havoc = False             # loops of numeric kernels start an arbitrary iteration (kernel.Havoc)
        self.loop_bound = None         # symbolic decisions per loop head, in one function activation
        self.model = None

    # -------------------------------------------------------- variables
    def fresh(self, name, lo=None, hi=None):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        v = E.var(name if n == 0 else "%s#%d" % (name, n), lo, hi)
        self.vars.append(v)
        return v

    # -------------------------------------------------------- intervals
    def tight(self, p):
        """p, or the constant its interval leaves"""
        if p.c is None:
            lo, hi = self.iv(p)
            if lo is not None and lo == hi:
                return P(lo)
        return p

    def fdiv(self, a, b):
        return self.tight(E.fdiv(a, b))

    def iv(self, p):
        if p.c is not None:
            return p.c, p.c
        r = self._iv.get(p)
        if r is not None:
            return r
        prim, g, s, k = lin(p)
        r = self._iv.get(prim)
        if r is None:
            r = self._ivprim(prim)
            self._iv[prim] = r
        lo, hi = r
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        lo = None if lo is None else lo * g + k
        hi = None if hi is None else hi * g + k
        self._iv[p] = (lo, hi)
        return lo, hi

    def _ivprim(self, prim):
        lo = hi = 0
        for m, k in prim.t.items():
            a, b = self._ivmono(m, prim)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + a * k
            hi = None if hi is None or b is None else hi + b * k
        b = self.bounds.get(prim)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
        return lo, hi

    def _ivmono(self, m, prim):
        if len(m) == 1:
            r = self._ivatom(Atom.by_id[m[0]])
        else:
            lo = hi = 1
            i = 0
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                a, b = self.iv(P(Atom.by_id[m[i]]))
                n = j - i
                if n > 1:
                    a, b = _powiv(a, b, n)
                lo, hi = _muliv(lo, hi, a, b)
                i = j
            r = lo, hi
        if len(prim.t) != 1:
            b = self.bounds.get(E.mk({m: 1}))
            if b:
                lo, hi = r
                if b[0] is not None and (lo is None or b[0] > lo):
                    lo = b[0]
                if b[1] is not None and (hi is None or b[1] < hi):
                    hi = b[1]
                r = lo, hi
        return r

    def _ivatom(self, a):
        lo, hi = a.lo, a.hi
        if a.kind == "fdiv":
            xl, xh = self.iv(a.args[0])
            dl, dh = self.iv(a.args[1])
            if dl is None or dl < 1:
                dl = 1
            l = h = None
            if xl is not None:
                if xl >= 0:
                    l = xl // dh if dh is not None else 0
                else:
                    l = xl // dl
            if xh is not None:
                if xh >= 0:
                    h = xh // dl
                else:
                    h = xh // dh if dh is not None else -1
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        elif a.kind == "ite":
            al, ah = self.iv(a.args[1])
            bl, bh = self.iv(a.args[2])
            l = None if al is None or bl is None else min(al, bl)
            h = None if ah is None or bh is None else max(ah, bh)
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        return lo, hi

    def decide(self, c):
        """True/False if known without a solver query, else None."""
        if isinstance(c, bool):
            return c
        if c in self.pcset:
            return True
        if cnot(c) in self.pcset:
            return False
        if c.op == "le":
            lo, hi = self.iv(c.a)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif c.op in ("eq", "ne"):
            lo, hi = self.iv(c.a)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return c.op == "ne"
            if lo == 0 and hi == 0:
                return c.op == "eq"
        elif c.op == "and":
            rs = [self.decide(x) for x in c.a]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
        elif c.op == "or":
            rs = [self.decide(x) for x in c.a]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
        return None

    # -------------------------------------------------------- assumptions
    def assume(self, c):
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            self.dead = True
            raise Prune("contradiction")
        if c.op == "and":
            for x in c.a:
                self.assume(x)
            return
        self.pc.append(c)
        self.pcset.add(c)
        self._learn(c)

    def _learn(self, c):
        if c.op == "or":
            return
        if c.op == "ne":
            # trim an end point
            lo, hi = self.iv(c.a)
            if lo == 0:
                self._bound(c.a, 1, None)
            elif hi == 0:
                self._bound(c.a, None, -1)
            return
        self._bound(c.a, 0 if c.op == "eq" else None, 0)
        # one round of propagation to monomials
        if len(c.a.t) <= 8:
            self._propagate(c.a, c.op == "eq")

    def _propagate(self, p, iseq):
        for m, k in p.t.items():
            if m == ():
                continue
            rest = E.mk({mm: kk for mm, kk in p.t.items() if mm != m})
            lo, hi = self.iv(rest)
            # k*m + rest <= 0  ->  k*m <= -lo(rest)
            nlo = nhi = None
            if lo is not None:
                if k > 0:
                    nhi = (-lo) // k
                else:
                    nlo = -((-lo) // (-k))
            if iseq and hi is not None:
                if k > 0:
                    x = -(hi // k)
                    nlo = x if nlo is None else max(nlo, x)
                else:
                    x = (hi) // (-k)
                    nhi = x if nhi is None else min(nhi, x)
            if nlo is not None or nhi is not None:
                mp = E.mk({m: 1})
                clo, chi = self.iv(mp)
                if nlo is not None and clo is not None and nlo <= clo:
                    nlo = None
                if nhi is not None and chi is not None and nhi >= chi:
                    nhi = None
                if nlo is not None or nhi is not None:
                    self._bound(mp, nlo, nhi)

    def _bound(self, p, lo, hi):
        """record lo <= p <= hi"""
        prim, g, s, k = lin(p)
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
            k = -k
        # lo <= g*prim + k <= hi
        if lo is not None:
            lo = -((k - lo) // g)
        if hi is not None:
            hi = (hi - k) // g
        b = self.bounds.get(prim, (None, None))
        nl = b[0] if lo is None else (lo if b[0] is None else max(lo, b[0]))
        nh = b[1] if hi is None else (hi if b[1] is None else min(hi, b[1]))
        if (nl, nh) != b:
            self.bounds[prim] = (nl, nh)
            self._iv = {}
            if nl is not None and nh is not None and nl > nh:
                self.dead = True
                raise Prune("empty interval")

    # -------------------------------------------------------- branching
    def branch(self, c):
        """Fork on c; returns the truth value taken on this path."""
        d = self.decide(c)
        if d is not None:
            return d
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.assume(c if d else cnot(c))
            return d
        self.stats.branches += 1
        ft = self.feasible(c)
        ff = self.feasible(cnot(c)) if ft is not False else True
        if ft is False and ff is False:
            self.dead = True
            raise Prune("infeasible")
        if ft is not False and ff is not False:
            self.pending.append(self.taken + [False])
            d = True
        else:
            d = ft is not False
        self.taken.append(d)
        self.assume(c if d else cnot(c))
        return d

    def pick(self, n):
        """Fork over 0..n-1 without a condition (a free choice)."""
        for j in range(n - 1):
            v = self.fresh("pick", 0, 1)
            if self.branch(E.eq(v, 1)):
                return j
        return n - 1

    def _sync(self):
        if self.solver is None:
            self.solver = z3.SolverFor("QF_NIA") if False else z3.Solver()
            self.solver.set("timeout", self.FEAS_TIMEOUT)
        new = self.pc[self.solver_n:]
        self.solver_n = len(self.pc)
        for c in new:
            self._declare(c)
            self.solver.add(zcond(c))

    def _declare(self, c):
        for i, a in E.atoms_of(c).items():
            if i not in self.declared:
                self.declared.add(i)
                for ax in atom_axioms(a):
                    self.solver.add(ax)

    _feas_cache = {}

    def feasible(self, c):
        """True/False/None(unknown), within a short time limit."""
        if isinstance(c, bool):
            return c
        rel = self.slice([c])
        key = (frozenset(x.id for x in rel), c.id)
        r = Path._feas_cache.get(key, 0)
        if r != 0:
            return r
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.FEAS_TIMEOUT)
        decl = {}
        for x in rel + [c]:
            E.atoms_of(x, decl)
        for a in decl.values():
            s.add(*atom_axioms(a))
        s.add(*congruence(decl))
        for x in rel:
            s.add(zcond(x))
        s.add(zcond(c))
        r = s.check()
        dt = time.time() - t
        self.stats.queries += 1
        self.stats.q_time += dt
        res = True if r == z3.sat else False if r == z3.unsat else None
        Path._feas_cache[key] = res
        return res

    # -------------------------------------------------------- relevance slicing
    def slice(self, goals, extra=()):
        want = {}
        for g in goals:
            E.atoms_of(g, want)
        want = set(want)
        rest = [(c, _catoms(c)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            nrest = []
            for c, at in rest:
                if not want.isdisjoint(at):
                    out.append(c)
                    if not at <= want:
                        want |= at
                        changed = True
                else:
                    nrest.append((c, at))
            rest = nrest
        return out

    # -------------------------------------------------------- proving
    def valid(self, c, timeout=None):
        """True if PC implies c; False with self.model set if a counterexample; None unknown."""
        self.model = None
        d = self.decide(c)
        if d is True:
            self.stats.trivial += 1
            return True
        nc = cnot(c)
        t = time.time()
        timeout = timeout or self.prove_timeout
        rel = self.slice([c]) if not isinstance(c, bool) else []
        res, model = portfolio.check(rel + ([nc] if not isinstance(nc, bool) else []), timeout)
        self.stats.queries += 1
        if res == "sat" and len(rel) != len(self.pc) or (isinstance(c, bool)):
            res, model = portfolio.check(self.pc + ([nc] if not isinstance(nc, bool) else []), timeout)
            self.stats.queries += 1
        dt = time.time() - t
        self.stats.q_time += dt
        self.stats.qtimes.append((round(dt, 2), str(c)[:80]))
        if res == "unsat":
            self.stats.unsat += 1
            return True
        if res == "sat":
            self.stats.sat += 1
            self.model = model
            return False
        self.stats.unknown += 1
        return None


_ca = {}


def _catoms(c):
    r = _ca.get(c)
    if r is None:
        r = frozenset(E.atoms_of(c))
        _ca[c] = r
    return r


def _muliv(a, b, c, d):
    if (a, b) == (0, 0) or (c, d) == (0, 0):
        return 0, 0
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    if None in (a, b, c, d):
        if b is not None and b <= 0 and d is not None and d <= 0:
            return b * d, None
        if a is not None and a >= 0 and d is not None and d <= 0:
            return None, (a * d)
        if c is not None and c >= 0 and b is not None and b <= 0:
            return None, (c * b)
        return None, None
    xs = (a * c, a * d, b * c, b * d)
    return min(xs), max(xs)


def _powiv(a, b, n):
    if n % 2 == 0:
        if a is not None and a >= 0:
            return a ** n, None if b is None else b ** n
        if b is not None and b <= 0:
            return b ** n, None if a is None else a ** n
        return 0, None if a is None or b is None else max(a ** n, b ** n)
    return None if a is None else a ** n, None if b is None else b ** n
