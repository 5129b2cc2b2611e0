"""Exact integer expressions: hash-consed multivariate polynomials over atoms, and conditions.

An atom is a variable, a floor division, an if-then-else or an uninterpreted application. A Poly is
a polynomial with integer coefficients over atoms. Nothing here wraps: machine arithmetic is mapped
onto these by interp.py, with every wrap/overflow case made explicit.
"""
from math import gcd

INF = None


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "name", "cleaf")
    table = {}
    by_id = []

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return "%s(%s)" % (self.kind, ",".join(map(str, self.args)))


def _leafite(p):
    if len(p.t) != 1:
        return False
    (m, k), = p.t.items()
    return len(m) == 1 and k == 1 and Atom.by_id[m[0]].cleaf


def _atom(kind, args, lo, hi, name=None):
    key = (kind, args, name)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.id = len(Atom.by_id)
        a.kind, a.args, a.lo, a.hi, a.name = kind, args, lo, hi, name
        a.cleaf = kind == "ite" and all(x.c is not None or _leafite(x) for x in args[1:])
        Atom.by_id.append(a)
        Atom.table[key] = a
    return a


class Poly:
    __slots__ = ("t", "key", "c", "_lin", "_z")
    table = {}

    def __repr__(self):
        out = []
        for m, k in self.key:
            s = "*".join(repr(Atom.by_id[i]) for i in m)
            out.append(str(k) if not m else (s if k == 1 else "%d*%s" % (k, s)))
        return "(" + " + ".join(out) + ")" if out else "0"

    @property
    def const(self):
        """The constant value, or None."""
        return self.c


def mk(t):
    t = {m: k for m, k in t.items() if k}
    key = tuple(sorted(t.items()))
    p = Poly.table.get(key)
    if p is None:
        p = Poly()
        p.t = t
        p.key = key
        p._lin = None
        p._z = None
        if not t:
            p.c = 0
        elif len(t) == 1 and () in t:
            p.c = t[()]
        else:
            p.c = None
        Poly.table[key] = p
    return p


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, int):
        return mk({(): int(x)})
    if isinstance(x, Atom):
        return mk({(x.id,): 1})
    raise TypeError("not an integer expression: %r" % (x,))


def var(name, lo=None, hi=None):
    a = _atom("var", (), lo, hi, name)
    a.lo, a.hi = lo, hi
    return P(a)


def uf(name, args, lo=None, hi=None):
    return P(_atom("uf", tuple(P(a) for a in args), lo, hi, name))


def add(a, b):
    a, b = P(a), P(b)
    if a.c == 0:
        return b
    if b.c == 0:
        return a
    t = dict(a.t)
    for m, k in b.t.items():
        t[m] = t.get(m, 0) + k
    return mk(t)


def scale(a, k):
    a = P(a)
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return mk({m: c * k for m, c in a.t.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(P(b)))


def mul(a, b):
    a, b = P(a), P(b)
    if a.c is not None:
        return scale(b, a.c)
    if b.c is not None:
        return scale(a, b.c)
    t = {}
    for m1, k1 in a.t.items():
        for m2, k2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            t[m] = t.get(m, 0) + k1 * k2
    return mk(t)


ZERO = mk({})
ONE = mk({(): 1})


def fdiv(a, b):
    """floor(a / b); b must be known to be positive by the caller."""
    a, b = P(a), P(b)
    if b.c is not None:
        n = b.c
        assert n > 0
        if n == 1:
            return a
        if a.c is not None:
            return P(a.c // n)
        # pull out the part divisible by n
        q, r = {}, {}
        for m, k in a.t.items():
            if k % n == 0:
                q[m] = k // n
            elif m == () and len(a.t) > 1:
                if k // n:
                    q[m] = k // n
                r[m] = k % n
            else:
                r[m] = k
        rp = mk(r)
        if rp.c is not None:
            return add(mk(q), P(rp.c // n))
        # floor(floor(x/m)/n) = floor(x/(m n))
        if len(rp.t) == 1:
            (m, k), = rp.t.items()
            if k == 1 and len(m) == 1:
                at = Atom.by_id[m[0]]
                if at.kind == "fdiv" and at.args[1].c is not None:
                    return add(mk(q), fdiv(at.args[0], P(at.args[1].c * n)))
        # scale out a common factor with n
        g = n
        for k in rp.t.values():
            g = gcd(g, k)
        if g > 1:
            return add(mk(q), fdiv(mk({m: k // g for m, k in rp.t.items()}), P(n // g)))
        rest = P(_atom("fdiv", (rp, b), None, None))
        return add(mk(q), rest)
    if a.c == 0:
        return ZERO
    if a is b:
        return ONE
    # exact multiple: a = b * c for monomial b
    if len(b.t) == 1:
        (bm, bk), = b.t.items()
        q, r = {}, {}
        for m, k in a.t.items():
            rest = _mono_div(m, bm)
            if rest is not None and k % bk == 0:
                q[rest] = k // bk
            else:
                r[m] = k
        if q:
            rp = mk(r)
            if rp.c == 0:
                return mk(q)
            return add(mk(q), P(_atom("fdiv", _cancel(rp, b), None, None)))
    return P(_atom("fdiv", _cancel(a, b), None, None))


def _cancel(a, b):
    """without the common integer factor"""
    g = 0
    for t in (a.t, b.t):
        for k in t.values():
            g = gcd(g, k)
            if g == 1:
                return a, b
    return mk({m: k // g for m, k in a.t.items()}), mk({m: k // g for m, k in b.t.items()})


def _mono_div(m, d):
    m = list(m)
    for x in d:
        if x in m:
            m.remove(x)
        else:
            return None
    return tuple(m)


def mod(a, b):
    """a mod b in [0, b), b > 0."""
    return sub(a, mul(fdiv(a, b), b))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a.c == 0 and b.c == 1:
        return sub(ONE, P(_atom("ite", (c, ONE, ZERO), 0, 1)))
    lo = hi = None
    if a.c is not None and b.c is not None:
        lo, hi = min(a.c, b.c), max(a.c, b.c)
    return P(_atom("ite", (c, a, b), lo, hi))


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ("op", "a", "id", "_neg", "_z")
    table = {}

    def __repr__(self):
        if self.op == "le":
            return "%r<=0" % (self.a,)
        if self.op == "eq":
            return "%r==0" % (self.a,)
        if self.op == "ne":
            return "%r!=0" % (self.a,)
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.a)))


def _cond(op, a):
    key = (op, a)
    c = Cond.table.get(key)
    if c is None:
        c = Cond()
        c.op, c.a, c._neg, c._z = op, a, None, None
        c.id = len(Cond.table)
        Cond.table[key] = c
    return c


def lin(p):
    """(primitive non-constant part, factor g>0, sign, const): p = sign*g*prim + const."""
    if p._lin is None:
        t = dict(p.t)
        k = t.pop((), 0)
        g = 0
        for c in t.values():
            g = gcd(g, c)
        first = min(t.items())
        sgn = 1 if first[1] > 0 else -1
        prim = mk({m: sgn * c // g for m, c in t.items()})
        p._lin = (prim, g, sgn, k)
    return p._lin


def _oneite(p):
    """If p = const + sum of k_i * ite(c, a, b) with constant leaves (nested): (an ite atom, its k, the rest)."""
    t = p.t
    if len(t) > 4:
        return None
    at = None
    for m, k in t.items():
        if m == ():
            continue
        if len(m) != 1:
            return None
        a = Atom.by_id[m[0]]
        if a.kind != "ite" or not a.cleaf:
            return None
        at = (a, m, k)
    if at is None:
        return None
    return at[0], at[2], mk({m: k for m, k in t.items() if m != at[1]})


def _distribute(b, f):
    a, k, rest = b
    c, x, y = a.args
    cx = f(add(rest, scale(x, k)))
    cy = f(add(rest, scale(y, k)))
    return cor(cand(c, cx), cand(cnot(c), cy))


def le0(p):
    p = P(p)
    if p.c is not None:
        return p.c <= 0
    b = _oneite(p)
    if b:
        return _distribute(b, le0)
    prim, g, s, k = lin(p)
    # s*g*prim + k <= 0  ->  s*prim + ceil(k/g) <= 0
    return _cond("le", add(scale(prim, s), P(-((-k) // g))))


def eq0(p):
    p = P(p)
    if p.c is not None:
        return p.c == 0
    b = _oneite(p)
    if b:
        return _distribute(b, eq0)
    prim, g, s, k = lin(p)
    if k % g:
        return False
    return _cond("eq", add(prim, P(s * k // g)))


def le(a, b):
    return le0(sub(P(a), P(b)))


def lt(a, b):
    return le0(add(sub(P(a), P(b)), ONE))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(sub(P(a), P(b)))


def ne(a, b):
    return cnot(eq(a, b))


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c._neg is None:
        if c.op == "le":
            n = le0(sub(ONE, c.a))
        elif c.op == "eq":
            n = _cond("ne", c.a)
        elif c.op == "ne":
            n = _cond("eq", c.a)
        elif c.op == "and":
            n = cor(*[cnot(x) for x in c.a])
        else:
            n = cand(*[cnot(x) for x in c.a])
        c._neg = n
        if isinstance(n, Cond) and n._neg is None:
            n._neg = c
    return c._neg


def _flat(cs, op, out):
    for c in cs:
        if c.op == op:
            _flat(c.a, op, out)
        elif c not in out:
            out.append(c)


def _subsume(out, isand):
    """le-literals over the same primitive: keep the stronger (and) or the weaker (or)"""
    # x <= k and x != k  ->  x <= k - 1;  x <= k or x == k + 1  ->  x <= k + 1
    eqop = "ne" if isand else "eq"
    out = list(out)
    again = True
    while again:
        again = False
        for e in out:
            if e.op != eqop:
                continue
            ep = e.a
            for c in out:
                if c.op == "le":
                    for q in (ep, neg(ep)):
                        # equality is q == 0
                        d = sub(c.a, q)
                        if d.c is None:
                            continue
                        if (isand and d.c == 0) or (not isand and d.c == 1):
                            n = le0(add(q, ONE)) if isand else le0(q)
                            out = [x for x in out if x is not e and x is not c]
                            if n is False and isand:
                                return None
                            if n is True and not isand:
                                return None
                            if not isinstance(n, bool) and n not in out:
                                out.append(n)
                            again = True
                            break
                if again:
                    break
            if again:
                break
    best = {}
    res = []
    for c in out:
        if c.op != "le":
            res.append(c)
            continue
        prim, g, s, k = lin(c.a)
        key = (prim, s, g)
        o = best.get(key)
        if o is None or ((k > o[0]) == isand and k != o[0]):
            best[key] = (k, c)
    res += [c for k, c in best.values()]
    # p <= 0 and -p <= 0
    if isand:
        for key in list(best):
            prim, s, g = key
            if s > 0 and (prim, -1, g) in best:
                (k1, c1), (k2, c2) = best[key], best[(prim, -1, g)]
                # g*prim + k1 <= 0 and -g*prim + k2 <= 0: k2 <= g*prim <= -k1
                if k2 > -k1:
                    return None
                if k2 == -k1:
                    e = eq0(c1.a)
                    res = [c for c in res if c is not c1 and c is not c2]
                    if e is False:
                        return None
                    if e is not True and e not in res:
                        res.append(e)
    else:
        for key in list(best):
            prim, s, g = key
            if s > 0 and (prim, -1, g) in best:
                k1, k2 = best[key][0], best[(prim, -1, g)][0]
                # g*prim <= -k1 or g*prim >= k2
                if k2 <= -k1 + 1:
                    return None
    return res


def cand(*cs):
    if any(c is False for c in cs):
        return False
    out = []
    _flat([c for c in cs if c is not True], "and", out)
    if not out:
        return True
    if len(out) > 1:
        s = set(out)
        for x in out:
            if cnot(x) in s:
                return False
        # x and (not x or y) -> x and y
        for i, x in enumerate(out):
            if x.op == "or":
                keep = [y for y in x.a if cnot(y) not in s]
                if len(keep) < len(x.a):
                    return cand(*(out[:i] + [cor(*keep)] + out[i + 1:]))
        out = _subsume(out, True)
        if out is None:
            return False
    if len(out) == 1:
        return out[0]
    return _cond("and", tuple(sorted(out, key=lambda c: c.id)))


def cor(*cs):
    if any(c is True for c in cs):
        return True
    out = []
    _flat([c for c in cs if c is not False], "or", out)
    if not out:
        return False
    if len(out) > 1:
        s = set(out)
        for x in out:
            if cnot(x) in s:
                return True
        # x or (not x and y) -> x or y
        for i, x in enumerate(out):
            if x.op == "and":
                keep = [y for y in x.a if cnot(y) not in s]
                if len(keep) < len(x.a):
                    return cor(*(out[:i] + [cand(*keep)] + out[i + 1:]))
        out = _subsume(out, False)
        if out is None:
            return True
    if len(out) == 1:
        return out[0]
    return _cond("or", tuple(sorted(out, key=lambda c: c.id)))


def implies(a, b):
    return cor(cnot(a), b)


# ---------------------------------------------------------------- concrete evaluation
class EvalError(Exception):
    pass


def ev(p, env):
    """Evaluate a Poly under env: atom id -> int (variables); memoised into env."""
    if isinstance(p, int):
        return p
    tot = 0
    for m, k in p.t.items():
        v = k
        for i in m:
            x = env.get(i)
            if x is None:
                x = env[i] = _evatom(Atom.by_id[i], env)
            v *= x
        tot += v
    return tot


def _evatom(a, env):
    if a.kind == "fdiv":
        d = ev(a.args[1], env)
        if d <= 0:
            raise EvalError("non-positive divisor")
        return ev(a.args[0], env) // d
    if a.kind == "ite":
        return ev(a.args[1] if evc(a.args[0], env) else a.args[2], env)
    if a.kind == "uf":
        h = UF_EVAL.get(a.name)
        if h is not None:
            return h(*[ev(x, env) for x in a.args])
    raise EvalError("no value for %r" % a)


UF_EVAL = {}


def evc(c, env):
    if isinstance(c, bool):
        return c
    if c.op == "le":
        return ev(c.a, env) <= 0
    if c.op == "eq":
        return ev(c.a, env) == 0
    if c.op == "ne":
        return ev(c.a, env) != 0
    if c.op == "and":
        return all(evc(x, env) for x in c.a)
    return any(evc(x, env) for x in c.a)


def atoms_of(x, out=None):
    """All atoms reachable from a Poly/Cond."""
    if out is None:
        out = {}
    if isinstance(x, (bool, int)):
        return out
    if isinstance(x, Cond):
        for y in (x.a if x.op in ("and", "or") else (x.a,)):
            atoms_of(y, out)
        return out
    for m in x.t:
        for i in m:
            if i not in out:
                a = Atom.by_id[i]
                out[i] = a
                for y in a.args:
                    if not isinstance(y, (bool, int)):
                        atoms_of(y, out)
    return out
