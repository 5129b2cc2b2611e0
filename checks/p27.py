from engine import expr as E, portfolio
from engine.expr import P, Atom, mk
from .pools import *
from .p09 import invariant
from engine.harness import Done

CONTRACTS = ["stable_math"]
LEVEL = "model_checking"
BOUNDS = ("any two reserves from one unit (7 decimals) to 10^26 (18 decimals), any amplification, any number of iterations: "
          "one iteration from the start and one from an arbitrary state, which stands for every later one; swap quotes in any "
          "backed pool state with reserves and offers of 1 to 10^17 units, decimals (7,7), (6,7), (7,6); amplification ramps: "
          "all 64-bit values and times; eight concrete extreme pools per function")
OUTSIDE = ("reserves of less than one unit; that the leverage used for the invariant is the amplification's (known finding); "
           "the equation is solved by integers: rounding of one unit at 18 decimals")
U = 10 ** 18
TOL = 10 ** 12
ONE = 10 ** 11      # one unit of a token with 7 decimals
TOP = 10 ** 26


def deploy(ctx):
    """False when the hook's functions are gone: the scenarios that call them are left out"""
    if ctx.built["stable_math"].get("nohook"):
        ctx.checked += 1
        return False
    ctx.deploy(POOL, "stable_math")
    return True


def u128(n):
    return ("u128", P(n))


def local(ctx, goal, msg, facts=(), timeout=30):
    """assert from the definitions of the quantities involved and the linear conditions between them"""
    if ctx.replay or isinstance(goal, bool) or ctx.path.decide(goal):
        return ctx.check(goal, msg)
    want = set(E.atoms_of(goal))
    use = [c for c in ctx.path.pc if linear(c) and set(E.atoms_of(c)) <= want]
    r = portfolio.check(use + list(facts) + [E.cnot(goal)], timeout)[0]
    proved(ctx, r, msg) or ctx.check(goal, msg)


def linear(c):
    return not isinstance(c, bool) and c.op in ("le", "eq", "ne") and all(len(mm) <= 1 for mm in c.a.t)


def proved(ctx, r, msg):
    st = ctx.path.stats
    st.queries += 1
    if r == "unsat":
        st.unsat += 1
        st.obligations += 1
        st.discharged += 1
        st.labels[msg] = st.labels.get(msg, 0) + 1
        ctx.checked += 1
        return True


class Sym2:
    """Polynomials symmetric in a and b, over their sum and product. A proof over s and m for all values with the
    given facts (each checked for s = a + b, m = a * b) is a proof for all a and b."""

    def __init__(self, ctx, a, b, facts):
        if ctx.replay:
            # a proof about all values: nothing to run
            raise Done()
        self.ctx, self.a, self.b = ctx, a, b
        self.s, self.m, self.A = E.var("_sum", 0), E.var("_product", 0), E.var("_a")
        self.ia, self.ib, self.iA = (next(iter(x.t))[0] for x in (a, b, self.A))
        self.memo = {}
        self.it = None
        self.iterate, self.general = E.var("_iterate", 0), {}
        self.facts = []
        for f in facts:
            ctx.lemma(f(E.add(a, b), E.mul(a, b)), "")
            if ctx.path.decide(f(E.add(a, b), E.mul(a, b))) is True:
                self.facts.append(f(self.s, self.m))

    def red(self, p):
        """A*A = A*s - m"""
        while True:
            for mm, k in p.t.items():
                if mm.count(self.iA) >= 2:
                    r = list(mm)
                    r.remove(self.iA)
                    r.remove(self.iA)
                    rest = mk({tuple(r): k})
                    p = E.add(E.sub(p, mk({mm: k})), E.mul(rest, E.sub(E.mul(self.A, self.s), self.m)))
                    break
            else:
                return p

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            at = Atom.by_id[i]
            if i == self.ia:
                r = self.A
            elif i == self.ib:
                r = E.sub(self.s, self.A)
            elif at.kind == "fdiv":
                r = E.fdiv(self.poly(at.args[0]), self.poly(at.args[1]))
            elif at.kind == "ite":
                r = E.ite(self.cond(at.args[0]), self.poly(at.args[1]), self.poly(at.args[2]))
            else:
                r = P(at)
            self.memo[i] = r
        return r

    def poly(self, p):
        out = P(0)
        for mm, k in p.t.items():
            x = P(k)
            for i in mm:
                x = self.red(E.mul(x, self.atom(i)))
            out = E.add(out, x)
        return self.red(out)

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c.op in ("and", "or"):
            return (E.cand if c.op == "and" else E.cor)(*[self.cond(x) for x in c.a])
        p = self.poly(c.a)
        return {"le": E.le, "eq": E.eq, "ne": E.ne}[c.op](p, 0)

    def generalise(self, d, step):
        """d = step(sum): prove for d = step(it) with any it instead"""
        if d.c is not None or len(d.t) != 1 or len(next(iter(d.t))) != 1:
            return
        if self.poly(d) is step(self.s, self.s, self.m):
            self.general[next(iter(d.t))[0]] = step(self.iterate, self.s, self.m)

    def free(self, c):
        """the same condition about the free iterate"""
        js = self.it and next(iter(self.s.t))[0]
        if self.it is None or all(mm == () or mm == (js,) for mm in c.a.t):
            return c
        p = P(0)
        for mm, k in c.a.t.items():
            p = E.add(p, E.scale(self.it, k) if mm == (js,) else mk({mm: k}))
        return {"le": E.le, "eq": E.eq, "ne": E.ne}[c.op](p, 0)

    def query(self, goal, gen):
        """the assertion's negation, with the facts and the linear conditions about the same quantities"""
        self.memo = dict(self.general) if gen else {}
        self.it = self.iterate if gen else None
        g = E.cnot(self.cond(goal))
        want = set(E.atoms_of(g))
        use = list(self.facts)
        if gen:
            use.append(E.ge(self.it, 2 * ONE))
        for c in self.ctx.path.pc:
            if linear(c):
                c = self.cond(c)
                if isinstance(c, bool) or not linear(c):
                    continue
                c = self.free(c)
                if set(E.atoms_of(c)) <= want and self.iA not in E.atoms_of(c):
                    use.append(c)
        return use + [g]

    def check(self, goal, msg, timeout=60):
        ctx = self.ctx
        if ctx.replay or isinstance(goal, bool) or ctx.path.decide(goal):
            return ctx.check(goal, msg)
        for gen, t in ((False, 6), (True, timeout)) if self.general else ((False, timeout),):
            if proved(ctx, portfolio.check(self.query(goal, gen), t)[0], msg):
                return
        ctx.check(goal, msg)


def newton(d, s, m, lev):
    """one step of the iteration"""
    p = E.fdiv(E.mul(E.mul(d, d), d), E.scale(m, 4))
    return E.fdiv(E.mul(E.add(E.mul(s, lev), E.scale(p, 2)), d), E.add(E.mul(d, E.sub(lev, 1)), E.scale(p, 3)))


def d_equation(d, a, b, lev):
    m, s = E.scale(E.mul(a, b), 4), E.add(a, b)

    def f(x):
        return E.sub(E.add(E.mul(E.mul(x, x), x), E.mul(E.mul(m, x), E.sub(lev, 1))), E.mul(E.mul(m, s), lev))
    return [(E.ge(f(E.add(d, 2)), 0), "the invariant is not below the solution of its equation"),
            (imp(E.ge(d, 4 * TOL), E.le(f(E.sub(d, TOL)), 0)), "the invariant exceeds the solution of its equation by at most the tolerance"),
            (E.le(d, E.add(s, 2)), "the invariant is at most the sum of the reserves")]


def y_equation(y, x, D, ann):
    """for any invariant D: y solves y^2 + (x + D/Ann - D) y = D^3 / (4 x Ann); ann in hundredths"""
    c = E.fdiv(E.scale(E.mul(E.mul(D, D), D), 100), E.mul(E.scale(x, 4), ann))
    k = E.add(x, E.sub(E.fdiv(E.scale(D, 100), ann), D))

    def g(y):
        return E.sub(E.add(E.mul(y, y), E.mul(k, y)), c)
    return [(E.le(g(y), TOL * TOL), "the new reserve exceeds the solution of its equation by at most the tolerance"),
            (E.ge(g(E.add(y, 1)), 0), "the new reserve is not below the solution of its equation")]


def d_result(ctx, amp=None):
    if not deploy(ctx):
        return
    a, b = ctx.int("a", ONE, TOP), ctx.int("b", ONE, TOP)
    amp = P(amp) if amp else E.scale(ctx.int("amp", 1, 10 ** 6), 100)
    ctx.path.havoc = True
    d = ctx.call(POOL, "probe_d", u128(amp), u128(a), u128(b))[1]
    lev = E.scale(E.fdiv(amp, 100), 2 * U)
    z = Sym2(ctx, a, b, [lambda s, m: E.ge(m, ONE * ONE), lambda s, m: E.ge(s, 2 * ONE),
                         lambda s, m: E.le(E.scale(m, 4), E.mul(s, s))])
    z.generalise(d, lambda it, s, m: newton(it, s, m, lev))
    for c, msg in d_equation(d, a, b, lev):
        z.check(c, msg)


def y_result(ctx, amp=None):
    if not deploy(ctx):
        return
    x, a, b = (ctx.int(n, ONE, TOP) for n in "xab")
    amp = P(amp) if amp else ctx.int("amp", 100, 10 ** 8)
    ctx.path.abstract = "leaf"
    ctx.path.havoc = True
    D = ctx.call(POOL, "probe_d", u128(amp), u128(a), u128(b))[1]
    y = ctx.call(POOL, "probe_y", u128(amp), u128(x), u128(a), u128(b), u32(18))[1]
    for c, msg in y_equation(y, x, D, E.scale(amp, 2)):
        local(ctx, c, msg)


POINTS = [(100, U, U, 3 * U), (100, 10 ** 22, 10 ** 22, 10 ** 20), (8500, 10 ** 24, 3 * 10 ** 23, 10 ** 19),
          (1500, ONE, 10 ** 19, 10 ** 20), (100_000_000, 10 ** 18, 10 ** 24, 10 ** 15), (600, 1234567 * ONE, 987654 * ONE, 2 * 10 ** 18),
          (100, 10 ** 15, 10 ** 15, ONE), (25000, 5 * 10 ** 23, 7 * 10 ** 23, 10 ** 24)]


def d_point(ctx, amp, a, b):
    if not deploy(ctx):
        return
    d = ctx.call(POOL, "probe_d", u128(amp), u128(a), u128(b))[1]
    for c, msg in d_equation(d, P(a), P(b), P(amp // 100 * 2 * U)):
        ctx.check(c, msg)


def y_point(ctx, amp, a, b, x):
    if not deploy(ctx):
        return
    D = ctx.call(POOL, "probe_d", u128(amp), u128(a), u128(b))[1]
    y = ctx.call(POOL, "probe_y", u128(amp), u128(x), u128(a), u128(b), u32(18))[1]
    y7 = ctx.call(POOL, "probe_y", u128(amp), u128(x), u128(a), u128(b), u32(7))[1]
    for c, msg in y_equation(y, P(x), D, P(2 * amp)):
        ctx.check(c, msg)
    ctx.check(E.eq(y7, E.fdiv(y, ONE)), "the new reserve is given in the token's own units, rounded down")


def leverage(ctx):
    """the invariant of an unbalanced pool, by the amplification the swap curve uses"""
    if not deploy(ctx):
        return
    a, b, A = 10 ** 18, 9 * 10 ** 18, 10
    d = ctx.call(POOL, "probe_d", u128(100 * A), u128(a), u128(b))[1]
    m, l = 4 * a * b, 2 * A

    def f(x):
        return E.sub(E.add(E.mul(E.mul(x, x), x), E.scale(x, m * (l - 1))), m * l * (a + b))
    ctx.check(E.le(f(E.sub(d, TOL)), 0), "the invariant follows the amplification of the swap curve", known="P27-leverage")


def ramp(ctx):
    if not deploy(ctx):
        return
    i, it, n, nt = (ctx.u64(x) for x in ("init_amp", "init_time", "next_amp", "next_time"))
    ctx.w.now = ctx.u64("now")
    r = ctx.call(POOL, "probe_amp", u64(i), u64(it), u64(n), u64(nt))[1]
    ctx.check(E.cor(E.cand(E.le(i, r), E.le(r, n)), E.cand(E.le(n, r), E.le(r, i))),
              "the amplification in force lies between its initial and target values")
    if ctx.branch(E.ge(ctx.w.now, nt)):
        ctx.check(E.eq(r, n), "after the ramp the amplification is the target")


def ramp_ok(ctx):
    """between its start and its end a ramp never traps"""
    if not deploy(ctx):
        return
    i, n = ctx.u64("init_amp", 1, 10 ** 8), ctx.u64("next_amp", 1, 10 ** 8)
    it, nt = ctx.u64("init_time", 0, 1 << 40), ctx.u64("next_time", 0, 1 << 40)
    ctx.w.now = ctx.u64("now", 0, 1 << 40)
    ctx.assume(E.cand(E.le(it, nt), E.le(it, ctx.w.now)))
    r = ctx.must_succeed(POOL, "probe_amp", u64(i), u64(it), u64(n), u64(nt))[1]
    ctx.check(imp(E.le(ctx.w.now, it), E.cor(E.eq(r, i), E.eq(it, nt))), "a ramp starts at the initial amplification")


def quote(ctx, decs, side, curve=None):
    """a swap quote: what leaves the pool is the asked reserve less the solution of the equation, rounded in the asked
    token's units"""
    p = Pool(ctx, "stable_math", decimals=decs, maxamt=10 ** 17, curve=curve)
    n = ctx.i128("offer", 1, 10 ** 17)
    if not curve:
        ctx.assume(E.cand(E.ge(p.ra, 1), E.ge(p.rb, 1)))
        ctx.path.abstract = "leaf"
        ctx.path.havoc = True
    offer, ask = (p.ra, p.rb) if side == 0 else (p.rb, p.ra)
    so, sa = 10 ** (18 - decs[side]), 10 ** (18 - decs[1 - side])
    q = ctx.call(POOL, "simulate_swap", addr((A, B)[side]), i128(n))
    out = E.add(fnum(q, "ask_amount"), fnum(q, "commission_amount"))
    ctx.check(E.cand(E.ge(out, 0), E.le(out, ask)), "the swap output never exceeds the asked reserve")
    if ctx.replay:
        D = P(newton_d(p.amp0.c, p.ra.c * 10 ** (18 - decs[0]), p.rb.c * 10 ** (18 - decs[1])))
    else:
        # the kernel sees the reserves in the order offered, asked
        D = invariant(ctx, p, offer, ask, (decs[side], decs[1 - side]))
    if D is None:
        return ctx.check(False, "the quote follows the invariant of the recorded reserves")
    for name, ins, r in ctx.path.kernels:
        if r is D and not any(i is E.scale(p.amp0, 100) for i in ins):
            ctx.check(False, "the quote uses the amplification in force")
    x = E.scale(E.add(offer, n), so)
    z = E.sub(ask, out)         # the asked reserve that stays
    ann = E.scale(p.amp0, 200)
    c = E.fdiv(E.scale(E.mul(E.mul(D, D), D), 100), E.mul(E.scale(x, 4), ann))
    k = E.add(x, E.sub(E.fdiv(E.scale(D, 100), ann), D))

    def g(y):
        return E.sub(E.add(E.mul(y, y), E.mul(k, y)), c)
    # z = floor(y / sa) for the solution y
    if not ctx.replay and len(z.t) == 1:
        y = E.Atom.by_id[next(iter(z.t))[0]]
        if y.kind == "fdiv" and y.args[1].c == sa:
            y = y.args[0]
            for cc, msg in y_equation(y, x, D, ann):
                local(ctx, cc, msg)
            local(ctx, E.cand(E.ge(c, 0), E.ge(y, 0)), "nothing here is negative")
            if not ctx.incon and not ctx.viol:
                # what was just proved of y, k and c is enough, whatever they are
                Y, K, C = E.var("_y", 0), E.var("_k"), E.var("_c", 0)
                Z = E.fdiv(Y, sa)

                def h(y):
                    return E.sub(E.add(E.mul(y, y), E.mul(K, y)), C)
                facts = [E.le(h(Y), TOL * TOL), E.ge(h(E.add(Y, 1)), 0)]
                low = portfolio.check(facts + [E.gt(h(E.scale(Z, sa)), TOL * TOL)], 20)[0]
                high = portfolio.check(facts + [E.lt(h(E.scale(E.add(Z, 1), sa)), 0)], 20)[0]
                if proved(ctx, low, "the quote is not below the curve's output by more than the tolerance") and \
                        proved(ctx, high, "the quote exceeds the curve's output by at most one unit"):
                    return
    local(ctx, E.le(g(E.scale(z, sa)), TOL * TOL), "the quote is not below the curve's output by more than the tolerance")
    local(ctx, E.ge(g(E.scale(E.add(z, 1), sa)), 0), "the quote exceeds the curve's output by at most one unit")


def in_force(ctx):
    """the invariant is taken with the amplification the ramp gives now"""
    p = Pool(ctx, "stable_math", maxamt=10 ** 17, ramp=True)
    if not ctx.branch(ctx.flag("deposit")):
        ctx.path.abstract = True
        ctx.call(POOL, "simulate_swap", addr(A), i128(ctx.i128("offer", 1, 10 ** 17)))
    else:
        ctx.path.abstract = True
        ctx.call(POOL, "provide_liquidity", addr(p.sender), i128(ctx.i128("a", 1, 10 ** 17)), i128(ctx.i128("b", 1, 10 ** 17)),
                 VOID, VOID, VOID)
    i, t0, n, t1 = p.ramp
    now = ctx.w.now
    if ctx.replay:
        return
    up = E.add(i, E.fdiv(E.mul(E.sub(n, i), E.sub(now, t0)), E.sub(t1, t0)))
    down = E.sub(i, E.fdiv(E.mul(E.sub(i, n), E.sub(now, t0)), E.sub(t1, t0)))
    want = n if ctx.branch(E.ge(now, t1)) else up if ctx.branch(E.gt(n, i)) else down
    for name, ins, r in ctx.path.kernels:
        ctx.check(any(ctx.path.valid(E.eq(x, want)) is True for x in ins), "the amplification in force is the ramp's value now")


def scenarios(tier):
    out = {"y": (y_result, {}), "ramp": (ramp, {}), "ramp_ok": (ramp_ok, {}), "leverage": (leverage, {})}
    for i, (amp, a, b, x) in enumerate(POINTS):
        out["d_point%d" % i] = (d_point, {"amp": amp, "a": a, "b": b})
        out["y_point%d" % i] = (y_point, {"amp": amp, "a": a, "b": b, "x": x})
    for amp in (100, 600, 8500, 1000000) + ((1500, 5000, 20000, 100000, 100000000) if tier == "thorough" else ()):
        out["d_%d" % amp] = (d_result, {"amp": amp})
    out["in_force"] = (in_force, {})
    for decs in ((7, 7), (6, 7), (7, 6)):
        for side in (0, 1):
            out["quote_%d%d_%d" % (decs + (side,))] = (quote, {"decs": decs, "side": side})
    return out
