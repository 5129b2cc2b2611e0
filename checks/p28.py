from engine.path import EngineError, Revert
from .pools import *
from .p09 import newton_d

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("XYK swap, quote, reverse quote and deposit in any backed pool state with reserves, shares and amounts of 1 to 10^18 "
          "units, all limits symbolic; stable swap and deposit with the solver's results uninterpreted (any value within the "
          "reserves; an invariant that grows with the deposit), reserves up to 10^17 units, decimals (7,7), (6,7), (7,6); the "
          "solver itself on nine concrete pools up to 10 million tokens with concrete amounts, all else symbolic")
OUTSIDE = ("offers worth less than one unit of the asked token; stable pools above 10 million tokens (D^3*100 exceeds 256 bits); "
           "asking for more than half of an XYK reserve; small offers to an unbalanced stable pool (known finding); tokens that "
           "refuse transfers; archived storage")
MAX = 10 ** 18
U = 10 ** 18


def limits(ctx, p, ret, spread, gross):
    """whatever limits the trader gives, as long as this trade respects them"""
    args = []
    if ctx.flag("give_min"):
        m = ctx.i128("ask_min", 1)
        ctx.assume(E.le(m, ret))
        args.append(i128(m))
    else:
        args.append(VOID)
    eff = p.maxspread
    if ctx.flag("give_spread"):
        eff = ctx.i64("max_spread", 0)
        ctx.assume(E.le(eff, p.maxspread))
        args.append(i64(eff))
    else:
        args.append(VOID)
    # the spread in force, as a share of the output, rounded down to 18 decimals
    within = E.lt(E.scale(spread, U), E.mul(E.add(E.scale(eff, 10 ** 14), 1), gross))
    if gross.c is not None or not ctx.path.abstract:
        ctx.assume(within)
    args += common(ctx)
    if ctx.flag("give_fee"):
        f = ctx.i64("max_fee")
        ctx.assume(E.ge(f, p.fee))
        args.append(i64(f))
    else:
        args.append(VOID)
    return args, eff


def common(ctx):
    if not ctx.flag("give_deadline"):
        return [VOID]
    d = ctx.u64("deadline")
    ctx.assume(E.ge(d, ctx.w.now))
    return [u64(d)]


def owned(ctx, p, name, t, lo=1, hi=MAX):
    x = ctx.i128(name, lo, hi)
    ctx.assume(E.le(x, t.balance(p.sender)))
    return x


def side(ctx, p):
    offer = A if ctx.choice("offer_token", 2) == 0 else B
    return (offer, p.ta, p.ra, p.rb) if offer == A else (offer, p.tb, p.rb, p.ra)


def alive(ctx, p):
    ctx.assume(E.cand(E.ge(p.ra, 1), E.ge(p.rb, 1), E.ge(p.total, 1)))


def xyk_price(ctx, o, a, x):
    """output before the fee (at least one unit) and spread of an offer"""
    spot = E.fdiv(E.mul(x, a), o)
    fair = E.sub(a, E.fdiv(E.mul(o, a), E.add(o, x)))
    ctx.assume(E.ge(spot, 1))
    gross = fair if ctx.branch(E.le(fair, spot)) else spot
    return gross, E.sub(spot, gross)


def xyk_swap(ctx):
    p = Pool(ctx, "pool", maxamt=MAX)
    alive(ctx, p)
    offer, t, o, a = side(ctx, p)
    x = owned(ctx, p, "offer_amount", t)
    gross, spread = xyk_price(ctx, o, a, x)
    ret = E.sub(gross, E.fdiv(E.mul(gross, p.fee), P(10000)))
    l, eff = limits(ctx, p, ret, spread, gross)
    ctx.must_succeed(POOL, "swap", addr(p.sender), addr(offer), i128(x), *l)


def xyk_quote(ctx):
    p = Pool(ctx, "pool", maxamt=MAX)
    alive(ctx, p)
    offer, t, o, a = side(ctx, p)
    ctx.must_succeed(POOL, "simulate_swap", addr(offer), i128(ctx.i128("offer_amount", 1, MAX)))


def xyk_reverse(ctx):
    """for anything up to half of the reserve, fee included"""
    p = Pool(ctx, "pool", maxamt=MAX)
    alive(ctx, p)
    ask, t, a, o = side(ctx, p)
    n = ctx.i128("ask_amount", 1, MAX)
    ctx.assume(E.le(p.fee, 5000))
    ctx.assume(E.le(E.scale(n, 20000), E.mul(a, E.sub(10000, p.fee))))
    ctx.must_succeed(POOL, "simulate_reverse_swap", addr(ask), i128(n))


def xyk_deposit(ctx, empty=False):
    p = Pool(ctx, "pool", maxamt=MAX, empty=empty)
    da, db = owned(ctx, p, "desired_a", p.ta), owned(ctx, p, "desired_b", p.tb)
    ctx.assume(E.cand(E.le(p.ba, 10 * MAX), E.le(p.bb, 10 * MAX)))
    slip, eff = VOID, p.dslip
    if ctx.flag("give_slippage"):
        eff = ctx.i64("slippage", 0)
        ctx.assume(E.le(eff, p.maxslip))
        slip = i64(eff)
    ma = mb = VOID
    if empty:
        ctx.assume(E.ge(E.mul(da, db), 1001 * 1001))
    else:
        alive(ctx, p)
        # the part of each desired amount that matches the other exceeds it at most by the tolerance
        wa, wb = E.fdiv(E.mul(db, p.ra), p.rb), E.fdiv(E.mul(da, p.rb), p.ra)
        for w, d in ((wa, da), (wb, db)):
            ctx.assume(E.le(E.scale(w, 10000), E.mul(d, E.add(eff, 10000))))
        ta, tb = (w if ctx.branch(E.le(w, d)) else d for w, d in ((wa, da), (wb, db)))
        if ctx.flag("give_mins"):
            ma, mb = ctx.i128("min_a", 1), ctx.i128("min_b", 1)
            ctx.assume(E.cand(E.le(ma, ta), E.le(mb, tb)))
            ma, mb = i128(ma), i128(mb)
    ctx.must_succeed(POOL, "provide_liquidity", addr(p.sender), i128(da), ma, i128(db), mb, slip, *common(ctx))


# ---------------------------------------------------------------- stable pool
def shape(ctx, decs, **kw):
    p = Pool(ctx, "pool_stable", decimals=decs, **kw)
    alive(ctx, p)
    return p


def stable_swap(ctx, decs):
    """the contract around its solver, for any answer of the solver within the reserve"""
    p = shape(ctx, decs, maxamt=10 ** 17)
    ctx.path.abstract = True
    offer, t, o, a = side(ctx, p)
    d = dict(zip((A, B), decs))
    do, da = d[offer], d[B if offer == A else A]
    x = owned(ctx, p, "offer_amount", t, hi=10 ** 17)
    worth = E.scale(x, 10 ** (da - do)) if da >= do else E.fdiv(x, P(10 ** (do - da)))
    l, eff = limits(ctx, p, P(0), P(0), P(1))
    mn = l[0][1] if l[0] is not VOID else None

    def fact(ins, y):
        gross = E.sub(a, y)
        f = [E.ge(gross, 1), E.le(E.sub(E.scale(worth, U), E.scale(gross, U)), E.sub(E.mul(E.scale(eff, 10 ** 14), gross), 1))]
        if mn is not None:
            f.append(E.ge(E.sub(gross, E.fdiv(E.mul(gross, p.fee), P(10000))), mn))
        return E.cand(*f)
    ctx.path.kernel_fact = fact
    ctx.must_succeed(POOL, "swap", addr(p.sender), addr(offer), i128(x), *l)


def stable_deposit(ctx, decs, empty=False):
    p = Pool(ctx, "pool_stable", decimals=decs, maxamt=10 ** 14, empty=empty)
    ctx.path.abstract = True
    if not empty:
        alive(ctx, p)
    ctx.assume(E.cand(E.le(p.ba, MAX), E.le(p.bb, MAX)))
    da, db = (owned(ctx, p, "desired_" + n, t, hi=10 ** 14) for n, t in (("a", p.ta), ("b", p.tb)))
    slip = VOID
    if ctx.flag("give_slippage"):
        eff = ctx.i64("slippage", 0)
        ctx.assume(E.le(eff, p.maxslip))
        slip = i64(eff)
    else:
        ctx.assume(E.le(p.dslip, p.maxslip))
    got = []

    def fact(ins, d):
        got.append(d)
        f = [E.ge(d, U // 100), E.le(d, 2 * 10 ** 26)]
        if empty:
            f.append(E.ge(d, 1002 * 10 ** (18 - max(decs))))
        elif len(got) == 2:
            # the invariant of the old reserves is below that of the new, and the pool's shares were minted for it
            f.append(E.le(d, got[0]))
            f.append(E.le(E.scale(p.total, 10 ** (18 - max(decs))), d))
        return E.cand(*f)
    ctx.path.kernel_fact = fact
    ctx.must_succeed(POOL, "provide_liquidity", addr(p.sender), i128(da), i128(db), slip, *common(ctx), VOID)


T = 10 ** 7
# reserves in units, amplification, decimals
SHAPES = [
    (T, T, 100, (7, 7)), (10_000, 12_000, 10, (7, 7)), (10 ** 7 * T // 2, 10 ** 7 * T // 2, 100, (7, 7)),
    (3 * 10 ** 6 * T, 1 * 10 ** 6 * T, 85, (7, 7)), (50_000 * T, 2_000 * T, 6, (7, 7)), (1000 * 10 ** 6, 1100 * T, 150, (6, 7)),
    (5 * 10 ** 5 * T, 4 * 10 ** 5 * 10 ** 6, 1000, (7, 6)), (777_777, 7_777_777, 2000, (7, 7)), (123 * T, 456 * T, 1, (7, 7)),
]


def ref_y(amp, x, D):
    ann = 200 * amp
    c, b = D ** 3 * 100 // (4 * x * ann), x + D * 100 // ann
    y = D
    for _ in range(200):
        prev, y = y, (y * y + c) // (2 * y + b - D)
        if abs(y - prev) <= 1:
            return y
    raise EngineError("no convergence")


def point(ctx, s, fee=None):
    a, b, amp, decs = s
    p = Pool(ctx, "pool_stable", decimals=decs, curve=dict(ra=a, rb=b, total=a + b, amp=amp), fee=fee)
    return p


def scaled(s):
    a, b, amp, decs = s
    return a * 10 ** (18 - decs[0]), b * 10 ** (18 - decs[1])


def stable_swap_at(ctx, s, frac):
    """the solver itself: concrete reserves and offers"""
    p = point(ctx, s)
    offer, t, o, a = side(ctx, p)
    i = 0 if offer == A else 1
    x = max(1, o.c // frac)
    ctx.assume(E.ge(t.balance(p.sender), x))
    xs = scaled(s)
    y = ref_y(s[2], (o.c + x) * 10 ** (18 - s[3][i]), newton_d(s[2], *xs))
    gross = a.c - y // 10 ** (18 - s[3][1 - i]) - 2
    if gross < 1:
        # the invariant is overestimated for unbalanced pools (known finding): offers below the difference get nothing
        ctx.checked += 1
        return
    worth = x * 10 ** (18 - s[3][i]) // 10 ** (18 - s[3][1 - i])
    gross = P(gross)
    ret = E.sub(gross, E.fdiv(E.mul(gross, p.fee), P(10000)))
    l, eff = limits(ctx, p, ret, P(max(0, worth - gross.c)), gross)
    ctx.must_succeed(POOL, "swap", addr(p.sender), addr(offer), i128(x), *l)


def small_offer(ctx):
    """a pool of 1000 and 1100 tokens, an offer of 1000 units"""
    p = point(ctx, SHAPES[5])
    try:
        ctx.call(POOL, "simulate_swap", addr(A), i128(1000))
    except Revert:
        ctx.check(False, "a small swap in a slightly unbalanced stable pool can be quoted", known="P28-small-offers")


def stable_deposit_at(ctx, s, fa, fb):
    p = point(ctx, s)
    da, db = max(1, int(s[0] * fa)), max(1, int(s[1] * fb))
    ctx.assume(E.cand(E.ge(p.ta.balance(p.sender), da), E.ge(p.tb.balance(p.sender), db), E.le(p.dslip, p.maxslip)))
    ctx.assume(E.cand(E.le(p.ba, MAX), E.le(p.bb, MAX)))
    ctx.must_succeed(POOL, "provide_liquidity", addr(p.sender), i128(da), i128(db), VOID, *common(ctx), VOID)


def stable_first_at(ctx, s):
    p = Pool(ctx, "pool_stable", decimals=s[3], empty=True, amp=s[2])
    ctx.assume(E.cand(E.ge(p.ta.balance(p.sender), s[0]), E.ge(p.tb.balance(p.sender), s[1]), E.le(p.dslip, p.maxslip)))
    ctx.assume(E.cand(E.le(p.ba, MAX), E.le(p.bb, MAX)))
    ctx.must_succeed(POOL, "provide_liquidity", addr(p.sender), i128(s[0]), i128(s[1]), VOID, *common(ctx), VOID)


def stable_reverse_at(ctx, s, frac, fee):
    p = point(ctx, s, fee)
    ask, t, a, o = side(ctx, p)
    i = 0 if ask == A else 1
    offer = B if ask == A else A
    n = max(1, a.c // frac)
    gross = n * 10000 // (10000 - fee) + 1
    y = ref_y(s[2], (a.c - gross) * 10 ** (18 - s[3][i]), newton_d(s[2], *scaled(s)))
    if y // 10 ** (18 - s[3][1 - i]) < o.c + 2:
        ctx.checked += 1        # as above
        return
    ctx.must_succeed(POOL, "simulate_reverse_swap", addr(offer), i128(n))      # this pool's argument


def scenarios(tier):
    out = {"xyk_swap": (xyk_swap, {}), "xyk_quote": (xyk_quote, {}), "xyk_reverse": (xyk_reverse, {}),
           "small_offer": (small_offer, {}), "xyk_deposit": (xyk_deposit, {}), "xyk_first": (xyk_deposit, {"empty": True})}
    for decs in ((7, 7), (6, 7), (7, 6)):
        n = "%d%d" % decs
        out["stable_swap_" + n] = (stable_swap, {"decs": decs})
        out["stable_deposit_" + n] = (stable_deposit, {"decs": decs})
        out["stable_first_" + n] = (stable_deposit, {"decs": decs, "empty": True})
    for i, s in enumerate(SHAPES):
        for f in (1, 10, 1000, 10 ** 6)[i % 2::2] if tier == "quick" else (1, 2, 10, 1000, 10 ** 5, 10 ** 6):
            out["swap_%d_%d" % (i, f)] = (stable_swap_at, {"s": s, "frac": f})
        for j, (fa, fb) in enumerate([(1, 1), (0.001, 0.5), (20, 0.01)]):
            total = sum(scaled((s[0] * (1 + fa), s[1] * (1 + fb)) + s[2:]))
            if (tier != "quick" or (i + j) % 2 == 0) and total < 10 ** 25:
                out["deposit_%d_%d" % (i, j)] = (stable_deposit_at, {"s": s, "fa": fa, "fb": fb})
        out["first_%d" % i] = (stable_first_at, {"s": s})
        out["reverse_%d" % i] = (stable_reverse_at, {"s": s, "frac": (2, 7, 1000)[i % 3], "fee": (0, 30, 2500)[i // 3]})
    return out
