from engine.path import EngineError
from .pools import *
from .p06 import supply_change

CONTRACTS = ["pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("one deposit into a stable pool in an arbitrary backed state (empty, or with any reserves, shares and surplus "
          "balance); every amount and limit symbolic over its machine values; token decimals (7,7), (6,7), (7,6); the invariant "
          "is an uninterpreted function of amplification and scaled reserves, and in further scenarios the real iteration on "
          "concrete reserves and deposits")
OUTSIDE = ("whether the invariant itself is right (P27); tokens that do not follow SEP-41; recorded reserves that grow by "
           "surplus balance beyond the deposit")
U = 10 ** 18


def newton_d(amp, x, y):
    """the invariant in force for scaled reserves, as the contract defines it (P27): Newton from the sum"""
    lev = 2 * amp * U
    s = x + y
    d = s
    for _ in range(64):
        dp = d ** 3 // (4 * x * y)
        prev, d = d, (lev * s + 2 * dp) * d // ((lev - 1) * d + 3 * dp)
        if abs(d - prev) <= 10 ** 12:
            return d
    raise EngineError("no convergence")


def invariant(ctx, p, x, y, decs):
    """the invariant of recorded reserves x, y"""
    sx, sy = E.scale(x, 10 ** (18 - decs[0])), E.scale(y, 10 ** (18 - decs[1]))
    if sx.c is not None and sy.c is not None and p.amp0.c is not None:
        return P(newton_d(p.amp0.c, sx.c, sy.c))
    for name, ins, r in ctx.path.kernels:
        if len(ins) == 3 and all(any(i is w for i in ins) for w in (sx, sy)):
            return r
    for name, ins, r in ctx.path.kernels:
        if len(ins) == 3 and all(any(ctx.path.valid(E.eq(i, w)) is True for i in ins) for w in (sx, sy)):
            return r
    return None


def provide(ctx, decs=(7, 7), empty=False, abstract=True, curve=None, dep=None):
    p = Pool(ctx, "pool_stable", empty=empty, decimals=decs, curve=curve, amp=dep and dep[2] if empty else None)
    if abstract:
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    v = {}

    def opt(name, mk, wrap):
        if ctx.flag("give_" + name):
            v[name] = mk(name)
            return wrap(v[name])
        return VOID
    da, db = (P(dep[0]), P(dep[1])) if dep else (ctx.i128("desired_a"), ctx.i128("desired_b"))
    if empty is False and not curve:
        ctx.assume(E.gt(p.total, 0))
    slip = opt("slippage", ctx.i64, i64)
    dl = opt("deadline", ctx.u64, u64)
    mn = opt("min_shares", lambda n: ctx.int(n, 0, (1 << 128) - 1), lambda n: ("u128", n))
    o0 = p.watch()
    s0, r0 = p.balances(p.sender), p.balances(p.recipient)
    cfg0 = p.cfg()
    ctx.call(POOL, "provide_liquidity", addr(p.sender), i128(da), i128(db), slip, dl, mn)
    ra, rb, tot = p.post()
    s1 = p.balances(p.sender)
    ba, bb, bs = p.ta.balance(POOL), p.tb.balance(POOL), p.ts.balance(POOL)
    ctx.check(ctx.authed(POOL, p.sender), "the provider authorizes the deposit")
    ctx.check(E.cand(E.gt(da, 0), E.gt(db, 0)), "a deposit with a non-positive component is rejected")
    for x, y in zip(p.balances(p.other), o0):
        ctx.check(E.eq(x, y), "nobody else's balance moves")
    if ctx.branch(E.ne(p.sender, p.recipient)):
        for x, y in zip(p.balances(p.recipient), r0):
            ctx.check(E.eq(x, y), "the fee recipient's balance does not move")
    ctx.check(E.cand(E.eq(E.sub(s0[0], s1[0]), da), E.eq(E.sub(s0[1], s1[1]), db)), "exactly the desired amounts are taken")
    ctx.check(E.cand(E.eq(E.sub(ba, p.ba), da), E.eq(E.sub(bb, p.bb), db)), "the pool receives exactly what is taken")
    ctx.check(E.cand(E.le(ra, ba), E.le(rb, bb)), "recorded reserves stay backed")
    ctx.check(E.cand(E.ge(E.sub(ra, p.ra), da), E.ge(E.sub(rb, p.rb), db)), "reserves grow by at least the deposit")
    if ctx.branch(E.cand(E.eq(p.ra, p.ba), E.eq(p.rb, p.bb))):
        ctx.check(E.cand(E.eq(E.sub(ra, p.ra), da), E.eq(E.sub(rb, p.rb), db)), "without a surplus reserves grow by exactly the deposit")
    if "deadline" in v:
        ctx.check(E.le(ctx.w.now, v["deadline"]), "no deposit after its deadline")
    if "slippage" in v:
        ctx.check(E.le(v["slippage"], p.maxslip), "the caller's slippage tolerance is within the pool's maximum")
    minted = E.sub(tot, p.total)
    mine, locked = E.sub(s1[2], s0[2]), E.sub(bs, p.bs)
    ctx.check(E.eq(minted, supply_change(p.ts)), "recorded shares follow the share token's supply")
    ctx.check(E.eq(E.add(mine, locked), minted), "all new shares go to the provider or are locked")
    ctx.check(E.ge(mine, 0), "a deposit never burns the provider's shares")
    if "min_shares" in v:
        ctx.check(E.ge(mine, v["min_shares"]), "at least the requested shares are issued")
    ctx.check(ctx.w.same(p.cfg(), cfg0), "the configuration is unchanged")
    d1 = invariant(ctx, p, E.add(p.ra, da), E.add(p.rb, db), decs)
    if d1 is None:
        ctx.check(False, "shares follow the invariant of the reserves with the deposit")
    if empty:
        ctx.check(E.le(E.add(E.scale(mine, 10 ** (18 - max(decs))), 1000 * 10 ** (18 - max(decs))), d1),
                  "the first deposit gets at most the invariant less the locked minimum")
        ctx.check(E.gt(E.scale(E.add(mine, 1001), 10 ** (18 - max(decs))), d1),
                  "the first deposit gets the invariant less the locked minimum, rounded down")
        ctx.check(E.ge(mine, 1), "the first provider gets shares")
    else:
        d0 = invariant(ctx, p, p.ra, p.rb, decs)
        if d0 is None:
            ctx.check(False, "shares follow the invariant of the reserves before the deposit")
        ctx.check(E.le(E.mul(minted, d0), E.mul(p.total, E.sub(d1, d0))), "new shares are at most the relative growth of the invariant")
        # and no less, up to the 18-decimals truncation of the growth and one unit
        lo = E.sub(E.scale(E.mul(p.total, E.sub(d1, d0)), U), E.mul(p.total, d0))
        ctx.check(E.gt(E.scale(E.mul(E.add(minted, 1), d0), U), lo), "new shares follow the growth up to the stated rounding")


DEPOSITS = [(54_321, 98_765), (1, 2_000_000)]


def scenarios(tier):
    out = {}
    for decs in ((7, 7), (6, 7), (7, 6)):
        n = "%d%d" % decs
        out["provide_" + n] = (provide, {"decs": decs})
        out["first_" + n] = (provide, {"decs": decs, "empty": True})
    for i, c in enumerate(CURVES):
        for j, d in enumerate(DEPOSITS):
            out["provide_curve%d%d" % (i, j)] = (provide, {"curve": c, "abstract": False, "dep": d})
    out["first_curve0"] = (provide, {"empty": True, "abstract": False, "dep": (1_000_000, 1_500_000, 10)})
    out["first_curve1"] = (provide, {"empty": True, "abstract": False, "dep": (600, 405, 85)})
    return out
