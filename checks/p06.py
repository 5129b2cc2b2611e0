from .pools import *

CONTRACTS = ["pool"]
LEVEL = "model_checking"
BOUNDS = ("one deposit into an XYK pool in an arbitrary state (empty, or with any reserves, shares and surplus balance), "
          "all amounts, limits and tolerances symbolic over their machine values, each given or omitted")
OUTSIDE = "tokens that do not follow SEP-41"


def supply_change(t):
    n = P(0)
    for l in t.log:
        if l[0] == "mint":
            n = E.add(n, l[3])
        elif l[0] == "burn":
            n = E.sub(n, l[3])
    return n


def provide(ctx, empty=False):
    p = Pool(ctx, "pool", empty=empty)
    v = {}

    def opt(name, mk, wrap):
        if ctx.flag("give_" + name):
            v[name] = mk(name)
            return wrap(v[name])
        return VOID
    da, db = ctx.i128("desired_a"), ctx.i128("desired_b")
    ma, mb = opt("min_a", ctx.i128, i128), opt("min_b", ctx.i128, i128)
    slip = opt("slippage", ctx.i64, i64)
    dl = opt("deadline", ctx.u64, u64)
    if not empty:
        # reserves only vanish together with all shares
        ctx.assume(E.cor(E.gt(p.ra, 0), E.gt(p.rb, 0)))
    o0 = p.watch()
    s0 = p.balances(p.sender)
    ctx.call(POOL, "provide_liquidity", addr(p.sender), i128(da), ma, i128(db), mb, slip, dl)
    ra, rb, tot = p.post()
    s1 = p.balances(p.sender)
    ba, bb, bs = p.ta.balance(POOL), p.tb.balance(POOL), p.ts.balance(POOL)
    ta, tb = E.sub(s0[0], s1[0]), E.sub(s0[1], s1[1])
    ctx.check(ctx.authed(POOL, p.sender), "the provider authorizes the deposit")
    for x, y in zip(p.balances(p.other), o0):
        ctx.check(E.eq(x, y), "nobody else's balance moves")
    ctx.check(E.cand(E.le(ta, da), E.le(tb, db)), "no more than the desired amounts are taken")
    ctx.check(E.cand(E.ge(ta, 0), E.ge(tb, 0)), "a deposit takes tokens, never gives")
    if "min_a" in v:
        ctx.check(E.ge(ta, v["min_a"]) if not empty else True, "no less than the minimum of A is taken")
    if "min_b" in v:
        ctx.check(E.ge(tb, v["min_b"]) if not empty else True, "no less than the minimum of B is taken")
    if "deadline" in v:
        ctx.check(E.le(ctx.w.now, v["deadline"]), "no deposit after its deadline")
    if "slippage" in v:
        ctx.check(E.le(v["slippage"], p.maxslip), "the caller's slippage tolerance is within the pool's maximum")
    ctx.check(E.cand(E.eq(E.sub(ba, p.ba), ta), E.eq(E.sub(bb, p.bb), tb)), "the pool receives exactly what is taken")
    ctx.check(E.cand(E.le(ra, ba), E.le(rb, bb)), "recorded reserves stay backed")
    ga, gb = E.sub(ra, p.ra), E.sub(rb, p.rb)
    ctx.check(E.cand(E.ge(ga, ta), E.ge(gb, tb)), "reserves grow by at least what is taken")
    minted = E.sub(tot, p.total)
    ctx.check(E.eq(minted, supply_change(p.ts)), "recorded shares follow the share token's supply")
    mine, locked = E.sub(s1[2], s0[2]), E.sub(bs, p.bs)
    ctx.check(E.eq(E.add(mine, locked), minted), "all new shares go to the provider or are locked")
    ctx.check(E.ge(mine, 0), "a deposit never burns the provider's shares")
    if empty:
        ctx.check(E.le(E.mul(tot, tot), E.mul(ta, tb)), "the first deposit mints at most the geometric mean")
        ctx.check(E.eq(locked, P(1000)), "the first deposit locks the minimum liquidity in the pool")
        ctx.check(E.ge(mine, 1), "the first provider gets shares")
    else:
        ctx.check(E.eq(locked, 0), "later deposits lock nothing")
        ctx.check(E.le(E.mul(minted, p.ra), E.mul(ga, p.total)), "new shares are at most the proportional part of A")
        ctx.check(E.le(E.mul(minted, p.rb), E.mul(gb, p.total)), "new shares are at most the proportional part of B")
        ctx.check(E.cand(E.ge(E.mul(ra, p.total), E.mul(p.ra, tot)), E.ge(E.mul(rb, p.total), E.mul(p.rb, tot))),
                  "the value per existing share does not fall")
        # nothing beyond the pool's own price, up to the tolerance
        if ctx.branch(E.cand(E.eq(p.ra, p.ba), E.eq(p.rb, p.bb))):
            ctx.check(E.cand(E.eq(ga, ta), E.eq(gb, tb)), "without a surplus reserves grow by exactly what is taken")


def missing(ctx, mayfail=0):
    """both tokens have to be given"""
    p = Pool(ctx, "pool")
    da = i128(ctx.i128("desired_a")) if ctx.flag("give_a") else VOID
    db = VOID if da != VOID else (i128(ctx.i128("desired_b")) if ctx.flag("give_b") else VOID)
    ctx.call(POOL, "provide_liquidity", addr(p.sender), da, VOID, db, VOID, VOID, VOID)
    ctx.check(False, "a deposit of one token only is rejected")


def scenarios(tier):
    return {"provide": (provide, {}), "first": (provide, {"empty": True}), "one_token": (missing, {"mayfail": 1})}
