from .pools import *
from .p06 import supply_change

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("one withdrawal from either pool type in an arbitrary backed state, all amounts, minimums and the deadline "
          "symbolic over their machine values")
OUTSIDE = "tokens that do not follow SEP-41; histories are covered by induction over single calls"


def withdraw(ctx, kind):
    p = Pool(ctx, kind)
    n, ma, mb = ctx.i128("shares"), ctx.i128("min_a"), ctx.i128("min_b")
    dl = ctx.u64("deadline") if ctx.flag("give_deadline") else None
    o0 = p.watch()
    s0 = p.balances(p.sender)
    r0 = p.balances(p.recipient)
    cfg0 = p.cfg()
    ret = ctx.call(POOL, "withdraw_liquidity", addr(p.sender), i128(n), i128(ma), i128(mb), u64(dl) if dl is not None else VOID)
    pa, pb = ret[1][0][1], ret[1][1][1]
    ra, rb, tot = p.post()
    s1 = p.balances(p.sender)
    ba, bb, bs = p.ta.balance(POOL), p.tb.balance(POOL), p.ts.balance(POOL)
    ctx.check(ctx.authed(POOL, p.sender), "the holder authorizes the withdrawal")
    if dl is not None:
        ctx.check(E.le(ctx.w.now, dl), "no withdrawal after its deadline")
    ctx.check(E.gt(n, 0), "only a positive amount of shares can be redeemed")
    ctx.check(E.le(n, s0[2]), "no more shares than the sender holds are redeemed")
    ctx.check(E.cand(E.ge(pa, ma), E.ge(pb, mb)), "at least the minimums are paid")
    ctx.check(E.cand(E.ge(pa, 0), E.ge(pb, 0)), "payouts are not negative")
    ctx.check(E.cand(E.eq(E.sub(s1[0], s0[0]), pa), E.eq(E.sub(s1[1], s0[1]), pb)), "the holder receives what is returned")
    ctx.check(E.cand(E.eq(E.sub(p.ba, ba), pa), E.eq(E.sub(p.bb, bb), pb)), "the pool pays exactly that")
    ctx.check(E.cand(E.eq(E.sub(p.ra, ra), pa), E.eq(E.sub(p.rb, rb), pb)), "recorded reserves fall by exactly the payout")
    ctx.check(E.eq(E.sub(p.total, tot), n), "total shares fall by exactly the redeemed amount")
    ctx.check(E.eq(supply_change(p.ts), E.neg(n)), "exactly the redeemed shares are burned")
    ctx.check(E.eq(E.sub(s0[2], s1[2]), n), "the holder gives up exactly the redeemed shares")
    ctx.check(E.eq(bs, p.bs), "shares locked in the pool stay")
    for x, y in zip(p.balances(p.other), o0):
        ctx.check(E.eq(x, y), "nobody else's balance moves")
    if not ctx.branch(E.eq(p.sender, p.recipient)):
        for x, y in zip(p.balances(p.recipient), r0):
            ctx.check(E.eq(x, y), "the fee recipient's balance does not move")
    # pro rata
    ctx.check(E.le(E.mul(pa, p.total), E.mul(p.ra, n)), "the payout of A is at most the pro-rata part")
    ctx.check(E.le(E.mul(pb, p.total), E.mul(p.rb, n)), "the payout of B is at most the pro-rata part")
    ctx.check(E.cand(E.ge(E.mul(ra, p.total), E.mul(p.ra, tot)), E.ge(E.mul(rb, p.total), E.mul(p.rb, tot))),
              "the value per remaining share does not fall")
    # and not less than the pro-rata part truncated: one unit plus the 18-decimals truncation of the ratio
    U = 10 ** 18
    for pay, res in ((pa, p.ra), (pb, p.rb)):
        lo = E.sub(E.scale(E.mul(res, n), U), E.mul(res, p.total))      # (res*n/total - res/1e18) * total*1e18
        ctx.check(E.gt(E.add(E.scale(E.mul(pay, p.total), U), E.scale(p.total, U)), lo),
                  "the payout is the pro-rata part up to the stated rounding")
    ctx.check(E.cand(E.ge(ra, 0), E.ge(rb, 0), E.ge(tot, 0)), "reserves and total shares stay non-negative")
    ctx.check(ctx.w.same(p.cfg(), cfg0), "the configuration is unchanged")


def nobody(ctx, kind, mayfail=0):
    """an empty pool redeems nothing"""
    p = Pool(ctx, kind, empty=True)
    ctx.call(POOL, "withdraw_liquidity", addr(p.sender), i128(ctx.i128("shares")), i128(ctx.i128("min_a")),
             i128(ctx.i128("min_b")), VOID)
    ctx.check(False, "nothing can be redeemed from a pool without shares")


def scenarios(tier):
    return {"xyk": (withdraw, {"kind": "pool"}), "stable": (withdraw, {"kind": "pool_stable"}),
            "xyk_empty": (nobody, {"kind": "pool", "mayfail": 1}),
            "stable_empty": (nobody, {"kind": "pool_stable", "mayfail": 1})}
