from .pools import *

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("one withdrawal from either pool type in an arbitrary backed state with reserves and total shares up to 10^20 units, "
          "alone and directly after one arbitrary successful administrator update (configuration, administrator)")
OUTSIDE = ("amounts above 10^20 units (the 18-decimals ratio needs amount*10^18 to fit 127 bits); tokens that refuse "
           "transfers; archived storage; code replaced by the administrator")
MAX = 10 ** 20


def leave(ctx, p, n, dl=VOID):
    """the call has to succeed for any amount the holder owns that is worth at least one unit of each token"""
    s = p.balances(p.sender)
    ctx.assume(E.cand(E.ge(n, 1), E.le(n, s[2])))
    # floor(reserve * floor(n*1e18/total) / 1e18) >= 1
    U = 10 ** 18
    ctx.assume(E.ge(p.total, 1))
    q = E.fdiv(E.scale(n, U), p.total)
    ctx.assume(E.cand(E.ge(E.mul(p.ra, q), U), E.ge(E.mul(p.rb, q), U)))
    ret = ctx.must_succeed(POOL, "withdraw_liquidity", addr(p.sender), i128(n), i128(1), i128(1), dl)
    ctx.check(E.cand(E.ge(ret[1][0][1], 1), E.ge(ret[1][1][1], 1)), "the exit pays both tokens")
    ctx.check(E.eq(E.sub(s[2], p.balances(p.sender)[2]), n), "the shares are redeemed")


def exit_any(ctx, kind):
    p = Pool(ctx, kind, maxamt=MAX)
    dl = VOID
    if ctx.flag("give_deadline"):
        d = ctx.u64("deadline")
        ctx.assume(E.ge(d, ctx.w.now))
        dl = u64(d)
    leave(ctx, p, ctx.i128("shares"), dl)


def exit_after_update(ctx, kind):
    """whatever the administrator manages to set, the exit stays open"""
    p = Pool(ctx, kind, maxamt=MAX)
    o = lambda name, v: ctx.opt(name, v)
    na = ctx.addr("new_admin")
    nr = ctx.addr("new_recipient")
    for a in (na, nr):
        for k in CONTRACT_ADDRS:
            ctx.assume(E.ne(a, k))
    args = [o("new_admin", addr(na)), o("fee", i64(ctx.i64("new_fee"))), o("fee_recipient", addr(nr)),
            o("slip", i64(ctx.i64("new_slip"))), o("spread", i64(ctx.i64("new_spread")))]
    if kind == "pool":
        args += [o("ref", i64(ctx.i64("new_ref")))]
        ctx.call(POOL, "update_config", *args)
    else:
        ctx.call(POOL, "update_config", addr(p.admin), *args)
    ctx.w.now = ctx.u64("later")
    leave(ctx, p, ctx.i128("shares"))


def scenarios(tier):
    return {"xyk": (exit_any, {"kind": "pool"}), "stable": (exit_any, {"kind": "pool_stable"}),
            "xyk_update": (exit_after_update, {"kind": "pool"}),
            "stable_update": (exit_after_update, {"kind": "pool_stable"})}
