from .tok import *

CONTRACTS = ["token"]
LEVEL = "model_checking"
BOUNDS = ("one call of each exported function from an arbitrary state and with arbitrary arguments, observed at an "
          "arbitrary holder, spender and the administrator; all addresses symbolic and possibly equal")
OUTSIDE = "how the host verifies signatures: a demanded authorization is taken to be checked by the host"


def op(ctx, fn):
    t = Tok(ctx)
    h, sp = ctx.addr("holder"), ctx.addr("any_spender")
    x, y, z = ctx.addr("x"), ctx.addr("y"), ctx.addr("z")
    amt = ctx.i128("amount")
    b0, a0, u0 = t.bal(h), t.allow(h, sp), t.usable(h, sp)
    bx = t.usable(y, x) if fn in ("transfer_from", "burn_from") else None
    args = {"transfer": lambda: (addr(x), addr(y), i128(amt)),
            "transfer_from": lambda: (addr(x), addr(y), addr(z), i128(amt)),
            "burn": lambda: (addr(x), i128(amt)),
            "burn_from": lambda: (addr(x), addr(y), i128(amt)),
            "mint": lambda: (addr(x), i128(amt)),
            "approve": lambda: (addr(x), addr(y), i128(amt), u32(ctx.u32("expiration"))),
            "set_admin": lambda: (addr(x),),
            "balance": lambda: (addr(x),),
            "allowance": lambda: (addr(x), addr(y)),
            "decimals": lambda: (), "name": lambda: (), "symbol": lambda: ()}[fn]()
    ctx.call(T, fn, *args)
    b1, a1, u1 = t.bal(h), t.allow(h, sp), t.usable(h, sp)
    own = ctx.authed(T, h)
    fell = E.lt(b1, b0)
    if bx is not None:
        # x spends on behalf of y
        dele = E.cand(ctx.authed(T, x), E.eq(y, h), E.ge(bx, E.sub(b0, b1)))
        ctx.check(imp(fell, E.cor(own, dele)),
                  "a balance falls only with the holder's authorization or within an unexpired allowance")
        ctx.check(E.cor(E.le(amt, 0), E.ge(bx, amt)), "an expired or too small allowance cannot be spent")
        ctx.check(ctx.authed(T, x), "a spender authorizes each spend")
    else:
        ctx.check(imp(fell, own),
                  "a balance falls only with the holder's authorization")
    ctx.check(E.cor(E.le(u1, u0), own), "an allowance grows only with the holder's authorization")
    ctx.check(E.cor(E.eq(a1[1], a0[1]), own), "an allowance's expiry changes only with the holder's authorization")
    ctx.check(E.cor(E.eq(t.getadmin(), t.admin), ctx.authed(T, t.admin)), "only the administrator hands over the role")
    if fn == "mint":
        ctx.check(ctx.authed(T, t.admin), "minting needs the current administrator's authorization")
    if fn == "set_admin":
        ctx.check(ctx.authed(T, t.admin), "changing the administrator needs the current one's authorization")
    if fn == "approve":
        ctx.check(ctx.authed(T, x), "approving needs the owner's authorization")
        ctx.check(E.cor(E.le(amt, 0), E.eq(t.usable(x, y), amt)), "an approval is never already expired")
    if fn in ("balance", "allowance", "decimals", "name", "symbol"):
        ctx.check(E.cand(E.eq(b0, b1), E.eq(a0[0], a1[0])), "a query changes nothing")


def expired(ctx):
    """whatever was approved: after its expiry nothing can be spent and the allowance reads zero"""
    t = Tok(ctx)
    s, f, to = ctx.addr("spender"), ctx.addr("owner"), ctx.addr("to")
    amt = ctx.i128("amount", 1)
    ap = ctx.i128("approved", 0)
    exp = ctx.u32("expiration", 0, (1 << 31) - 1)
    ctx.call(T, "approve", addr(f), addr(s), i128(ap), u32(exp))
    d = ctx.u32("ledgers_later", 0, (1 << 31) - 1)
    ctx.w.seq = E.add(ctx.w.seq, d)
    ctx.assume(E.le(ctx.w.seq, (1 << 31) - 1))
    dead = E.lt(exp, ctx.w.seq)
    r = ctx.call(T, "allowance", addr(f), addr(s))[1]
    ctx.check(imp(dead, E.eq(r, 0)), "an expired allowance reads as zero")
    if ctx.flag("burn"):
        ctx.call(T, "burn_from", addr(s), addr(f), i128(amt))
    else:
        ctx.call(T, "transfer_from", addr(s), addr(f), addr(to), i128(amt))
    ctx.check(E.ge(exp, ctx.w.seq), "an expired allowance is never spent")
    ctx.check(E.le(amt, ap), "no more than approved is spent")


def scenarios(tier):
    fs = ["transfer", "transfer_from", "burn", "burn_from", "mint", "approve", "set_admin", "balance", "allowance",
          "decimals", "name", "symbol"]
    d = {f: (op, {"fn": f}) for f in fs}
    d["expired_allowance"] = (expired, {})
    return d
