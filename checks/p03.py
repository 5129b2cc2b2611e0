from .pools import *

CONTRACTS = ["pool"]
LEVEL = "model_checking"
BOUNDS = ("one XYK swap (executed and quoted) from an arbitrary pool state: reserves, offered amount, fee and limits "
          "range over all their machine values")
OUTSIDE = "the stable pool's pricing (P27)"


def fair(ctx, o, a, x, gross, comm, ret, fee):
    """o, a: offered and asked reserve; x: offer"""
    s = E.add(o, x)
    ctx.check(E.ge(gross, 0), "the output is not negative")
    ctx.check(E.le(E.mul(gross, s), E.add(E.mul(a, x), s)), "the output is at most one unit above constant product")
    ctx.check(E.le(E.mul(gross, o), E.mul(x, a)), "the output is never above the spot value of the offer")
    ctx.check(E.le(gross, a), "the output never exceeds the asked reserve")
    ctx.check(E.eq(comm, E.fdiv(E.mul(gross, fee), P(10000))), "the commission is the configured fraction, rounded down")
    ctx.check(E.cand(E.ge(comm, 0), E.le(comm, gross)), "the commission is within 0..output")
    ctx.check(E.eq(E.add(ret, comm), gross), "payout plus commission is the output")


def swap(ctx):
    p = Pool(ctx, "pool")
    offer = addr_of(ctx)
    x = ctx.i128("offer_amount")
    ret = p.swap(offer, x)[1]
    ra, rb, tot = p.post()
    o, a = (p.ra, p.rb) if offer == A else (p.rb, p.ra)
    gross = E.sub(p.rb, rb) if offer == A else E.sub(p.ra, ra)
    fair(ctx, o, a, x, gross, E.sub(gross, ret), ret, p.fee)


def addr_of(ctx):
    return A if ctx.choice("offer_token", 2) == 0 else B


def quote(ctx):
    p = Pool(ctx, "pool")
    offer = addr_of(ctx)
    x = ctx.i128("offer_amount", 1)
    r = ctx.call(POOL, "simulate_swap", addr(offer), i128(x))
    o, a = (p.ra, p.rb) if offer == A else (p.rb, p.ra)
    ret, comm, spread, tot = (fnum(r, k) for k in ("ask_amount", "commission_amount", "spread_amount", "total_return"))
    gross = E.add(ret, comm)
    fair(ctx, o, a, x, gross, comm, ret, p.fee)
    ctx.check(E.eq(E.add(gross, spread), E.fdiv(E.mul(x, a), o)), "output plus spread is the spot value, rounded down")
    ctx.check(E.ge(spread, 0), "the spread is not negative")


def scenarios(tier):
    return {"swap": (swap, {}), "quote": (quote, {})}
