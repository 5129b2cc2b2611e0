from .pools import *

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = "one swap from an arbitrary backed state (inductive step)"
OUTSIDE = "tokens that do not follow SEP-41"


def swap(ctx, kind, abstract=False, curve=None):
    p = Pool(ctx, kind, curve=curve)
    if abstract:
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    offer = ctx.addr("offer_asset")
    amount = ctx.i128("offer_amount") if not curve else P(54321)
    ask_min = ctx.opt("ask_min", i128(ctx.i128("ask_min")))
    o0 = p.watch()
    s0 = p.balances(p.sender)
    r0 = p.balances(p.recipient)
    ret = p.swap(offer, amount, ask_min)[1]
    ra, rb, tot = p.post()
    ctx.check(E.eq(tot, p.total), "total shares untouched by a swap")
    ctx.check(E.eq(E.sub(p.ta.balance(POOL), p.ba), E.sub(ra, p.ra)), "reserve A moves with the pool's balance of A")
    ctx.check(E.eq(E.sub(p.tb.balance(POOL), p.bb), E.sub(rb, p.rb)), "reserve B moves with the pool's balance of B")
    ctx.check(E.cand(E.ge(ra, 0), E.ge(rb, 0)), "reserves stay non-negative")
    for x, y in zip(p.balances(p.other), o0):
        ctx.check(E.eq(x, y), "nobody else's balance moves")
    sell_a = ctx.branch(E.eq(offer, A))
    d_in = E.sub(ra, p.ra) if sell_a else E.sub(rb, p.rb)
    d_out = E.sub(p.rb, rb) if sell_a else E.sub(p.ra, ra)
    ctx.check(E.eq(d_in, amount), "the offered reserve grows by exactly the offered amount")
    s1, r1 = p.balances(p.sender), p.balances(p.recipient)
    i, o = (0, 1) if sell_a else (1, 0)
    if ctx.branch(E.eq(p.sender, p.recipient)):
        ctx.check(E.eq(E.sub(s0[i], s1[i]), amount), "the trader pays exactly the offer")
        ctx.check(E.eq(E.sub(s1[o], s0[o]), d_out), "trader (also fee recipient) receives what leaves the pool")
        ctx.check(E.ge(d_out, ret), "the payout is part of what leaves the pool")
    else:
        ctx.check(E.eq(E.sub(s0[i], s1[i]), amount), "the trader pays exactly the offer")
        ctx.check(E.eq(E.sub(s1[o], s0[o]), ret), "the trader receives exactly the returned amount")
        ctx.check(E.eq(E.sub(r1[o], r0[o]), E.sub(d_out, ret)), "the rest of what leaves the pool goes to the fee recipient")
        ctx.check(E.eq(r1[i], r0[i]), "the fee recipient is not charged")
    ctx.check(E.ge(ret, 0), "the payout is not negative")
    ctx.check(E.cand(E.eq(s0[2], s1[2]), E.eq(r0[2], r1[2])), "no shares move in a swap")


def scenarios(tier):
    return both(swap)
