from .pools import *

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("one swap on either pool type from an arbitrary state, with every combination of given and omitted limits, all "
          "values symbolic; the stable curve is an uninterpreted function (any curve), plus two concrete curves")
OUTSIDE = "tokens that do not follow SEP-41"


def swap(ctx, kind, abstract=False, curve=None):
    p = Pool(ctx, kind, curve=curve)
    ctx.path.abstract = abstract
    offer = ctx.addr("offer_asset")
    x = ctx.i128("offer_amount") if not curve else P(54321)
    v = {}

    def opt(name, mk, wrap):
        if ctx.flag("give_" + name):
            v[name] = mk(name)
            return wrap(v[name])
        return VOID
    ask_min = opt("ask_min", ctx.i128, i128)
    spread = opt("max_spread", ctx.i64, i64)
    deadline = opt("deadline", ctx.u64, u64)
    maxfee = opt("max_fee", ctx.i64, i64)
    ret = p.swap(offer, x, ask_min, spread, deadline, maxfee)[1]
    ra, rb, tot = p.post()
    ctx.check(ctx.authed(POOL, p.sender), "a swap is authorized by the sender")
    ctx.check(E.cor(E.eq(offer, A), E.eq(offer, B)), "only the pool's two tokens are traded")
    ctx.check(E.ge(x, 1), "a non-positive offer is rejected")
    sell_a = ctx.branch(E.eq(offer, A))
    gross = E.sub(p.rb, rb) if sell_a else E.sub(p.ra, ra)
    o, a = (p.ra, p.rb) if sell_a else (p.rb, p.ra)
    if "deadline" in v:
        ctx.check(E.le(ctx.w.now, v["deadline"]), "no swap after the deadline")
    if "ask_min" in v:
        ctx.check(E.ge(ret, v["ask_min"]), "at least the requested minimum is paid, after fees")
    if "max_fee" in v:
        ctx.check(E.ge(v["max_fee"], p.fee), "a fee above the caller's maximum is refused")
    eff = p.maxspread
    if "max_spread" in v:
        eff = v["max_spread"]
        ctx.check(E.cand(E.ge(eff, 0), E.le(eff, p.maxspread)), "the caller's tolerance is within 0..the pool's maximum")
    # ratio rounded down to 18 decimals <= tolerance
    lim = E.mul(E.add(E.scale(eff, 10 ** 14), 1), gross)
    if kind == "pool":
        sp = E.sub(E.fdiv(E.mul(x, a), o), gross)
    else:
        sp = E.sub(x, gross)
    ctx.check(E.cor(E.le(sp, 0), E.lt(E.scale(sp, 10 ** 18), lim)), "the spread is within the tolerance in force")


def scenarios(tier):
    return both(swap)
