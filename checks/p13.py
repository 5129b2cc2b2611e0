from .stk import *

CONTRACTS = ["stake"]
LEVEL = "model_checking"
BOUNDS = ("one call in an arbitrary state by an arbitrary caller; the account concerned has 1 to 2 (bonding: 4) recorded stakes, up to two "
          "distributions recorded, one or two reward tokens; symbolic amounts, times, addresses")
OUTSIDE = "more stakes, distributions or reward tokens than the bound"


def others(ctx, s, what):
    ctx.check(sameinfo(ctx, s.get_info(s.other), s.otherinfo), "nobody else's stakes or claims change in %s" % what)
    ctx.check(ctx.w.same(ctx.get(STK, sym("CONFIG"), PERS), s.config), "%s changes no configuration" % what)
    ctx.check(E.eq(ctx.get(STK, key("admin"), PERS)[1], s.admin), "%s keeps the administrator" % what)


def history(ctx, s, what, tokens=(R0, R1)):
    for k in tokens:
        if k in s.rew:
            want = tuple((u64(d), ("u128", r)) for d, r in zip(s.days, s.rew[k]))
            ctx.check(ctx.w.same(ctx.get(STK, rkey(k), PERS), ("map", want)), "%s changes no recorded rewards" % what)


def own(ctx, fn, nst=1, nd=0):
    """calls on an account need that account's authorization"""
    s = Stk(ctx, nst, nd=nd)
    o0 = [s.rt[R0].balance(s.other), s.lp.balance(s.other)]
    if fn == "bond":
        ctx.call(STK, fn, addr(s.sender), i128(ctx.i128("tokens", hi=MAX)))
    elif fn == "unbond":
        ctx.call(STK, fn, addr(s.sender), i128(ctx.i128("amount")), u64(ctx.u64("time")))
    else:
        s.consistent()
        ctx.call(STK, fn, addr(s.sender))
    ctx.check(ctx.authed(STK, s.sender), "%s is authorized by the account it acts on" % fn)
    others(ctx, s, fn)
    history(ctx, s, fn)
    for t, v in zip((s.rt[R0], s.lp), o0):
        ctx.check(E.eq(t.balance(s.other), v), "nobody else's tokens move in %s" % fn)


def flow(ctx, tokens):
    s = Stk(ctx, 1, tokens=tokens, nd=1)
    who = ctx.addr("caller")
    t = ctx.choice("asset", 2)
    asset = (R0, R1)[t]
    ctx.call(STK, "create_distribution_flow", addr(who), addr(asset))
    ctx.check(ctx.authed(STK, who), "creating a reward flow is authorized by the caller")
    ctx.check(E.cor(E.eq(who, s.manager), E.eq(who, s.owner)), "only the manager or the owner creates a reward flow")
    ctx.check(asset not in tokens, "an existing reward flow is never created again")
    d = ctx.get(STK, key("dist"), PERS)
    ctx.check(ctx.w.same(d, vec(*[addr(k) for k in tokens + (asset,)])), "the flow is added to the existing ones")
    ctx.check(ctx.w.same(ctx.get(STK, rkey(asset), PERS), ("map", ())), "a new flow starts without rewards")
    others(ctx, s, "create_distribution_flow")
    history(ctx, s, "create_distribution_flow")
    ctx.check(sameinfo(ctx, s.get_info(s.sender), s.mine), "creating a flow changes no account")


def fund(ctx):
    s = Stk(ctx, 1, tokens=(R0,), nd=1)
    who = ctx.addr("caller")
    for k in SELF:
        ctx.assume(E.ne(who, k))
    n = ctx.i128("amount")
    asset = (R0, R1)[ctx.choice("asset", 2)]
    tok = s.rt[asset]
    b0, c0, o0 = tok.balance(who), tok.balance(STK), s.rt[R0].balance(s.other)
    ctx.call(STK, "distribute_rewards", addr(who), i128(n), addr(asset))
    ctx.check(ctx.authed(STK, who), "funding is authorized by the funder")
    ctx.check(E.cor(E.eq(who, s.manager), E.eq(who, s.owner)), "only the manager or the owner funds rewards")
    ctx.check(asset == R0, "only created flows are funded")
    ctx.check(E.ge(n, 0), "no negative amount is distributed")
    ctx.check(E.eq(E.sub(b0, tok.balance(who)), n), "exactly the amount leaves the funder")
    ctx.check(E.eq(E.sub(tok.balance(STK), c0), n), "exactly the amount arrives")
    ctx.check(E.cor(E.eq(who, s.other), E.eq(s.rt[R0].balance(s.other), o0)), "nobody else's tokens move in distribute_rewards")
    others(ctx, s, "distribute_rewards")
    ctx.check(sameinfo(ctx, s.get_info(s.sender), s.mine), "funding changes no account")


def code(ctx):
    s = Stk(ctx, 1, nd=1)
    h = ctx.hash("stake")
    ctx.call(STK, "update", h)
    ctx.check(ctx.authed(STK, s.admin), "code replacement is authorized by the administrator")
    others(ctx, s, "update")
    history(ctx, s, "update")
    ctx.check(sameinfo(ctx, s.get_info(s.sender), s.mine), "code replacement changes no account")


def again(ctx):
    s = Stk(ctx, 1, nd=1)
    a = [addr(ctx.addr("p%d" % i)) for i in range(4)]
    ctx.must_fail("an initialised contract is never initialised again", STK, "initialize", a[0], a[1], i128(ctx.i128("mb")), i128(ctx.i128("mr")), a[2], a[3], u32(ctx.u32("mc")))


def scenarios(tier):
    big = tier != "quick"
    out = {"initialize": (again, {}), "update": (code, {}), "distribute_rewards": (fund, {}),
           "flow_first": (flow, {"tokens": ()}), "flow_more": (flow, {"tokens": (R0,)}),
           "bond": (own, {"fn": "bond", "nd": 1}), "unbond": (own, {"fn": "unbond", "nst": 2, "nd": 1}),
           "withdraw0": (own, {"fn": "withdraw_rewards"}), "withdraw1": (own, {"fn": "withdraw_rewards", "nd": 1})}
    out["withdraw2"] = (own, {"fn": "withdraw_rewards", "nst": 2, "nd": 2})
    out["bond4"] = (own, {"fn": "bond", "nst": 4, "nd": 1})
    out["unbond4"] = (own, {"fn": "unbond", "nst": 4, "nd": 1})
    if big:
        out["withdraw3"] = (own, {"fn": "withdraw_rewards", "nst": 3, "nd": 2})
    return out
