from .stk import *

CONTRACTS = ["stake"]
LEVEL = "model_checking"
BOUNDS = ("arbitrary state: 0 to 3 stakes of the account and 0 to 3 recorded distributions, at most four together, one or two reward "
          "tokens, all amounts up to 10^18 units, symbolic times")
OUTSIDE = "amounts above 10^18 units, more stakes or distributions than the bound"
DAY = 86400
ONE = 10 ** 18


def earned(s, k):
    """the documented reward: the staked share of every unclaimed distribution, growing with the age of the stake to the
    full share at 60 days"""
    r = P(0)
    for i, d in enumerate(s.days):
        t = s.totals[i]
        for a, ts in s.stakes or []:
            sh = E.fdiv(E.mul(a, s.rew[k][i]), E.ite(E.gt(t, 0), t, 1))
            days = E.fdiv(E.sub(d, ts), DAY)
            mult = E.fdiv(E.scale(days, ONE), 60)
            part = E.ite(E.ge(days, 60), sh, E.fdiv(E.mul(sh, mult), ONE))
            r = E.add(r, E.ite(E.cand(E.le(ts, d), E.lt(s.last, d), E.gt(t, 0)), part, 0))
    return r


def claims(ctx, nst, nd, tokens=(R0,)):
    """with the rewards present, a claim never traps"""
    s = Stk(ctx, nst, nd=nd, tokens=tokens)
    s.consistent()
    v = ctx.must_succeed(STK, "query_withdrawable_rewards", addr(s.sender))
    for k, r in zip(tokens, field(v, "rewards")[1]):
        ctx.assume(E.le(fnum(r, "reward_amount"), s.rt[k].balance(STK)))
    ctx.must_succeed(STK, "withdraw_rewards", addr(s.sender))


def old(ctx, nst, nd):
    """a stake of 60 days or more earns its full share, an older claim costs nothing"""
    s = Stk(ctx, nst, nd=nd)
    s.consistent()
    for i, d in enumerate(s.days):
        for j, (a, ts) in enumerate(s.stakes):
            ctx.assume(E.cor(E.ge(E.sub(d, ts), 60 * DAY), E.le(d, ts)))
    v = ctx.must_succeed(STK, "query_withdrawable_rewards", addr(s.sender))
    want = P(0)
    for i in range(nd):
        for j, (a, ts) in enumerate(s.stakes):
            t = s.totals[i]
            # (decided case by case: the code has decided most of it already)
            if ctx.branch(E.cand(s.eligible(i, j), E.gt(t, 0))):
                want = E.add(want, E.fdiv(E.mul(a, s.rew[R0][i]), t))
    ctx.check(E.eq(fnum(field(v, "rewards")[1][0], "reward_amount"), want), "a stake of 60 days or more earns its full share of every distribution")


def young(ctx):
    s = Stk(ctx, 1, nd=1)
    s.consistent()
    v = ctx.must_succeed(STK, "query_withdrawable_rewards", addr(s.sender))
    ctx.check(E.eq(fnum(field(v, "rewards")[1][0], "reward_amount"), earned(s, R0)), "the reward is the share weighted with the age of the stake")


def recorded(ctx, nd, tokens=(R0,)):
    s = Stk(ctx, 1, nd=nd, tokens=tokens)
    n = ctx.i128("amount", 0, MAX)
    who = s.owner
    k = tokens[-1]
    ctx.assume(E.le(n, s.rt[k].balance(who)))
    ctx.must_succeed(STK, "distribute_rewards", addr(who), i128(n), addr(k))
    now = ctx.w.now
    tot = P(0)
    was = P(0)
    for d, x in zip(s.days, s.rew[k]):
        was = E.add(was, E.ite(E.eq(d, now), x, 0))
    for a, b in ctx.get(STK, rkey(k), PERS)[1]:
        tot = E.add(tot, E.ite(E.eq(a[1], now), b[1], 0))
    ctx.check(E.eq(tot, E.add(was, n)), "an amount distributed is recorded in full, on top of what was distributed at that time")
    ents = ctx.get(STK, rkey(k), PERS)[1]
    for d, x in zip(s.days, s.rew[k]):
        ctx.check(E.cor(E.eq(d, now), *[E.cand(E.eq(a[1], d), E.eq(b[1], x)) for a, b in ents]), "earlier distributions are kept")
    hist = ctx.get(STK, TKEY, PERS)[1]
    ctx.check(E.cor(*[E.eq(a[1], now) for a, b in hist]), "the total staked is recorded for the distribution")
    for d, x in zip(s.days, s.totals):
        ctx.check(E.cor(E.eq(d, now), *[E.cand(E.eq(a[1], d), E.eq(b[1], x)) for a, b in hist]), "earlier totals are kept")


def scenarios(tier):
    out = {"claims_new": (claims, {"nst": None, "nd": 1}), "claims_tokens": (claims, {"nst": 1, "nd": 1, "tokens": (R0, R1)}),
           "young": (young, {}), "recorded_tokens": (recorded, {"nd": 1, "tokens": (R0, R1)})}
    top = 2 if tier == "quick" else 3
    for a in range(0, top + 1):
        for b in range(0, top + 1):
            if a + b > top + 1:
                continue
            out["claims_%d_%d" % (a, b)] = (claims, {"nst": a, "nd": b})
            if a and b:
                out["old_%d_%d" % (a, b)] = (old, {"nst": a, "nd": b})
    for a, b in ((1, 3), (3, 1), (2, 2)):
        out["claims_%d_%d" % (a, b)] = (claims, {"nst": a, "nd": b})
        out["old_%d_%d" % (a, b)] = (old, {"nst": a, "nd": b})
    for nd in range(0, top + 3):
        out["recorded%d" % nd] = (recorded, {"nd": nd})
    return out
