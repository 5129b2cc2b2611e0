from .stk import *

CONTRACTS = ["stake"]
LEVEL = "model_checking"
BOUNDS = ("arbitrary state: 1 to 3 stakes of the account and up to 3 recorded distributions, at most four together (thorough: five), one or two reward "
          "tokens, all amounts up to 10^18 units, symbolic times; sequences claim-claim and distribute-distribute")
OUTSIDE = "amounts above 10^18 units, more stakes or distributions than the bound"
DAY = 86400


def bound(s, k):
    r = P(0)
    for i in range(len(s.days)):
        for j in range(len(s.stakes or [])):
            # (decided case by case: the code has decided most of it already)
            if s.ctx.branch(E.cand(s.eligible(i, j), E.gt(s.totals[i], 0))):
                r = E.add(r, E.fdiv(E.mul(s.stakes[j][0], s.rew[k][i]), s.totals[i]))
    return r


def pending(ctx, nst, nd, tokens=(R0,)):
    """what the query reports is at most the account's part of every unclaimed distribution"""
    s = Stk(ctx, nst, nd=nd, tokens=tokens)
    s.consistent()
    v = ctx.call(STK, "query_withdrawable_rewards", addr(s.sender))
    rs = field(v, "rewards")[1]
    ctx.check(len(rs) == len(tokens), "every reward token is reported once")
    for k, r in zip(tokens, rs):
        ctx.check(E.eq(field(r, "reward_address")[1], k), "rewards are reported for the right token")
        got = fnum(r, "reward_amount")
        ctx.check(E.ge(got, 0), "a pending reward is never negative")
        ctx.shrink(got)
        ctx.check(E.le(got, bound(s, k)), "a pending reward is at most the staked share of the unclaimed distributions")


def claim(ctx, nst, nd, tokens=(R0,)):
    s = Stk(ctx, nst, nd=nd, tokens=tokens)
    s.consistent()
    v = ctx.call(STK, "query_withdrawable_rewards", addr(s.sender))
    q = [fnum(r, "reward_amount") for r in field(v, "rewards")[1]]
    b0 = [s.rt[k].balance(s.sender) for k in tokens]
    c0 = [s.rt[k].balance(STK) for k in tokens]
    o0 = [s.rt[k].balance(s.other) for k in tokens]
    ctx.call(STK, "withdraw_rewards", addr(s.sender))
    for k, n, b, c, o in zip(tokens, q, b0, c0, o0):
        ctx.check(E.eq(E.sub(s.rt[k].balance(s.sender), b), n), "a withdrawal pays exactly what was pending")
        ctx.check(E.eq(E.sub(c, s.rt[k].balance(STK)), n), "the contract pays exactly what was pending")
        ctx.check(E.eq(s.rt[k].balance(s.other), o), "only the account is paid")
    i = s.get_info(s.sender)
    ctx.check(E.eq(fnum(i, "last_reward_time"), ctx.w.now), "the claim is recorded")
    old = s.mine if nst is not None else info([], P(0), P(0), P(0))
    ctx.check(ctx.w.same(field(i, "stakes"), field(old, "stakes")), "a withdrawal keeps the stakes")
    ctx.check(sameinfo(ctx, s.get_info(s.other), s.otherinfo), "a withdrawal touches no other account")
    for k in tokens:
        want = tuple((u64(d), ("u128", r)) for d, r in zip(s.days, s.rew[k]))
        ctx.check(ctx.w.same(ctx.get(STK, rkey(k), PERS), ("map", want)), "a withdrawal changes no recorded rewards")
    want = tuple((u64(d), ("u128", r)) for d, r in zip(s.days, s.totals))
    ctx.check(ctx.w.same(ctx.get(STK, TKEY, PERS), ("map", want)), "a withdrawal changes no recorded totals")
    # later, without new distributions, nothing more
    later = ctx.u64("later", 0, 1 << 62)
    ctx.w.now = E.add(ctx.w.now, later)
    v = ctx.call(STK, "query_withdrawable_rewards", addr(s.sender))
    for r in field(v, "rewards")[1]:
        ctx.check(E.eq(fnum(r, "reward_amount"), 0), "nothing is pending after a withdrawal")


def untouched(ctx, fn, nd):
    """bonding, unbonding and new flows never raise what is already pending"""
    s = Stk(ctx, 1, nd=nd)
    s.consistent()
    if fn == "bond":
        ctx.call(STK, "bond", addr(s.sender), i128(ctx.i128("tokens", hi=MAX)))
    elif fn == "unbond":
        ctx.call(STK, "unbond", addr(s.sender), i128(s.stakes[0][0]), u64(s.stakes[0][1]))
    else:
        ctx.call(STK, fn, addr(ctx.addr("caller")), addr(R1))
    v = ctx.call(STK, "query_withdrawable_rewards", addr(s.sender))
    got = fnum(field(v, "rewards")[1][0], "reward_amount")
    ctx.check(E.le(got, bound(s, R0)), "%s raises no pending reward" % fn)


def history(ctx, nd, tokens, which):
    """the totals recorded for a distribution never fall below what was staked before it: everybody together never gets more
    than was distributed"""
    s = Stk(ctx, 1, nd=nd, tokens=tokens)
    s.consistent()
    n = ctx.i128("amount", hi=MAX)
    who = ctx.addr("caller")
    for k in SELF:
        ctx.assume(E.ne(who, k))
    k = tokens[which]
    ctx.call(STK, "distribute_rewards", addr(who), i128(n), addr(k))
    h = ctx.get(STK, TKEY, PERS)
    ent = [(num(a), b[1]) if False else (a[1], b[1]) for a, b in h[1]]
    now = ctx.w.now
    seen = False
    for d, t in ent:
        isnow = E.eq(d, now)
        if ctx.branch(isnow):
            seen = True
            had = False
            for d0, t0 in zip(s.days, s.totals):
                if ctx.branch(E.eq(d0, now)):
                    had = True
                    ctx.check(E.ge(t, t0), "the total recorded for an earlier distribution of the same time never shrinks")
            if not had:
                ctx.check(E.eq(t, s.total), "a distribution records everything staked at its time")
        else:
            ctx.check(E.cor(*[E.cand(E.eq(d, d0), E.eq(t, t0)) for d0, t0 in zip(s.days, s.totals)]) if s.days else False,
                      "recorded totals of other times are kept")
    ctx.check(seen, "a distribution records the total staked")
    for k2 in tokens:
        r = ctx.get(STK, rkey(k2), PERS)[1]
        for a, b in r:
            if k2 == k and ctx.branch(E.eq(a[1], now)):
                ctx.check(E.le(b[1], E.add(n, sumat(s, k2, now))), "a distribution adds at most the amount that arrived")
            else:
                ctx.check(E.cor(*[E.cand(E.eq(a[1], d0), E.eq(b[1], r0)) for d0, r0 in zip(s.days, s.rew[k2])])
                          if s.days else False, "recorded rewards of other times and tokens are kept")


def sumat(s, k, now):
    r = P(0)
    for d, x in zip(s.days, s.rew[k]):
        r = E.add(r, E.ite(E.eq(d, now), x, 0))
    return r


def race(ctx, two=False):
    """two distributions at the same time, one account claiming and leaving in between: together at most what was distributed"""
    s = Stk(ctx, 1, nd=0, last=P(0), tokens=(R0, R1) if two else (R0,))
    a, ts = s.stakes[0]
    oi = s.otherinfo
    b = fnum(oi, "total_stake")
    tb = stakes_of(oi)[0][1]
    ctx.assume(E.eq(s.total, E.add(a, b)))
    ctx.assume(E.cand(E.gt(ctx.w.now, 60 * DAY), E.le(ts, E.sub(ctx.w.now, 60 * DAY)), E.le(tb, E.sub(ctx.w.now, 60 * DAY))))
    ctx.assume(E.lt(fnum(oi, "last_reward_time"), ctx.w.now))
    n1, n2 = ctx.i128("first", 0, MAX), ctx.i128("second", 0, MAX)
    for k in (s.sender, s.other):
        ctx.assume(E.ne(k, s.owner))
    x0, y0 = s.rt[R0].balance(s.sender), s.rt[R0].balance(s.other)
    ctx.call(STK, "distribute_rewards", addr(s.owner), i128(n1), addr(R0))
    ctx.call(STK, "withdraw_rewards", addr(s.sender))
    ctx.call(STK, "unbond", addr(s.sender), i128(a), u64(ts))
    ctx.call(STK, "distribute_rewards", addr(s.owner), i128(n2), addr(R1 if two else R0))
    ctx.call(STK, "withdraw_rewards", addr(s.other))
    got = E.add(E.sub(s.rt[R0].balance(s.sender), x0), E.sub(s.rt[R0].balance(s.other), y0))
    ctx.check(E.le(got, n1 if two else E.add(n1, n2)), "all accounts together take at most what was distributed")


def scenarios(tier):
    out = {"pending_new": (pending, {"nst": None, "nd": 1}), "claim_new": (claim, {"nst": None, "nd": 1}),
           "race": (race, {}), "race_tokens": (race, {"two": True})}
    top = 2 if tier == "quick" else 3
    for a in range(1, top + 1):
        for b in range(0, top + 1):
            if a + b > top + 1:
                continue
            out["pending_%d_%d" % (a, b)] = (pending, {"nst": a, "nd": b})
            out["claim_%d_%d" % (a, b)] = (claim, {"nst": a, "nd": b})
    for a, b in ((1, 3), (3, 1)) + (((4, 1), (1, 5), (2, 3)) if tier != "quick" else ()):
        out["pending_%d_%d" % (a, b)] = (pending, {"nst": a, "nd": b})
        out["claim_%d_%d" % (a, b)] = (claim, {"nst": a, "nd": b})
    out["claim_tokens"] = (claim, {"nst": 1, "nd": 1, "tokens": (R0, R1)})
    for fn in ("bond", "unbond", "create_distribution_flow"):
        out["after_" + fn] = (untouched, {"fn": fn, "nd": 1})
    for nd in range(0, top + 1):
        out["history%d" % nd] = (history, {"nd": nd, "tokens": (R0,), "which": 0})
    out["history_tokens"] = (history, {"nd": 1, "tokens": (R0, R1), "which": 1})
    return out
