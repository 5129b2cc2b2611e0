from .stk import *

CONTRACTS = ["stake"]
LEVEL = "model_checking"
BOUNDS = ("one call in an arbitrary state; the sender has 0 to 6 recorded stakes (thorough: 9) of symbolic amounts and times, "
          "a third party has its own record; amounts up to 10^18 units")
OUTSIDE = "more stakes per account than the bound; tokens that do not follow SEP-41"


def common(ctx, s, o0, what):
    ctx.check(sameinfo(ctx, s.get_info(s.other), s.otherinfo), "nobody else's stakes are touched by %s" % what)
    for t, v in zip((s.lp, s.rt[R0]), o0):
        ctx.check(E.eq(t.balance(s.other), v), "nobody else's tokens move in %s" % what)


def bond(ctx, nst):
    s = Stk(ctx, nst)
    n = ctx.i128("tokens")
    ctx.assume(E.le(n, MAX))
    o0 = [s.lp.balance(s.other), s.rt[R0].balance(s.other)]
    b0 = s.lp.balance(s.sender)
    ctx.call(STK, "bond", addr(s.sender), i128(n))
    ctx.check(ctx.authed(STK, s.sender), "bonding is authorized by the staker")
    ctx.check(E.ge(n, s.minbond), "bonds below the minimum are rejected")
    ctx.check(E.eq(E.sub(b0, s.lp.balance(s.sender)), n), "exactly the bonded amount is taken from the staker")
    ctx.check(E.eq(E.sub(s.lp.balance(STK), s.held), n), "exactly the bonded amount arrives")
    ctx.check(E.eq(E.sub(s.total_now(), s.total), n), "the total staked grows by the bonded amount")
    v = s.get_info(s.sender)
    new, old = stakes_of(v), s.stakes or []
    ctx.check(len(new) == len(old) + 1, "exactly one stake is added")
    for (a, t), (a0, t0) in zip(new, old):
        ctx.check(E.cand(E.eq(a, a0), E.eq(t, t0)), "earlier stakes are kept")
    ctx.check(E.cand(E.eq(new[-1][0], n), E.eq(new[-1][1], ctx.w.now)), "the new stake has the bonded amount and the current time")
    ctx.check(E.eq(fnum(v, "total_stake"), E.add(s.mytotal, n)), "the staker's total grows by the bonded amount")
    ctx.check(E.eq(fnum(v, "last_reward_time"), s.last), "the claim time is kept")
    common(ctx, s, o0, "bond")
    q = ctx.must_succeed(STK, "query_staked", addr(s.sender))
    ctx.check(ctx.w.same(field(q, "stakes"), field(v, "stakes")), "the query reports the stakes")
    ctx.check(E.eq(fnum(q, "total_stake"), fnum(v, "total_stake")), "the query reports the staker's total")
    ctx.check(E.eq(ctx.must_succeed(STK, "query_total_staked")[1], s.total_now()), "the query reports the total staked")


def without(new, old, i):
    rest = old[:i] + old[i + 1:]
    return E.cand(*[E.cand(E.eq(a, a0), E.eq(t, t0)) for (a, t), (a0, t0) in zip(new, rest)])


def unbond(ctx, nst, mayfail=0):
    s = Stk(ctx, nst)
    n, ts = ctx.i128("amount"), ctx.u64("time")
    o0 = [s.lp.balance(s.other), s.rt[R0].balance(s.other)]
    b0 = s.lp.balance(s.sender)
    ctx.call(STK, "unbond", addr(s.sender), i128(n), u64(ts))
    ctx.check(ctx.authed(STK, s.sender), "unbonding is authorized by the staker")
    old = s.stakes or []
    v = s.get_info(s.sender)
    new = stakes_of(v)
    hit = [E.cand(E.eq(a, n), E.eq(t, ts)) for a, t in old]
    ctx.check(E.cor(*hit) if hit else False, "only a recorded stake with that amount and time is unbonded")
    ctx.check(len(new) == len(old) - 1, "exactly one stake is removed")
    ctx.check(E.cor(*[E.cand(h, without(new, old, i)) for i, h in enumerate(hit)]), "exactly the matching stake is removed")
    ctx.check(E.eq(E.sub(s.lp.balance(s.sender), b0), n), "the staker is paid exactly the stake")
    ctx.check(E.eq(E.sub(s.held, s.lp.balance(STK)), n), "the contract pays exactly the stake")
    ctx.check(E.eq(E.sub(s.total, s.total_now()), n), "the total staked falls by the stake")
    ctx.check(E.eq(fnum(v, "total_stake"), E.sub(s.mytotal, n)), "the staker's total falls by the stake")
    ctx.check(E.eq(fnum(v, "last_reward_time"), s.last), "the claim time is kept")
    common(ctx, s, o0, "unbond")


def redeem(ctx, nst):
    """any recorded stake can be taken out"""
    s = Stk(ctx, nst)
    j = ctx.choice("which", nst)
    a, t = s.stakes[j]
    ctx.must_succeed(STK, "unbond", addr(s.sender), i128(a), u64(t))


def elsewhere(ctx, fn):
    """no other call touches stakes or principal"""
    s = Stk(ctx, 1, tokens=(R0,), nd=1)
    who = ctx.addr("caller")
    o0 = [s.lp.balance(s.other), s.rt[R0].balance(s.other)]
    if fn == "withdraw_rewards":
        ctx.call(STK, fn, addr(s.sender))
    elif fn == "distribute_rewards":
        ctx.assume(E.cand(E.ne(who, s.other), E.ne(who, STK)))
        ctx.call(STK, fn, addr(who), i128(ctx.i128("amount", hi=MAX)), addr(R0))
    elif fn == "create_distribution_flow":
        ctx.call(STK, fn, addr(who), addr(R1))
    elif fn == "update":
        ctx.call(STK, fn, ctx.hash("stake"))
    v = s.get_info(s.sender)
    ctx.check(ctx.w.same(field(v, "stakes"), field(s.mine, "stakes")), "%s changes no stakes" % fn)
    ctx.check(E.eq(fnum(v, "total_stake"), s.mytotal), "%s changes no staked total of an account" % fn)
    ctx.check(E.eq(s.total_now(), s.total), "%s changes no total" % fn)
    ctx.check(E.eq(s.lp.balance(STK), s.held), "%s moves no principal" % fn)
    common(ctx, s, o0, fn)


def scenarios(tier):
    out = {"bond_new": (bond, {"nst": None}), "unbond_new": (unbond, {"nst": None, "mayfail": 1}),
           "unbond0": (unbond, {"nst": 0, "mayfail": 1})}
    top = 6 if tier == "quick" else 9
    for n in range(0, top + 1):
        out["bond%d" % n] = (bond, {"nst": n})
        if n:
            out["unbond%d" % n] = (unbond, {"nst": n})
            out["redeem%d" % n] = (redeem, {"nst": n})
    for fn in ("withdraw_rewards", "distribute_rewards", "create_distribution_flow", "update"):
        out[fn] = (elsewhere, {"fn": fn})
    return out
