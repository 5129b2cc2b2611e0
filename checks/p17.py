from .vst import *

CONTRACTS = ["vesting"]
LEVEL = "model_checking"
BOUNDS = ("claims in an arbitrary state with 1 to 2, 3, 5 and 9 schedules of the account and one of a third party; linear schedules and "
          "schedules of 1 to 3 steps (thorough: 5); amounts up to 10^20 units, times below 2^40; pairs of claims at any two times")
OUTSIDE = "schedules with more steps, amounts above 10^20 units"


def claim(ctx, kind, index=0, n=1):
    kinds = [kind if i == index else "sat" for i in range(n)]
    s = Vst(ctx, kinds)
    cv, bal, inf = s.mine[index]
    now = ctx.w.now
    locked = cv.at(now)
    u0, o0 = s.tok.balance(s.user), s.tok.balance(s.other)
    q = ctx.call(VEST, "query_available_to_claim", addr(s.user), u64(index))[1]
    ctx.call(VEST, "claim", addr(s.user), u64(index))
    ctx.check(ctx.authed(VEST, s.user), "a claim is authorized by the recipient")
    paid = E.sub(s.tok.balance(s.user), u0)
    ctx.check(E.eq(paid, E.sub(bal, locked)), "a claim pays exactly what the schedule has released and was not claimed")
    ctx.check(E.eq(paid, q), "a claim pays what the query reports")
    ctx.check(E.gt(paid, 0), "an empty claim is rejected")
    ctx.check(E.eq(E.sub(s.held, s.tok.balance(VEST)), paid), "the contract pays exactly the claim")
    ctx.check(E.eq(s.tok.balance(s.other), o0), "only the recipient is paid")
    v = s.schedule(s.user, index)
    ctx.check(E.eq(fnum(v, "balance"), E.sub(bal, paid)), "the claim lowers the schedule's balance by what was paid")
    ctx.check(E.ge(fnum(v, "balance"), locked), "what is still locked stays in the contract")
    ctx.check(ctx.w.same(field(v, "schedule"), cv.val), "a claim keeps the schedule")
    ctx.check(ctx.w.same(field(v, "recipient"), addr(s.user)), "a claim keeps the recipient")
    s.same_rest("a claim", skip=index)
    # again, at any later time
    later = ctx.u64("later", 0, 1 << 40)
    ctx.w.now = E.add(now, later)
    u1 = s.tok.balance(s.user)
    try:
        ctx.call(VEST, "claim", addr(s.user), u64(index))
    except Revert:
        return
    again = E.sub(s.tok.balance(s.user), u1)
    ctx.check(E.gt(later, 0), "a second claim at the same time pays nothing")
    ctx.check(E.eq(E.add(paid, again), E.sub(bal, cv.at(ctx.w.now))), "all claims together pay exactly what was released")


def missing(ctx):
    s = Vst(ctx, ["sat"])
    i = ctx.u64("index")
    u0 = s.tok.balance(s.user)
    ctx.call(VEST, "claim", addr(s.user), u64(i))
    ctx.check(E.eq(i, 0), "only a recorded schedule can be claimed")
    ctx.check(E.le(E.sub(s.tok.balance(s.user), u0), s.mine[0][1]), "a claim never exceeds the balance of the schedule")
    s.same_rest("a claim", skip=0)


def due(ctx, kind):
    """whatever is released can be claimed"""
    s = Vst(ctx, [kind])
    cv, bal, inf = s.mine[0]
    locked = cv.at(ctx.w.now)
    ctx.assume(E.cand(E.gt(bal, locked), E.le(E.sub(bal, locked), s.held)))
    ctx.must_succeed(VEST, "claim", addr(s.user), u64(0))


def end(ctx, kind):
    """after the end of the schedule everything can be claimed"""
    s = Vst(ctx, [kind])
    cv, bal, inf = s.mine[0]
    ctx.assume(E.cand(E.gt(bal, 0), E.le(bal, s.held), E.ge(ctx.w.now, cv.points[-1][0])))
    u0 = s.tok.balance(s.user)
    ctx.must_succeed(VEST, "claim", addr(s.user), u64(0))
    ctx.check(E.eq(E.sub(s.tok.balance(s.user), u0), bal), "after the end of a schedule its whole balance is paid")


def scenarios(tier):
    big = tier != "quick"
    out = {"missing": (missing, {}), "claim_second": (claim, {"kind": "sat", "index": 1, "n": 2}),
           "claim_first": (claim, {"kind": "sat", "index": 0, "n": 2})}
    for n, i in ((3, 2), (5, 4), (9, 8)):
        out["claim_%d_of_%d" % (i, n)] = (claim, {"kind": "sat", "index": i, "n": n})
    for k in ("sat", 1, 2, 3) + ((4, 5) if big else ()):
        out["claim_%s" % k] = (claim, {"kind": k})
        out["due_%s" % k] = (due, {"kind": k})
        out["end_%s" % k] = (end, {"kind": k})
    del out["claim_1"], out["due_1"], out["end_1"]
    return out
