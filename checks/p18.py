from .vst import *

CONTRACTS = ["vesting"]
LEVEL = "model_checking"
BOUNDS = ("creation of 1 to 2 (thorough: 3) schedules in one call in an arbitrary state, each recipient with 0 to 2 existing "
          "schedules (one new schedule: up to 8); curves of any kind with up to 3 (thorough: 4) steps, unconstrained values and times")
OUTSIDE = "more schedules per call, more steps, more existing schedules"


def create(ctx, kinds, have=0):
    s = Vst(ctx, ["sat"] * have)
    now = ctx.w.now
    who = [s.user] + [ctx.addr("recipient%d" % i) for i in range(1, len(kinds))]
    for r in who[1:]:
        ctx.assume(E.ne(r, s.other))
    ctx.assume(E.ne(s.other, s.admin))
    cvs = [Curve(ctx, k, "n%d" % i, maxy=(1 << 128) - 1, maxt=U64MAX, valid=False) for i, k in enumerate(kinds)]
    a0, o0 = s.tok.balance(s.admin), s.tok.balance(s.other)
    ctx.call(VEST, "create_vesting_schedules", vec(*[struct(recipient=addr(r), curve=c.val) for r, c in zip(who, cvs)]))
    ctx.check(ctx.authed(VEST, s.admin), "creating schedules is authorized by the administrator")
    total = P(0)
    for i, (r, c, k) in enumerate(zip(who, cvs, kinds)):
        ctx.check(k != "const", "a schedule that releases nothing is refused")
        ts, vs = [p[0] for p in c.points], [p[1] for p in c.points]
        ctx.check(E.eq(vs[-1], 0), "a schedule ends with everything released")
        for x, y in zip(vs, vs[1:]):
            ctx.check(E.ge(x, y), "a schedule never locks more later")
        for x, y in zip(ts, ts[1:]):
            ctx.check(E.lt(x, y), "the times of a schedule are ordered")
        ctx.check(E.gt(s.complexity, 2 if k == "sat" else k), "schedules above the complexity limit are refused")
        total = E.add(total, vs[0])
        for j in range(i):
            ctx.check(E.ne(r, who[j]), "each recipient gets one schedule per call")
        n = have if i == 0 else 0
        v = s.schedule(r, n)
        ctx.check(v is not None, "the schedule is stored under the next index of its recipient")
        ctx.check(ctx.w.same(v, vinfo(vs[0], r, c.val)), "the stored schedule is the given one with its initial locked amount")
        ctx.check(s.schedule(r, n + 1) is None, "exactly one schedule is stored per recipient")
    ctx.check(E.eq(E.sub(a0, s.tok.balance(s.admin)), total), "the administrator pays exactly the sum of the new balances")
    ctx.check(E.eq(E.sub(s.tok.balance(VEST), s.held), total), "the contract receives exactly the sum of the new balances")
    ctx.check(E.eq(s.tok.balance(s.other), o0), "nobody else pays")
    s.same_rest("creating schedules")


def empty(ctx):
    Vst(ctx)
    ctx.must_fail("an empty list of schedules is refused", VEST, "create_vesting_schedules", vec())


def accepted(ctx, kind):
    """a valid, funded schedule is accepted"""
    s = Vst(ctx)
    c = Curve(ctx, kind, "n", order=-1)
    ctx.assume(E.eq(c.points[-1][1], 0))
    ctx.assume(E.gt(s.complexity, 2 if kind == "sat" else kind))
    ctx.assume(E.le(c.points[0][1], s.tok.balance(s.admin)))
    ctx.must_succeed(VEST, "create_vesting_schedules", vec(struct(recipient=addr(s.user), curve=c.val)))


def other(ctx, fn):
    """nothing else creates or changes schedules"""
    s = Vst(ctx, ["sat"])
    who = ctx.addr("caller")
    a0 = s.tok.balance(s.admin)
    args = {"mint": (addr(who), i128(ctx.i128("amount"))), "burn": (addr(who), u128(ctx.int("amount", 0, (1 << 128) - 1))),
            "update_minter": (addr(who), addr(ctx.addr("new"))),
            "update_minter_capacity": (addr(who), u128(ctx.int("cap2", 0, (1 << 128) - 1))), "update": (ctx.hash("vesting"),)}[fn]
    ctx.call(VEST, fn, *args)
    s.same_rest(fn, minter=False)
    ctx.check(s.schedule(s.user, 1) is None, "%s creates no schedule" % fn)
    ctx.check(E.ge(s.tok.balance(VEST), s.held) if fn != "burn" else E.cor(E.eq(who, VEST), E.ge(s.tok.balance(VEST), s.held)),
              "%s takes no vested tokens" % fn)


def scenarios(tier):
    big = tier != "quick"
    out = {"empty": (empty, {})}
    for k in ("sat", 1, 2, 3) + ((4,) if big else ()):
        for h in range(0, 3):
            out["create_%s_%d" % (k, h)] = (create, {"kinds": (k,), "have": h})
        out["accepted_%s" % k] = (accepted, {"kind": k})
    for h in (3, 5, 8) + ((17,) if big else ()):
        out["create_sat_%d" % h] = (create, {"kinds": ("sat",), "have": h})
    out["two"] = (create, {"kinds": ("sat", "sat"), "have": 0})
    out["two_more"] = (create, {"kinds": ("sat", 2), "have": 1})
    out["refused_const"] = (refused, {})
    if big:
        out["three"] = (create, {"kinds": ("sat", "sat", 3), "have": 1})
    for fn in ("mint", "burn", "update_minter", "update_minter_capacity", "update"):
        out["other_" + fn] = (other, {"fn": fn})
    return out


def refused(ctx):
    s = Vst(ctx)
    c = Curve(ctx, "const", "n")
    ctx.must_fail("a schedule that releases nothing is refused", VEST, "create_vesting_schedules",
                  vec(struct(recipient=addr(s.user), curve=c.val)))
