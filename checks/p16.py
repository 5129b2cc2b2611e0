from .curves import *
from .stk import info, stakes_of
from engine.host import VOID

CONTRACTS = ["stake_rewards"]
LEVEL = "model_checking"
BOUNDS = ("one call (and query-call pairs) in an arbitrary state of the rewards contract; stakes up to 10^18 units, rewards up "
          "to 10^15, accumulator up to 2^60; reward curve constant, linear, or with 2 to 3 (thorough: 4) steps; the account has 1 to 3 "
          "(thorough: 4) recorded stakes")
OUTSIDE = "larger amounts; stakes in the future; whether the staking contract passes the right stakes (it does not use this contract at present)"
RW, STAKING, TOK = 0x10, 0x11, 0x20
SELF = (RW, STAKING, TOK)
MAXS, MAXR, MAXP = 10 ** 18, 10 ** 15, 1 << 60
DAY = 86400
SHIFT = 1 << 32


def akey(u):
    return vec(sym("WithdrawAdjustment"), struct(user=addr(u), asset=addr(TOK)))


class Rw:
    def __init__(self, ctx, curve="const", nst=1, fresh=False):
        self.ctx = c = ctx
        c.w.now = c.u64("now", 0, 1 << 39)
        self.user, self.other, self.admin = c.addr("user"), c.addr("other"), c.addr("admin")
        for a in (self.user, self.other, self.admin):
            for k in SELF:
                c.assume(E.ne(a, k))
        c.assume(E.ne(self.user, self.other))
        self.minbond = c.i128("min_bond", 1, MAXS)
        self.minrew = c.i128("min_reward", 1, MAXR)
        self.config = struct(staking_contract=addr(STAKING), reward_token=addr(TOK), max_complexity=u32(c.u32("complexity", 1)),
                             min_reward=i128(self.minrew), min_bond=i128(self.minbond))
        self.spp = c.int("shares_per_point", 1, MAXP)
        self.left = c.u64("leftover")
        self.dist = c.int("distributed_total", 0, MAXR)
        self.wdr = c.int("withdrawable_total", 0, MAXR)
        c.assume(E.le(self.wdr, self.dist))
        self.curve = Curve(c, curve, maxy=MAXR, order=-1)
        self.d = struct(shares_per_point=u128(self.spp), shares_leftover=u64(self.left), distributed_total=u128(self.dist),
                        withdrawable_total=u128(self.wdr), max_bonus_bps=u64(0), bonus_per_day_bps=u64(0))
        st = [(PERS, sym("CONFIG"), self.config), (PERS, ("u32", 0), boolean(True)), (PERS, ("u32", 1), addr(self.admin)),
              (PERS, vec(sym("Distribution"), addr(TOK)), self.d), (PERS, vec(sym("Curve"), addr(TOK)), self.curve.val)]
        self.stakes = [(c.i128("stake%d" % i, 1, MAXS), c.u64("stime%d" % i)) for i in range(nst)]
        self.staked = P(0)
        for a, t in self.stakes:
            c.assume(E.le(t, c.w.now))
            self.staked = E.add(self.staked, a)
        self.info = info(self.stakes, P(0), c.u64("last"), self.staked)
        self.corr, self.got = P(0), P(0)
        if not fresh:
            self.corr = c.i128("correction", -(1 << 120), 1 << 120)
            self.got = c.int("withdrawn", 0, MAXR)
            st.append((PERS, akey(self.user), struct(shares_correction=i128(self.corr), withdrawn_rewards=u128(self.got))))
        self.oadj = struct(shares_correction=i128(c.i128("ocorrection")), withdrawn_rewards=u128(c.int("owithdrawn", 0, MAXR)))
        st.append((PERS, akey(self.other), self.oadj))
        c.deploy(RW, "stake_rewards", st)
        self.tok = c.token(TOK, "R")
        self.held = self.tok.balance(RW)
        c.assume(E.le(self.held, 4 * MAXR))

    def power(self, staked):
        return E.ite(E.lt(staked, self.minbond), 0, E.fdiv(staked, 1000))

    def points(self, staked, corr):
        return E.add(E.mul(self.spp, self.power(staked)), corr)

    def adj(self, u):
        v = self.ctx.get(RW, akey(u), PERS)
        if v is None:
            return P(0), P(0)
        return fnum(v, "shares_correction"), fnum(v, "withdrawn_rewards")

    def now_dist(self):
        return self.ctx.get(RW, vec(sym("Distribution"), addr(TOK)), PERS)

    def same_rest(self, what, dist=True, curve=True):
        c = self.ctx
        c.check(c.w.same(c.get(RW, sym("CONFIG"), PERS), self.config), "%s keeps the configuration" % what)
        c.check(c.w.same(c.get(RW, akey(self.other), PERS), self.oadj), "%s changes nobody else's account" % what)
        c.check(E.eq(c.get(RW, ("u32", 1), PERS)[1], self.admin), "%s keeps the administrator" % what)
        if dist:
            c.check(c.w.same(self.now_dist(), self.d), "%s distributes nothing" % what)
        if curve:
            c.check(c.w.same(c.get(RW, vec(sym("Curve"), addr(TOK)), PERS), self.curve.val), "%s keeps the curve" % what)


def distribute(ctx, curve):
    s = Rw(ctx, curve)
    staked = ctx.i128("total_staked", 0, 10 ** 20)
    ctx.call(RW, "distribute_rewards", i128(staked))
    ctx.check(ctx.authed(RW, STAKING), "a distribution is authorized by the staking contract")
    d = s.now_dist()
    power = s.power(staked)
    locked = s.curve.at(ctx.w.now)
    n = E.sub(E.sub(s.held, s.wdr), locked)
    grow = E.sub(fnum(d, "shares_per_point"), s.spp)
    add = E.sub(fnum(d, "distributed_total"), s.dist)
    ctx.check(E.ge(grow, 0), "the accumulator never falls")
    ctx.check(E.cor(E.eq(add, 0), E.eq(add, n)), "a distribution counts exactly what has arrived and is released")
    ctx.check(E.eq(E.sub(fnum(d, "withdrawable_total"), s.wdr), add), "what is distributed becomes withdrawable")
    ctx.check(E.le(E.add(fnum(d, "withdrawable_total"), E.ite(E.gt(add, 0), locked, 0)), E.ite(E.ge(s.held, s.wdr), s.held, s.wdr)), "everything withdrawable is held by the contract")
    ctx.check(E.le(E.add(E.mul(grow, power), fnum(d, "shares_leftover")), E.add(E.scale(add, SHIFT), s.left)), "the accumulator grows by at most what arrived")
    ctx.check(E.eq(E.add(E.mul(grow, power), fnum(d, "shares_leftover")), E.add(E.scale(add, SHIFT), s.left)), "the remainder is kept for the next distribution")
    ctx.check(E.cor(E.eq(power, 0), E.eq(add, n)), "everything released is distributed when there is staking power")
    s.same_rest("a distribution", dist=False)
    ctx.check(E.cand(E.eq(s.adj(s.user)[0], s.corr), E.eq(s.adj(s.user)[1], s.got)), "a distribution changes no account")
    ctx.check(E.eq(s.tok.balance(RW), s.held), "a distribution moves no tokens")


def withdraw(ctx, nst, fresh=False, full=False):
    s = Rw(ctx, "const", nst, fresh=fresh)
    if full:
        for a, t in s.stakes:
            ctx.assume(E.ge(E.sub(ctx.w.now, t), 60 * DAY))
    q = ctx.call(RW, "query_withdrawable_reward", addr(s.user), s.info)
    n = fnum(q, "reward_amount")
    u0, o0 = s.tok.balance(s.user), s.tok.balance(s.other)
    ctx.call(RW, "withdraw_rewards", addr(s.user), s.info)
    ctx.check(ctx.authed(RW, STAKING), "a withdrawal is authorized by the staking contract")
    pts = s.points(s.staked, s.corr)
    ctx.check(E.ge(n, 0), "no negative reward")
    ctx.check(E.eq(E.sub(s.tok.balance(s.user), u0), n), "a withdrawal pays exactly what the query reports")
    ctx.check(E.eq(E.sub(s.held, s.tok.balance(RW)), n), "the contract pays exactly the reward")
    ctx.check(E.eq(s.tok.balance(s.other), o0), "only the account is paid")
    ctx.check(E.le(E.scale(E.add(n, s.got), SHIFT), pts), "all withdrawals together never exceed the points earned")
    d = s.now_dist()
    ctx.check(E.eq(E.sub(s.wdr, fnum(d, "withdrawable_total")), n), "what is paid is no longer withdrawable")
    ctx.check(E.cand(E.eq(fnum(d, "distributed_total"), s.dist), E.eq(fnum(d, "shares_per_point"), s.spp),
                     E.eq(fnum(d, "shares_leftover"), s.left)), "a withdrawal distributes nothing")
    corr, got = s.adj(s.user)
    ctx.check(E.cand(E.eq(corr, s.corr), E.eq(E.sub(got, s.got), n)), "what is paid is recorded as withdrawn")
    s.same_rest("a withdrawal", dist=False)
    if full:
        ctx.check(E.eq(E.add(n, s.got), E.fdiv(pts, SHIFT)), "stakes of 60 days or more are paid everything earned")
        q = ctx.call(RW, "query_withdrawable_reward", addr(s.user), s.info)
        ctx.check(E.eq(fnum(q, "reward_amount"), 0), "nothing is left after a full withdrawal")


def register(ctx):
    s = Rw(ctx, "const", 1, fresh=True)
    ctx.call(RW, "add_user", addr(s.user), s.info)
    ctx.check(ctx.authed(RW, STAKING), "an account is added by the staking contract")
    corr, got = s.adj(s.user)
    ctx.check(E.eq(s.points(s.staked, corr), 0), "a new account has earned nothing")
    ctx.check(E.eq(got, 0), "a new account has withdrawn nothing")
    s.same_rest("add_user")
    ctx.check(E.eq(s.tok.balance(RW), s.held), "adding an account moves no tokens")


def bond(ctx, nst):
    s = Rw(ctx, "const", nst)
    # the staking contract's record holds the new stake last, the total without it
    new = s.stakes[-1][0]
    old = E.sub(s.staked, new)
    rec = info(s.stakes, P(0), P(0), old)
    ctx.call(RW, "calculate_bond", addr(s.user), rec)
    ctx.check(ctx.authed(RW, STAKING), "a bond is reported by the staking contract")
    corr, got = s.adj(s.user)
    ctx.check(E.eq(s.points(s.staked, corr), s.points(old, s.corr)), "bonding leaves earned rewards unchanged")
    ctx.check(E.eq(got, s.got), "bonding leaves withdrawn rewards unchanged")
    s.same_rest("calculate_bond")
    ctx.check(E.eq(s.tok.balance(RW), s.held), "bonding moves no reward tokens")


def unbond(ctx, nst):
    s = Rw(ctx, "const", nst)
    j = ctx.choice("which", nst)
    gone = s.stakes[j][0]
    left = E.sub(s.staked, gone)
    q = ctx.call(RW, "query_withdrawable_reward", addr(s.user), s.info)
    n = fnum(q, "reward_amount")
    u0, o0 = s.tok.balance(s.user), s.tok.balance(s.other)
    ctx.call(RW, "calculate_unbond", addr(s.user), s.info, i128(gone))
    ctx.check(ctx.authed(RW, STAKING), "an unbond is reported by the staking contract")
    ctx.check(ctx.authed(RW, s.user), "an unbond is authorized by the account")
    corr, got = s.adj(s.user)
    ctx.check(E.eq(s.points(left, corr), s.points(s.staked, s.corr)), "unbonding leaves earned rewards unchanged")
    ctx.check(E.eq(E.sub(got, s.got), n), "what unbonding pays is recorded as withdrawn")
    ctx.check(E.eq(E.sub(s.tok.balance(s.user), u0), n), "unbonding pays exactly the pending reward")
    ctx.check(E.eq(E.sub(s.held, s.tok.balance(RW)), n), "the contract pays exactly the reward")
    ctx.check(E.eq(s.tok.balance(s.other), o0), "only the account is paid")
    d = s.now_dist()
    ctx.check(E.eq(E.sub(s.wdr, fnum(d, "withdrawable_total")), n), "what is paid is no longer withdrawable")
    ctx.check(E.eq(fnum(d, "shares_per_point"), s.spp), "unbonding distributes nothing")
    s.same_rest("calculate_unbond", dist=False)


def fund(ctx, curve):
    s = Rw(ctx, curve)
    # every stored curve ends with everything released (kept by every funding)
    ctx.assume(E.eq(s.curve.points[-1][1], 0))
    start, dur, n = ctx.u64("start"), ctx.u64("duration", 0, 1 << 39), ctx.i128("amount", hi=MAXR)
    for a in (s.user, s.other):
        ctx.assume(E.ne(a, s.admin))
    old = s.curve.at(ctx.w.now)
    a0, u0 = s.tok.balance(s.admin), s.tok.balance(s.user)
    ctx.call(RW, "fund_distribution", u64(start), u64(dur), i128(n))
    ctx.check(E.cand(ctx.authed(RW, STAKING), ctx.authed(RW, s.admin)), "funding is authorized by the administrator and the staking contract")
    ctx.check(E.eq(E.sub(a0, s.tok.balance(s.admin)), n), "exactly the amount is taken from the administrator")
    ctx.check(E.eq(E.sub(s.tok.balance(RW), s.held), n), "exactly the amount arrives")
    ctx.check(E.eq(s.tok.balance(s.user), u0), "nobody else's tokens move")
    ctx.check(E.ge(n, s.minrew), "the minimum reward is enforced")
    ctx.check(E.ge(start, ctx.w.now), "funding never starts in the past")
    s.same_rest("fund_distribution", curve=False)
    new = readpoints(ctx.get(RW, vec(sym("Curve"), addr(TOK)), PERS))
    ctx.check(E.eq(new[-1][1], s.curve.points[-1][1]), "the funded amount is fully released at the end")
    ctx.check(E.le(value(new, ctx.w.now), E.add(E.add(old, n), 2)), "at most the amount added is locked (and two units of rounding)")


def readpoints(v):
    k, x = v[1][0][1], v[1][1]
    if k == "Constant":
        return [(P(0), x[1])]
    if k == "SaturatingLinear":
        return [(fnum(x, "min_x"), fnum(x, "min_y")), (fnum(x, "max_x"), fnum(x, "max_y"))]
    return [(fnum(p, "time"), fnum(p, "value")) for p in field(x, "steps")[1]]


def twice(ctx):
    a = [addr(ctx.addr("p%d" % i)) for i in range(3)]
    Rw(ctx)
    ctx.must_fail("an initialised contract is never initialised again", RW, "initialize", *a, u32(ctx.u32("mc")),
                  i128(ctx.i128("mr")), i128(ctx.i128("mb")))


def scenarios(tier):
    big = tier != "quick"
    out = {"register": (register, {}), "initialize": (twice, {})}
    for n in range(1, 5 if big else 4):
        out["bond%d" % n] = (bond, {"nst": n})
        out["unbond%d" % n] = (unbond, {"nst": n})
        out["withdraw%d" % n] = (withdraw, {"nst": n})
        out["withdraw_full%d" % n] = (withdraw, {"nst": n, "full": True})
    out["withdraw_fresh"] = (withdraw, {"nst": 1, "fresh": True})
    for c in ("const", "sat", 2, 3) + ((4,) if big else ()):
        out["distribute_%s" % c] = (distribute, {"curve": c})
        out["fund_%s" % c] = (fund, {"curve": c})
    return out
