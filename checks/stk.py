"""Arbitrary states of the staking contract."""
from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID

STK, LP, R0, R1 = 0x10, 0x20, 0x21, 0x22
SELF = (STK, LP, R0, R1)
MAX = 10 ** 18


def key(n):
    return ("u32", {"admin": 0, "total": 1, "dist": 2, "init": 3}[n])


def info(stakes, debt, last, total):
    return struct(stakes=vec(*[struct(stake=i128(a), stake_timestamp=u64(t)) for a, t in stakes]),
                  reward_debt=("u128", debt), last_reward_time=u64(last), total_stake=i128(total))


def rkey(token):
    return vec(sym("RewardHistory"), addr(token))


TKEY = vec(sym("TotalStakedHistory"))


class Stk:
    """nst: stakes recorded for the sender (None: no record), nd: distributions recorded per reward token"""

    def __init__(self, ctx, nst=2, tokens=(R0,), nd=0, maxamt=MAX, other=1, last=None):
        self.ctx = c = ctx
        c.w.now = c.u64("now", 0, (1 << 62))
        self.sender, self.other = c.addr("sender"), c.addr("other")
        self.admin, self.manager, self.owner = c.addr("admin"), c.addr("manager"), c.addr("owner")
        for a in (self.sender, self.other, self.admin, self.manager, self.owner):
            for k in SELF:
                c.assume(E.ne(a, k))
        c.assume(E.ne(self.sender, self.other))
        self.minbond = c.i128("min_bond", 1, maxamt)
        self.config = struct(lp_token=addr(LP), min_bond=i128(self.minbond), min_reward=i128(c.i128("min_reward", 1)),
                             manager=addr(self.manager), owner=addr(self.owner), max_complexity=u32(c.u32("complexity", 1)))
        st = [(PERS, sym("CONFIG"), self.config), (PERS, key("admin"), addr(self.admin)), (INST, key("init"), boolean(True))]
        # distributions: times t0 < t1 < ... <= now, the same for all tokens (a token may lack one)
        self.days = [c.u64("day%d" % i, 0, 1 << 62) for i in range(nd)]
        for a, b in zip(self.days, self.days[1:]):
            c.assume(E.lt(a, b))
        if nd:
            c.assume(E.le(self.days[-1], c.w.now))
        self.total = c.i128("total_staked", 0, 4 * maxamt)
        self.stakes, self.last = None, P(0)
        mine = P(0)
        if nst is not None:
            self.stakes = [(c.i128("stake%d" % i, 1, maxamt), c.u64("stime%d" % i)) for i in range(nst)]
            for a, t in self.stakes:
                c.assume(E.le(t, c.w.now))
                mine = E.add(mine, a)
            self.last = c.u64("last_reward_time") if last is None else last
            c.assume(E.le(self.last, c.w.now))
            self.debt = c.int("debt", 0, (1 << 128) - 1)
            self.mine = info(self.stakes, self.debt, self.last, mine)
            st.append((PERS, addr(self.sender), self.mine))
        self.mytotal = mine
        theirs = c.i128("other_stake", 1, maxamt)
        self.otherinfo = None
        if other:
            self.otherinfo = info([(theirs, c.u64("other_time"))], P(0), c.u64("other_last"), theirs)
            st.append((PERS, addr(self.other), self.otherinfo))
            c.assume(E.le(E.add(mine, theirs), self.total))
        else:
            c.assume(E.le(mine, self.total))
        st.append((PERS, key("total"), i128(self.total)))
        self.totals = [c.int("hist_total%d" % i, 0, 4 * maxamt) for i in range(nd)]
        st.append((PERS, TKEY, ("map", tuple((u64(d), ("u128", t)) for d, t in zip(self.days, self.totals)))))
        self.rew = {}
        for k in tokens:
            rs = []
            for i, d in enumerate(self.days):
                rs.append(c.int("reward%x_%d" % (k, i), 0, maxamt))
            self.rew[k] = rs
            st.append((PERS, rkey(k), ("map", tuple((u64(d), ("u128", r)) for d, r in zip(self.days, rs)))))
        self.tokens = tokens
        if tokens:
            st.append((PERS, key("dist"), vec(*[addr(k) for k in tokens])))
        c.deploy(STK, "stake", st)
        self.lp = c.token(LP, "LP")
        self.rt = {R0: c.token(R0, "R0"), R1: c.token(R1, "R1")}
        self.held = self.lp.balance(STK)
        c.assume(E.le(self.total, self.held))

    def get_info(self, a):
        return self.ctx.get(STK, addr(a), PERS)

    def total_now(self):
        return self.ctx.get(STK, key("total"), PERS)[1]

    def eligible(self, i, j):
        """stake j existed strictly before distribution i and distribution i is not yet claimed"""
        return E.cand(E.lt(self.stakes[j][1], self.days[i]), E.lt(self.last, self.days[i]))

    def consistent(self):
        """everything staked before a distribution and still staked was part of the total recorded for it"""
        for d, t in zip(self.days, self.totals):
            s = P(0)
            for a, ts in self.stakes or []:
                s = E.add(s, E.ite(E.lt(ts, d), a, 0))
            self.ctx.assume(E.le(s, t))


def stakes_of(v):
    """[(amount, time)] of a stored record"""
    return [(fnum(s, "stake"), fnum(s, "stake_timestamp")) for s in field(v, "stakes")[1]]


def sameinfo(ctx, a, b):
    if a is None or b is None:
        return a is b
    return ctx.w.same(a, b)
