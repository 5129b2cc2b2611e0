"""Arbitrary states of the vesting contract."""
from .curves import *
from engine.host import VOID
from engine.path import Revert

VEST, TOK = 0x10, 0x20
SELF = (VEST, TOK)
K = {"admin": 1, "minter": 3, "token": 5, "complexity": 6, "init": 7}


def key(n):
    return ("u32", K[n])


def vkey(a, i):
    return struct(recipient=addr(a), index=u64(i))


def vinfo(balance, recipient, curve):
    return struct(balance=u128(balance), recipient=addr(recipient), schedule=curve)


class Vst:
    def __init__(self, ctx, curves=(), others=("sat",), minter=True, maxy=10 ** 20):
        """curves: the schedules of `user`, others: those of a third party"""
        self.ctx = c = ctx
        c.w.now = c.u64("now", 0, 1 << 40)
        self.user, self.other, self.admin = c.addr("user"), c.addr("other"), c.addr("admin")
        for a in (self.user, self.other, self.admin):
            for k in SELF:
                c.assume(E.ne(a, k))
        c.assume(E.ne(self.user, self.other))
        self.complexity = c.u32("complexity")
        self.token = struct(name=string("T"), symbol=string("T"), decimals=u32(7), address=addr(TOK))
        st = [(PERS, key("admin"), addr(self.admin)), (INST, key("init"), boolean(True)), (INST, key("token"), self.token),
              (INST, key("complexity"), u32(self.complexity))]
        self.minter = self.cap = None
        if minter:
            self.minter = c.addr("minter")
            self.cap = c.int("capacity", 0, (1 << 128) - 1)
            st.append((INST, key("minter"), struct(address=addr(self.minter), mint_capacity=u128(self.cap))))
        self.mine, self.theirs = [], []
        for who, l, out, nm in ((self.user, curves, self.mine, "c"), (self.other, others, self.theirs, "o")):
            for i, kind in enumerate(l):
                cv = Curve(c, kind, "%s%d" % (nm, i), maxy=maxy, order=-1)
                # every stored schedule was accepted by the contract (see P18): it ends with everything released
                c.assume(E.eq(cv.points[-1][1], 0))
                bal = c.int("%sbalance%d" % (nm, i), 0, maxy)
                c.assume(E.le(bal, cv.points[0][1]))
                inf = vinfo(bal, who, cv.val)
                out.append((cv, bal, inf))
                st.append((PERS, vkey(who, i), inf))
        c.deploy(VEST, "vesting", st)
        self.tok = c.token(TOK, "T", admin=VEST)
        self.held = self.tok.balance(VEST)

    def schedule(self, a, i):
        return self.ctx.get(VEST, vkey(a, i), PERS)

    def same_rest(self, what, skip=None, minter=True):
        c = self.ctx
        for who, l in ((self.user, self.mine), (self.other, self.theirs)):
            for i, (cv, bal, inf) in enumerate(l):
                if (who is self.user) and i == skip:
                    continue
                c.check(c.w.same(self.schedule(who, i), inf), "%s changes no other schedule" % what)
        c.check(E.eq(c.get(VEST, key("admin"), PERS)[1], self.admin), "%s keeps the administrator" % what)
        c.check(c.w.same(c.get(VEST, key("token"), INST), self.token), "%s keeps the token" % what)
        if minter:
            m = c.get(VEST, key("minter"), INST)
            c.check((m is None) if self.minter is None else
                    c.w.same(m, struct(address=addr(self.minter), mint_capacity=u128(self.cap))), "%s keeps the minter" % what)
