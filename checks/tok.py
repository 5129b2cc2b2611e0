"""Arbitrary states of the share token contract."""
from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID

T = 0x10


def bkey(a):
    return enum("Balance", addr(a))


def akey(f, s):
    return enum("Allowance", struct(**{"from": addr(f), "spender": addr(s)}))


class Tok:
    def __init__(self, ctx):
        self.ctx = c = ctx
        c.w.seq = c.u32("ledger_seq", 1, (1 << 31) - 1)
        self.admin = c.addr("admin")
        self.n = 0
        self.dec = c.u32("decimals", 0, 18)
        meta = struct(decimal=u32(self.dec), name=string("Pool Share"), symbol=string("PHOS"))
        c.deploy(T, "token", [(INST, enum("Admin"), addr(self.admin)), (INST, sym("METADATA"), meta)],
                 default=self.default)
        for n in ("admin",):
            c.assume(E.ne(getattr(self, n), T))

    def default(self, key, dur):
        c = self.ctx
        if c.replay:
            n = c.w.contracts[T].__dict__.setdefault("names", {})
        if key[0] == "vec" and key[1][0] == sym("Balance") and dur == PERS:
            self.n += 1
            if c.flag("absent_bal%d" % self.n):
                return None
            return i128(c.i128("bal%d" % self.n, 0))
        if key[0] == "vec" and key[1][0] == sym("Allowance") and dur == TEMP:
            self.n += 1
            if c.flag("absent_allow%d" % self.n):
                return None
            a = c.i128("allow%d" % self.n, 0)
            e = c.u32("expires%d" % self.n, 0, (1 << 31) - 1)
            return struct(amount=i128(a), expiration_ledger=u32(e))
        return None

    def bal(self, a):
        v = self.ctx.get(T, bkey(a), PERS)
        return P(0) if v is None else P(v[1])

    def allow(self, f, s):
        """(amount, expiration) as stored"""
        v = self.ctx.get(T, akey(f, s), TEMP)
        return (P(0), P(0)) if v is None else (P(fnum(v, "amount")), P(fnum(v, "expiration_ledger")))

    def usable(self, f, s):
        """what the spender may spend now"""
        a, e = self.allow(f, s)
        return E.ite(E.ge(e, self.ctx.w.seq), a, 0)

    def getadmin(self):
        return self.ctx.get(T, enum("Admin"), INST)[1]


def differ(ctx, a, *bs):
    for b in bs:
        ctx.assume(E.ne(a, b))
