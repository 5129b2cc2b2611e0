"""Arbitrary states of the two liquidity pool contracts, and the calls on them."""
from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID

POOL, A, B, SHARE, STAKE = 0x10, 0x20, 0x21, 0x22, 0x23
ADMIN = 0x30
CONTRACT_ADDRS = (POOL, A, B, SHARE, STAKE)
KEY = {"total": 0, "ra": 1, "rb": 2, "admin": 3, "init": 4, "amp": 5, "maxprec": 6, "prec": 7}
XYK_DUR = {}


def key(n):
    return ("u32", KEY[n])


class Pool:
    """an initialised pool in an arbitrary state satisfying: reserves backed by balances, total shares minted"""

    def __init__(self, ctx, kind, maxamt=I128MAX, curve=None, decimals=None, empty=False, fee=None,
                 backed=True, amp=None, shares=True, ramp=False):
        self.ctx, self.kind = ctx, kind
        stable = kind in ("pool_stable", "stable_math")
        self.d = INST if stable else PERS
        c = ctx
        c.w.now = c.u64("now", 0, (1 << 63) - 1)
        self.sender = c.addr("sender")
        self.recipient = c.addr("fee_recipient")
        self.admin = c.addr("admin")
        for a in (self.sender, self.recipient, self.admin):
            for k in CONTRACT_ADDRS:
                c.assume(E.ne(a, k))
        if curve:
            self.ra, self.rb = P(curve["ra"]), P(curve["rb"])
            self.total = P(curve["total"])
        elif empty:
            self.ra, self.rb, self.total = P(0), P(0), P(0)
        else:
            self.ra = c.i128("reserve_a", 0, maxamt)
            self.rb = c.i128("reserve_b", 0, maxamt)
            self.total = c.i128("total_shares", 0, maxamt)
        self.fee = c.i64("total_fee_bps", 0, 10000) if fee is None else P(fee)
        self.maxslip = c.i64("max_slippage_bps", 0, 10000)
        self.maxspread = c.i64("max_spread_bps", 0, 10000)
        self.dslip = c.i64("default_slippage_bps", 0, 10000)
        dec = decimals or (7, 7)
        cfg = dict(token_a=addr(A), token_b=addr(B), share_token=addr(SHARE), stake_contract=addr(STAKE),
                   pool_type=u32(1 if stable else 0), total_fee_bps=i64(self.fee), fee_recipient=addr(self.recipient),
                   max_allowed_slippage_bps=i64(self.maxslip), max_allowed_spread_bps=i64(self.maxspread))
        st = []
        if stable:
            cfg["default_slippage_bps"] = i64(self.dslip)
            self.amp0 = c.u64("amp", 1, 1000000) if amp is None and not curve else P(amp or curve["amp"])
            a100 = E.scale(self.amp0, 100)
            t0 = c.u64("amp_time", 0)
            c.assume(E.le(t0, c.w.now))
            self.ramp = (a100, t0, a100, t0)
            if ramp:
                n, t1 = E.scale(c.u64("next_amp", 1, 1000000), 100), c.u64("next_amp_time", 0, (1 << 63) - 1)
                c.assume(E.le(t0, t1))
                self.ramp = (a100, t0, n, t1)
            st += [(INST, key("amp"), struct(init_amp=u64(a100), init_amp_time=u64(t0), next_amp=u64(self.ramp[2]),
                                             next_amp_time=u64(self.ramp[3]))),
                   (INST, key("maxprec"), u32(max(dec))),
                   (INST, vec(key("prec"), addr(A)), u32(dec[0])),
                   (INST, vec(key("prec"), addr(B)), u32(dec[1]))]
        else:
            self.maxref = c.i64("max_referral_bps", 0, 10000)
            cfg["max_referral_bps"] = i64(self.maxref)
            st += [(self.d, sym("DSLIPBPS"), i64(self.dslip))]
        self.config = struct(**cfg)
        st += [(self.d, key("total"), i128(self.total)), (self.d, key("ra"), i128(self.ra)),
               (self.d, key("rb"), i128(self.rb)), (self.d, key("admin"), addr(self.admin)),
               (PERS, key("init"), boolean(True)), (self.d, sym("CONFIG"), self.config)]
        c.deploy(POOL, kind, st)
        self.ta = c.token(A, "A", decimals=dec[0])
        self.tb = c.token(B, "B", decimals=dec[1])
        self.ts = c.token(SHARE, "S", admin=POOL, decimals=7)
        # the pool owns what it records
        self.ba, self.bb, self.bs = (t.balance(POOL) for t in (self.ta, self.tb, self.ts))
        if backed:
            c.assume(E.le(self.ra, self.ba))
            c.assume(E.le(self.rb, self.bb))
        if shares:
            # all shares ever minted and not burned are recorded: holders together never own more
            self.ts.supply = self.total
            c.assume(E.le(self.bs, self.total))
        self.other = None

    # ---- observation
    def reserve(self, n):
        return self.ctx.get(POOL, key(n), self.d)[1]

    def post(self):
        return self.reserve("ra"), self.reserve("rb"), self.reserve("total")

    def cfg(self):
        return self.ctx.get(POOL, sym("CONFIG"), self.d)

    def watch(self):
        """an arbitrary third party: returns its balances before the call"""
        c = self.ctx
        self.other = c.addr("other")
        for a in (self.sender, self.recipient, POOL):
            c.assume(E.ne(self.other, a))
        return [t.balance(self.other) for t in (self.ta, self.tb, self.ts)]

    def balances(self, a):
        return [t.balance(a) for t in (self.ta, self.tb, self.ts)]

    # ---- calls
    def swap(self, offer, amount, ask_min=VOID, spread=VOID, deadline=VOID, maxfee=VOID):
        return self.ctx.call(POOL, "swap", addr(self.sender), addr(offer), i128(amount), ask_min, spread, deadline, maxfee)


CURVES = [
    dict(ra=1_000_000, rb=1_000_000, total=1_000_000, amp=100),
    dict(ra=12_345_678, rb=9_876_543, total=5_000_000, amp=6),
]


def both(fn, **kw):
    """the same scenario for both pool kinds: XYK over all values; stable with an abstracted curve, and with
    concrete reserves (everything else symbolic)"""
    out = {"xyk_" + fn.__name__: (fn, dict(kind="pool", **kw)),
           "stable_" + fn.__name__: (fn, dict(kind="pool_stable", abstract=True, **kw))}
    for i, c in enumerate(CURVES):
        out["stable_%s_curve%d" % (fn.__name__, i)] = (fn, dict(kind="pool_stable", curve=c, **kw))
    return out
