from .pools import *

CONTRACTS = ["trader", "pool"]
LEVEL = "model_checking"
BOUNDS = ("one call by an arbitrary caller in an arbitrary state; tokens, pool, amounts and limits symbolic over their machine "
          "values; trades through an arbitrarily answering pool and through the real XYK pool in an arbitrary backed state")
OUTSIDE = "pools that take more than the offer they were given (the pool is named by the administrator); tokens that do not follow SEP-41"
TR, C, OUT, PL = 0x11, 0x24, 0x26, 0x50
NAME = ("str", b"trader")


def tkey(n):
    return ("u32", {"admin": 0, "name": 1, "pair": 2, "token": 3, "init": 5}[n])


class Trader:
    def __init__(self, ctx, pair=(A, B), out=OUT):
        ctx.w.now = ctx.u64("now", 0, (1 << 63) - 1)
        self.ctx, self.pair, self.out = ctx, pair, out
        self.admin = ctx.addr("admin")
        self.st = [(PERS, tkey("admin"), addr(self.admin)), (PERS, tkey("name"), NAME),
                   (PERS, tkey("pair"), vec(addr(pair[0]), addr(pair[1]))), (PERS, tkey("token"), addr(out)),
                   (PERS, tkey("init"), boolean(True))]
        ctx.deploy(TR, "trader", self.st)
        self.tok = {t: ctx.token(t, "T%x" % t) for t in (A, B, C, OUT)}
        for k in (TR, PL, A, B, C, OUT):
            ctx.assume(E.ne(self.admin, k))

    def held(self):
        return {t: x.balance(TR) for t, x in self.tok.items()}

    def kept(self, what):
        for d, k, v in self.st:
            self.ctx.check(self.ctx.w.same(self.ctx.get(TR, k, d), v), "%s changes no settings" % what)


def limits(ctx):
    return (ctx.opt("spread", i64(ctx.i64("spread"))), ctx.opt("deadline", u64(ctx.u64("deadline"))),
            ctx.opt("min", i128(ctx.i128("min"))), ctx.opt("maxfee", i64(ctx.i64("maxfee"))))


def puller(ctx, calls, out):
    """a pool that takes the offer and pays `out` of the other token"""
    def f(ctx, fn, args):
        if fn != "swap":
            return None
        calls.append(args)
        tok = args[1]
        other = B if ctx.w.same(tok, addr(A)) else A
        return i128(out), [(tok[1], "transfer", (args[0], addr(PL), args[2])),
                           (other, "transfer", (addr(PL), args[0], i128(out)))]
    ctx.script(PL, "pl", f)


def trade(ctx, whole):
    s = Trader(ctx)
    calls = []
    out = ctx.i128("out", 0)
    puller(ctx, calls, out)
    who, tok, n = ctx.addr("caller"), ctx.addr("token"), ctx.u64("amount")
    for k in (TR, PL):
        ctx.assume(E.cand(E.ne(who, k), E.ne(tok, k)))
    sp, dl, mn, mf = limits(ctx)
    h0 = s.held()
    ctx.call(TR, "trade_token", addr(who), addr(tok), addr(PL), VOID if whole else u64(n), sp, dl, mn, mf)
    ctx.check(ctx.authed(TR, s.admin), "a trade is authorized by the administrator")
    ctx.check(E.eq(who, s.admin), "only the administrator trades")
    ctx.check(E.cor(E.eq(tok, A), E.eq(tok, B)), "only the tokens of the pair are sold")
    ctx.check(len(calls) == 1, "a trade is one swap in the given pool")
    a = calls[0]
    t = A if ctx.branch(E.eq(tok, A)) else B
    ctx.check(E.cand(E.eq(a[0][1], TR), E.eq(a[1][1], tok)), "the trader sells its own tokens")
    want = h0[t] if whole else n
    ctx.check(E.eq(a[2][1], want), "exactly the stated amount (by default all the trader holds) is sold")
    for x, y, nm in zip(a[3:], (mn, sp, dl, mf), ("minimum", "spread", "deadline", "maximum fee")):
        ctx.check(ctx.w.same(x, y), "the swap keeps the given %s" % nm)
    if sp != VOID:
        ctx.check(E.cand(E.ge(sp[1], 0), E.le(sp[1], 10000)), "the spread limit is within 0..=100%")
    h1 = s.held()
    for k in h0:
        d = E.sub(h1[k], h0[k])
        ctx.check(E.eq(d, E.neg(P(want)) if k == t else out if k in (A, B) else 0), "nothing else of the trader moves")
    s.kept("a trade")


def possible(ctx, whole):
    """the administrator can always sell what the trader holds"""
    s = Trader(ctx)
    out = ctx.i128("out", 0)
    puller(ctx, [], out)
    tok = (A, B)[ctx.choice("token", 2)]
    h = s.held()
    ctx.assume(E.le(out, s.tok[B if tok == A else A].balance(PL)))
    n = ctx.u64("amount")
    if not whole:
        ctx.assume(E.le(n, h[tok]))
    sp = ctx.opt("spread", i64(ctx.i64("spread", 0, 10000)))
    ctx.must_succeed(TR, "trade_token", addr(s.admin), addr(tok), addr(PL), VOID if whole else u64(n), sp, VOID, VOID, VOID)
    ctx.check(E.eq(E.sub(h[tok], s.tok[tok].balance(TR)), h[tok] if whole else n), "the trade sells the amount")


def endtoend(ctx):
    """through the real XYK pool"""
    s = Trader(ctx)
    rec = ctx.addr("fee_recipient")
    for x in (TR, PL):
        ctx.assume(E.ne(rec, x))
    ra, rb = ctx.i128("reserve_a", 1, 10 ** 18), ctx.i128("reserve_b", 1, 10 ** 18)
    cfg = struct(token_a=addr(A), token_b=addr(B), share_token=addr(SHARE), stake_contract=addr(STAKE), pool_type=u32(0),
                 total_fee_bps=i64(ctx.i64("fee", 0, 10000)), fee_recipient=addr(rec),
                 max_allowed_slippage_bps=i64(5000), max_allowed_spread_bps=i64(10000), max_referral_bps=i64(0))
    ctx.deploy(PL, "pool", [(PERS, key("total"), i128(P(1000000))), (PERS, key("ra"), i128(ra)), (PERS, key("rb"), i128(rb)),
                            (PERS, key("admin"), addr(s.admin)), (PERS, key("init"), boolean(True)),
                            (PERS, sym("CONFIG"), cfg), (PERS, sym("DSLIPBPS"), i64(100))])
    p0 = {t: s.tok[t].balance(PL) for t in (A, B)}
    ctx.assume(E.cand(E.le(ra, p0[A]), E.le(rb, p0[B])))
    i = ctx.choice("token", 2)
    tok, oth = (A, B) if i == 0 else (B, A)
    n = ctx.u64("amount", 1, 10 ** 18)
    h0 = s.held()
    mn = ctx.i128("min")
    ctx.call(TR, "trade_token", addr(s.admin), addr(tok), addr(PL), u64(n), VOID, VOID, i128(mn), VOID)
    h1 = s.held()
    ctx.check(E.eq(E.sub(h0[tok], h1[tok]), n), "exactly the stated amount is sold")
    got = E.sub(h1[oth], h0[oth])
    ctx.check(E.ge(got, mn), "the trader receives at least the minimum")
    for k in (C, OUT):
        ctx.check(E.eq(h1[k], h0[k]), "no other token moves")


def transfer(ctx, some):
    s = Trader(ctx)
    who, rcp, n = ctx.addr("caller"), ctx.addr("recipient"), ctx.i128("amount")
    for k in (TR, PL, A, B, C, OUT):
        ctx.assume(E.ne(who, k))
    ctx.assume(E.ne(rcp, TR))
    t = (A, B, C, OUT)[ctx.choice("token", 4)] if some else OUT
    h0 = s.held()
    r0 = {k: x.balance(rcp) for k, x in s.tok.items()}
    ctx.call(TR, "transfer", addr(who), addr(rcp), i128(n), addr(t) if some else VOID)
    ctx.check(ctx.authed(TR, s.admin), "a transfer is authorized by the administrator")
    ctx.check(E.eq(who, s.admin), "only the administrator transfers")
    h1 = s.held()
    for k, x in s.tok.items():
        d = n if k == t else 0
        ctx.check(E.eq(E.sub(h0[k], h1[k]), d), "exactly the amount of the %s leaves" % ("named token" if some else "output token"))
        ctx.check(E.eq(E.sub(x.balance(rcp), r0[k]), d), "the named recipient receives exactly the amount")
    s.kept("a transfer")


def payable(ctx):
    s = Trader(ctx)
    rcp = ctx.addr("recipient")
    h = s.held()
    n = ctx.i128("amount", 0)
    t = (A, B, C, OUT)[ctx.choice("token", 4)]
    ctx.assume(E.le(n, h[t]))
    ctx.must_succeed(TR, "transfer", addr(s.admin), addr(rcp), i128(n), addr(t))


def queries(ctx):
    s = Trader(ctx)
    h = s.held()
    T = ("str", b"TOK")
    asset = lambda t: struct(symbol=T, amount=i128(h[t]))
    for fn, v in (("query_balances", struct(output_token=asset(OUT), token_a=asset(A), token_b=asset(B))),
                  ("query_trading_pairs", vec(addr(A), addr(B))), ("query_admin_address", addr(s.admin)),
                  ("query_contract_name", NAME),
                  ("query_output_token_info", struct(address=addr(OUT), name=T, symbol=T, decimal=u32(7)))):
        r = ctx.must_succeed(TR, fn)
        ctx.check(ctx.w.same(r, v), "%s reports settings and holdings" % fn)
    s.kept("a query")


def scenarios(tier):
    return {"trade": (trade, {"whole": False}), "trade_all": (trade, {"whole": True}),
            "possible": (possible, {"whole": False}), "possible_all": (possible, {"whole": True}),
            "endtoend": (endtoend, {}), "transfer": (transfer, {"some": True}), "transfer_output": (transfer, {"some": False}),
            "payable": (payable, {}), "queries": (queries, {})}
