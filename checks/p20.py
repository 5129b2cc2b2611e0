from .pools import *

CONTRACTS = ["multihop", "factory", "pool"]
LEVEL = "model_checking"
BOUNDS = ("routes of 0 to 3 hops (thorough: 4) between arbitrary tokens; amounts, limits, answers of the pools and the factory "
          "symbolic over their machine values; end to end over the real factory and two real XYK pools in arbitrary backed states")
OUTSIDE = "longer routes; pools that answer differently from the two pool types of this repository"
MH, FAC = 0x11, 0x12
TOK = ("str", b"TOK")


def pl(k):
    return 0x50 + k


def deploy(ctx):
    ctx.w.now = ctx.u64("now", 0, (1 << 63) - 1)
    ctx.admin = ctx.addr("admin")
    ctx.deploy(MH, "multihop", [(INST, vec(sym("FactoryKey")), addr(FAC)), (INST, vec(sym("Admin")), addr(ctx.admin)),
                                (PERS, vec(sym("Initialized")), boolean(True))])
    ctx.sender = ctx.addr("sender")


def route(ctx, n, tokens=None):
    """n hops with unrelated ends unless the contract insists"""
    ops, ends = [], []
    for i in range(n):
        if tokens:
            o, a = tokens[ctx.choice("offer%d" % i, len(tokens))], tokens[ctx.choice("ask%d" % i, len(tokens))]
        else:
            o, a = ctx.addr("offer%d" % i), ctx.addr("ask%d" % i)
            for x in (MH, FAC):
                ctx.assume(E.cand(E.ne(o, x), E.ne(a, x)))
        lim = i128(ctx.i128("min%d" % i)) if i % 2 == 0 else VOID
        ends.append((P(o), P(a), lim))
        ops.append(struct(offer_asset=addr(o), ask_asset=addr(a), ask_asset_min_amount=lim))
    return vec(*ops), ends


class World:
    """the factory knows one pool per query; every pool answers with fresh values"""

    def __init__(self, ctx, n):
        self.asked, self.swaps = [], []
        self.outs = []

        def factory(ctx, fn, args):
            if fn != "query_for_pool_by_token_pair":
                return None
            self.asked.append((args[0][1], args[1][1]))
            return addr(pl(len(self.asked) - 1)), []
        ctx.script(FAC, "factory", factory)
        for k in range(n + 1):
            ctx.script(pl(k), "pool%d" % k, self.pool(k))

    def pool(self, k):
        def f(ctx, fn, args):
            self.swaps.append((k, fn, args))
            n = len(self.swaps)
            if fn == "swap":
                self.outs.append(ctx.i128("out%d" % n))
                return i128(self.outs[-1]), []
            if fn == "simulate_swap":
                r = [ctx.i128(x + str(n)) for x in ("ask", "com", "spr", "tot")]
                self.outs.append(r)
                return struct(ask_amount=i128(r[0]), commission_amount=i128(r[1]), spread_amount=i128(r[2]),
                              total_return=i128(r[3])), []
            if fn == "simulate_reverse_swap":
                r = [ctx.i128(x + str(n)) for x in ("offer", "com", "spr")]
                self.outs.append(r)
                return struct(offer_amount=i128(r[0]), commission_amount=i128(r[1]), spread_amount=i128(r[2])), []
            return None
        return f


def pairs(ctx, w, ends, what):
    ctx.check(len(w.asked) == len(ends) == len(w.swaps), "%s: one pool per hop, each used once" % what)
    for k, ((o, a, _), (x, y)) in enumerate(zip(ends, w.asked)):
        ctx.check(E.cor(E.cand(E.eq(o, x), E.eq(a, y)), E.cand(E.eq(o, y), E.eq(a, x))),
                  "%s: the pool registered for the hop's pair is used" % what)
        ctx.check(w.swaps[k][0] == k, "%s: the hops are made in order" % what)


def swap(ctx, n):
    deploy(ctx)
    w = World(ctx, n)
    ops, ends = route(ctx, n)
    amount = ctx.i128("amount")
    spread, dl, fee = ctx.opt("spread", i64(ctx.i64("spread"))), ctx.opt("deadline", u64(ctx.u64("deadline"))), \
        ctx.opt("maxfee", i64(ctx.i64("maxfee")))
    kind = ctx.choice("pool_type", 2)
    ctx.call(MH, "swap", addr(ctx.sender), ops, spread, i128(amount), u32(kind), dl, fee)
    ctx.check(n > 0, "an empty route is rejected")
    ctx.check(ctx.authed(MH, ctx.sender), "a route is authorized by the sender")
    for (_, a, _), (o, _, _) in zip(ends, ends[1:]):
        ctx.check(E.eq(a, o), "consecutive hops share a token")
    pairs(ctx, w, ends, "swap")
    cur = amount
    for k, (o, a, lim) in enumerate(ends):
        _, fn, args = w.swaps[k]
        ctx.check(fn == "swap" and len(args) == 7, "each hop is a swap")
        ctx.check(E.eq(args[0][1], ctx.sender), "each hop trades for the sender")
        ctx.check(E.eq(args[1][1], o), "each hop sells its offered token")
        ctx.check(E.eq(args[2][1], cur), "each hop sells exactly what the previous one paid")
        for x, y, nm in zip(args[3:], (lim, spread, dl, fee), ("minimum", "spread", "deadline", "maximum fee")):
            ctx.check(ctx.w.same(x, y), "each hop keeps the sender's %s" % nm)
        cur = w.outs[k]


def simulate(ctx, n, rev):
    deploy(ctx)
    toks = [A, B, 0x24, 0x25]
    for t in toks:
        ctx.token(t, "T%x" % t)
    w = World(ctx, n)
    # a free choice of a chain of tokens (broken chains are covered by `broken`)
    chain = [toks[(i + ctx.choice("start", 2)) % 4] if i == 0 else toks[i] for i in range(n + 1)]
    ends = [((P(b), P(a)) if rev else (P(a), P(b))) + (VOID,) for a, b in zip(chain, chain[1:])]
    ops = vec(*[struct(offer_asset=addr(o), ask_asset=addr(a), ask_asset_min_amount=l) for o, a, l in ends])
    amount = ctx.i128("amount")
    kind = ctx.choice("pool_type", 2)
    fn = "simulate_reverse_swap" if rev else "simulate_swap"
    r = ctx.call(MH, fn, ops, i128(amount), u32(kind))
    ctx.check(n > 0, "quotes of an empty route are rejected")
    pairs(ctx, w, ends, "quote")
    cur = amount
    for k, (o, a, _) in enumerate(ends):
        _, f, args = w.swaps[k]
        ctx.check(f == fn, "a quote asks each pool for the same quote")
        # a stable pool is asked by the offered token, in both directions
        ctx.check(E.eq(args[0][1], a if rev and kind == 0 else o), "each hop is quoted for its token")
        ctx.check(E.eq(args[1][1], cur), "each hop is quoted for exactly the previous result")
        cur = w.outs[k][0]
    ctx.check(E.eq(fnum(r, "offer_amount" if rev else "ask_amount"), cur), "the quote is the result of the last hop")
    com = vec(*[vec(TOK, i128(x[1])) for x in w.outs])
    ctx.check(ctx.w.same(field(r, "commission_amounts"), com), "the quote lists each hop's commission")
    ctx.check(ctx.w.same(field(r, "spread_amount"), vec(*[i128(x[2]) for x in w.outs])), "the quote lists each hop's spread")


def broken(ctx, fn, n):
    """hops that do not share a token are rejected, before anything is moved"""
    deploy(ctx)
    toks = [A, B, 0x24]
    for t in toks:
        ctx.token(t, "T%x" % t)
    w = World(ctx, n)
    ops, ends = route(ctx, n, toks)
    links = [(e[1], f[0]) if fn != "simulate_reverse_swap" else (e[0], f[1]) for e, f in zip(ends, ends[1:])]
    bad = E.cor(*[E.ne(x, y) for x, y in links]) if links else True
    if bad is False:
        return
    ctx.assume(bad)
    args = [ops, VOID, i128(ctx.i128("amount")), u32(0), VOID, VOID] if fn == "swap" else [ops, i128(ctx.i128("amount")), u32(0)]
    if fn == "swap":
        args.insert(0, addr(ctx.sender))
    ctx.must_fail("%s: a broken route is rejected" % fn, MH, fn, *args)


def endtoend(ctx):
    """real factory, two real pools (A,B) and (B,C)"""
    C = 0x24
    deploy(ctx)
    for x in (MH, FAC, A, B, C, pl(0), pl(1)):
        ctx.assume(E.ne(ctx.sender, x))
    toks = {t: ctx.token(t, n) for t, n in ((A, "A"), (B, "B"), (C, "C"))}
    rec = ctx.addr("fee_recipient")
    ctx.assume(E.ne(rec, ctx.sender))
    for x in (MH, pl(0), pl(1)):
        ctx.assume(E.ne(rec, x))
    pk = lambda a, b: struct(token_a=addr(a), token_b=addr(b))
    ctx.deploy(FAC, "factory", [(PERS, pk(A, B), addr(pl(0))), (PERS, pk(B, C), addr(pl(1)))])
    for k, (a, b) in enumerate(((A, B), (B, C))):
        ra, rb = ctx.i128("reserve%da" % k, 1, 10 ** 18), ctx.i128("reserve%db" % k, 1, 10 ** 18)
        cfg = struct(token_a=addr(a), token_b=addr(b), share_token=addr(SHARE), stake_contract=addr(STAKE), pool_type=u32(0),
                     total_fee_bps=i64(ctx.i64("fee%d" % k, 0, 10000)), fee_recipient=addr(rec),
                     max_allowed_slippage_bps=i64(5000), max_allowed_spread_bps=i64(10000), max_referral_bps=i64(0))
        ctx.deploy(pl(k), "pool", [(PERS, key("total"), i128(P(1000000))), (PERS, key("ra"), i128(ra)),
                                   (PERS, key("rb"), i128(rb)), (PERS, key("admin"), addr(ctx.admin)),
                                   (PERS, key("init"), boolean(True)), (PERS, sym("CONFIG"), cfg),
                                   (PERS, sym("DSLIPBPS"), i64(100))])
        ctx.assume(E.cand(E.le(ra, toks[a].balance(pl(k))), E.le(rb, toks[b].balance(pl(k)))))
    n = ctx.i128("amount", hi=10 ** 18)
    b0 = {t: x.balance(ctx.sender) for t, x in toks.items()}
    m0 = {t: x.balance(MH) for t, x in toks.items()}
    way = ctx.choice("way", 2)
    path = [A, B, C] if way == 0 else [C, B, A]
    c0 = toks[path[2]].balance(pl(1 - way))
    f0 = toks[path[2]].balance(rec)
    ops = vec(*[struct(offer_asset=addr(o), ask_asset=addr(a), ask_asset_min_amount=VOID) for o, a in zip(path, path[1:])])
    ctx.call(MH, "swap", addr(ctx.sender), ops, VOID, i128(n), u32(0), VOID, VOID)
    ctx.check(ctx.authed(MH, ctx.sender), "a route is authorized by the sender")
    ctx.check(E.eq(E.sub(b0[path[0]], toks[path[0]].balance(ctx.sender)), n), "exactly the amount is sold")
    ctx.check(E.eq(toks[B].balance(ctx.sender), b0[B]), "nothing of the token in between is kept or lost")
    got = E.sub(toks[path[2]].balance(ctx.sender), b0[path[2]])
    left = E.sub(c0, toks[path[2]].balance(pl(1 - way)))
    fee = E.sub(toks[path[2]].balance(rec), f0)
    ctx.check(E.eq(left, E.add(got, fee)), "the sender receives everything the last pool pays")
    for t, x in toks.items():
        ctx.check(E.eq(x.balance(MH), m0[t]), "the router keeps nothing")


def scenarios(tier):
    top = 3 if tier == "quick" else 4
    out = {"endtoend": (endtoend, {})}
    for fn in ("swap", "simulate_swap", "simulate_reverse_swap"):
        out["broken_%s0" % fn] = (broken, {"fn": fn, "n": 0})
    for n in range(1, top + 1):
        out["swap%d" % n] = (swap, {"n": n})
        for rev in (False, True):
            if n <= 3:
                out["simulate%s%d" % ("_reverse" if rev else "", n)] = (simulate, {"n": n, "rev": rev})
        for fn in ("swap", "simulate_swap", "simulate_reverse_swap"):
            if n in (2, 3):
                out["broken_%s%d" % (fn, n)] = (broken, {"fn": fn, "n": n})
    return out
