from .pools import *

CONTRACTS = ["factory", "pool", "pool_stable", "token", "stake", "multihop"]
LEVEL = "model_checking"
BOUNDS = ("one creation in an arbitrary registry (0 to 2, 5 and 12 earlier pools, one arbitrary earlier pair, 1 or 2 whitelisted accounts), "
          "and two creations in a row over every choice of two ordered pairs of three tokens; the deployed pool, share token and "
          "stake contract are the real ones; callers, accounts, limits and bond settings symbolic")
OUTSIDE = ("longer registries (the new entry is appended to whatever list is stored); collisions of SHA-256; "
           "decimals of the stable pool's tokens other than 7")
FAC, NEWP, NEWT, NEWS, C = 0x12, (0x60, 0x61), (0x62, 0x63), (0x64, 0x65), 0x24
HASHES = ("lp_wasm_hash", "stake_wasm_hash", "token_wasm_hash")
TOKS = (A, B, C)


def fkey(n):
    return ("u32", {"config": 1, "lps": 2, "init": 3}[n])


def pk(a, b):
    return struct(token_a=addr(a), token_b=addr(b))


class Fac:
    def __init__(self, ctx, nlps=1, nwl=2, others=True):
        self.ctx = ctx
        ctx.w.now = ctx.u64("now", 0, (1 << 63) - 1)
        self.admin, self.mh = ctx.addr("admin"), ctx.addr("multihop")
        self.wl = [ctx.addr("white%d" % i) for i in range(nwl)]
        for x in self.wl + [self.admin]:
            for k in (FAC, A, B, C) + NEWP + NEWT + NEWS:
                ctx.assume(E.ne(x, k))
        for i, x in enumerate(self.wl):
            for y in self.wl[:i]:
                ctx.assume(E.ne(x, y))
        self.config = struct(admin=addr(self.admin), multihop_address=addr(self.mh), lp_wasm_hash=ctx.hash("pool"),
                             stake_wasm_hash=ctx.hash("stake"), token_wasm_hash=ctx.hash("token"),
                             whitelisted_accounts=vec(*[addr(x) for x in self.wl]), lp_token_decimals=u32(P(7)))
        self.lps = [0x70 + i for i in range(nlps)]
        # an earlier registration of an arbitrary pair
        self.old = (ctx.addr("old_a"), ctx.addr("old_b")) if others else None
        st = [(PERS, fkey("config"), self.config), (PERS, fkey("lps"), vec(*[addr(x) for x in self.lps])),
              (PERS, fkey("init"), boolean(True)), (PERS, sym("stabwasm"), ctx.hash("pool_stable"))]
        if others:
            ctx.assume(E.lt(self.old[0], self.old[1]))
            st.append((PERS, pk(*self.old), addr(0x70)))
        ctx.deploy(FAC, "factory", st)
        self.tok = {t: ctx.token(t, "T%x" % t) for t in TOKS}

    def get(self, k):
        return self.ctx.get(FAC, k, PERS)

    def cfg(self):
        return self.get(fkey("config"))

    def listed(self):
        return [x[1] for x in self.get(fkey("lps"))[1]]

    def kept(self, what, cfg=True, lps=True, stable=True):
        c = self.ctx
        if cfg:
            c.check(c.w.same(self.cfg(), self.config), "%s changes no settings" % what)
        if lps:
            c.check(c.w.same(self.get(fkey("lps")), vec(*[addr(x) for x in self.lps])), "%s changes no registrations" % what)
        if stable:
            c.check(c.w.same(self.get(sym("stabwasm")), c.hash("pool_stable")), "%s keeps the stable pool's code" % what)
        if self.old:
            c.check(c.w.same(self.get(pk(*self.old)), addr(0x70)), "%s keeps earlier pairs" % what)


def initinfo(ctx, a, b, free):
    bps = lambda n, d: i64(ctx.i64(n) if free else P(d))
    return struct(admin=addr(ctx.addr("pool_admin")), fee_recipient=addr(ctx.addr("fee_recipient")),
                  token_init_info=struct(token_a=addr(a), token_b=addr(b)),
                  stake_init_info=struct(min_bond=i128(ctx.i128("min_bond")), min_reward=i128(ctx.i128("min_reward")),
                                         manager=addr(ctx.addr("manager")), max_complexity=u32(ctx.u32("complexity"))),
                  swap_fee_bps=bps("fee", 30), max_allowed_slippage_bps=bps("max_slip", 500),
                  default_slippage_bps=bps("dslip", 100), max_allowed_spread_bps=bps("max_spread", 500),
                  max_referral_bps=bps("max_ref", 100))


def create(ctx, kind, nlps, nwl, free=False):
    f = Fac(ctx, nlps, nwl, others=nlps > 0)
    ctx.deployable(sorted(NEWP + NEWT + NEWS), "pool", "pool_stable", "token", "stake")
    a, b = TOKS[ctx.choice("a", 3)], TOKS[ctx.choice("b", 3)]
    if f.old:
        # the pair is not registered yet
        ctx.assume(E.cor(E.ne(f.old[0], a), E.ne(f.old[1], b)))
    who = ctx.addr("caller")
    info = initinfo(ctx, a, b, free)
    stable = kind == "pool_stable"
    new = ctx.call(FAC, "create_liquidity_pool", addr(who), info, string("LP"), string("LP"), u32(1 if stable else 0),
                   u64(ctx.u64("amp")) if stable else VOID, i64(ctx.i64("default_slippage")), i64(ctx.i64("max_fee")))
    ctx.check(ctx.authed(FAC, who), "a creation is authorized by its caller")
    ctx.check(E.cor(*[E.eq(who, x) for x in f.wl]), "only a whitelisted account creates pools")
    ctx.check(a < b, "the tokens of a pair are ordered")
    l = f.listed()
    ctx.check(len(l) == nlps + 1, "exactly one pool is added to the list")
    for x, y in zip(l, f.lps):
        ctx.check(E.eq(x, y), "earlier pools stay in the list")
    ctx.check(E.eq(l[-1], new[1]), "the list ends with the new pool")
    v = f.get(pk(a, b))
    ctx.check(v is not None and ctx.w.same(v, new), "the new pool is registered under its pair")
    f.kept("a creation", lps=False)
    for x, y in ((a, b), (b, a)):
        q = ctx.must_succeed(FAC, "query_for_pool_by_token_pair", addr(x), addr(y))
        ctx.check(ctx.w.same(q, new), "the pool is found by its pair in either order")
    q = ctx.must_succeed(FAC, "query_pools")
    ctx.check(len(q[1]) == nlps + 1 and ctx.w.same(q[1][-1], new), "the pool is listed")
    # the new pool is what was asked for
    n = num(new[1])
    c = ctx.w.contracts[n]
    ctx.check(c.wasm == kind, "the pool has the code of the requested kind")
    d = INST if stable else PERS
    cfg = ctx.get(n, sym("CONFIG"), d)
    ctx.check(ctx.w.same(field(cfg, "token_a"), addr(a)) and ctx.w.same(field(cfg, "token_b"), addr(b)), "the pool trades the pair")
    ctx.check(ctx.w.same(ctx.get(n, key("admin"), d), field(info, "admin")), "the pool has the given administrator")
    ctx.check(ctx.w.same(field(cfg, "fee_recipient"), field(info, "fee_recipient")), "the pool has the given fee recipient")
    ctx.check(ctx.w.same(field(cfg, "total_fee_bps"), field(info, "swap_fee_bps")), "the pool has the given fee")


def twice(ctx, kinds):
    """two creations in a row from an empty registry"""
    f = Fac(ctx, 0, 1, others=False)
    ctx.deployable(sorted(NEWP + NEWT + NEWS), "pool", "pool_stable", "token", "stake")
    prs = [(A, B), (A, C), (B, C)]
    got = []
    for i, k in enumerate(kinds):
        a, b = prs[ctx.choice("pair%d" % i, 3)]
        stable = k == "pool_stable"
        new = ctx.call(FAC, "create_liquidity_pool", addr(f.wl[0]), initinfo(ctx, a, b, False), string("LP"), string("LP"),
                       u32(1 if stable else 0), u64(P(100)) if stable else VOID, i64(P(100)), i64(P(1000)))
        got.append(((a, b), new))
    (p0, n0), (p1, n1) = got
    ctx.check(p0 != p1, "at most one pool is created per pair")
    ctx.check(not ctx.w.same(n0, n1), "two pairs have two pools")
    ctx.check(ctx.w.same(f.get(pk(*p0)), n0) and ctx.w.same(f.get(pk(*p1)), n1), "both pairs stay registered")
    l = f.listed()
    ctx.check(len(l) == 2 and ctx.w.same(addr(l[0]), n0) and ctx.w.same(addr(l[1]), n1), "both pools stay listed")


def lookup(ctx):
    """lookups answer with the registered pool only"""
    f = Fac(ctx)
    x, y = ctx.addr("x"), ctx.addr("y")
    q = ctx.call(FAC, "query_for_pool_by_token_pair", addr(x), addr(y))
    ctx.check(E.eq(q[1], 0x70), "the registered pool is found")
    a, b = f.old
    ctx.check(E.cor(E.cand(E.eq(x, a), E.eq(y, b)), E.cand(E.eq(x, b), E.eq(y, a))), "a pool is found only by its own pair")
    f.kept("a query")


def whitelist(ctx, nwl, nadd, nrem):
    f = Fac(ctx, 1, nwl)
    who, x = ctx.addr("caller"), ctx.addr("someone")
    add = [ctx.addr("add%d" % i) for i in range(nadd)]
    rem = [ctx.addr("rem%d" % i) for i in range(nrem)]
    ctx.call(FAC, "update_whitelisted_accounts", addr(who), vec(*map(addr, add)), vec(*map(addr, rem)))
    ctx.check(ctx.authed(FAC, f.admin), "the whitelist changes with the administrator's authorization")
    ctx.check(E.eq(who, f.admin), "only the administrator changes the whitelist")
    c = f.cfg()
    new = [v[1] for v in field(c, "whitelisted_accounts")[1]]
    isin = lambda l: E.cor(False, *[E.eq(x, y) for y in l])
    ctx.check(iff(isin(new), E.cand(E.cor(isin(f.wl), isin(add)), neg(isin(rem)))),
              "exactly the added accounts join and the removed ones leave")
    for n in ("admin", "multihop_address", "lp_token_decimals") + HASHES:
        ctx.check(ctx.w.same(field(c, n), field(f.config, n)), "a whitelist update changes nothing else")
    f.kept("a whitelist update", cfg=False)


def removed(ctx):
    """an account the administrator removed creates no pools, however it was listed"""
    f = Fac(ctx, 0, 1, others=False)
    x = f.wl[0]
    y = ctx.addr("other_white")
    f.config = struct(**{**{k[1]: v for k, v in f.config[1]}, "whitelisted_accounts": vec(addr(x), addr(y), addr(x))})
    ctx.w.contracts[FAC].storage[0][2] = f.config
    ctx.w.contracts[FAC].initial[0][2] = f.config
    ctx.assume(E.ne(x, y))
    ctx.call(FAC, "update_whitelisted_accounts", addr(f.admin), vec(), vec(addr(x)))
    new = [v[1] for v in field(f.cfg(), "whitelisted_accounts")[1]]
    ctx.check(E.cand(*[E.ne(x, v) for v in new]) if new else True, "a removed account is no longer whitelisted")
    ctx.check(E.cor(*[E.eq(y, v) for v in new]) if new else False, "other accounts stay whitelisted")


def hashes(ctx):
    f = Fac(ctx)
    given = {n: ctx.hash(("multihop", "pool", "pool_stable")[i]) if ctx.flag("give_" + n) else VOID for i, n in enumerate(HASHES)}
    ctx.call(FAC, "update_wasm_hashes", *[given[n] for n in HASHES])
    ctx.check(ctx.authed(FAC, f.admin), "the code hashes change with the administrator's authorization")
    c = f.cfg()
    for n in HASHES:
        ctx.check(ctx.w.same(field(c, n), field(f.config, n) if given[n] == VOID else given[n]), "%s is the given one, or kept" % n)
    for n in ("admin", "multihop_address", "lp_token_decimals", "whitelisted_accounts"):
        ctx.check(ctx.w.same(field(c, n), field(f.config, n)), "a hash update changes nothing else")
    f.kept("a hash update", cfg=False)


def replace(ctx):
    f = Fac(ctx)
    ctx.call(FAC, "update", ctx.hash("multihop"), ctx.hash("pool"))
    ctx.check(ctx.authed(FAC, f.admin), "the code is replaced with the administrator's authorization")
    ctx.check(ctx.w.same(f.get(sym("stabwasm")), ctx.hash("pool")), "the stable pool's code is the given one")
    f.kept("a code replacement", stable=False)


def queries(ctx):
    f = Fac(ctx)
    for fn, v in (("get_admin", addr(f.admin)), ("get_config", f.config), ("query_pools", vec(*[addr(x) for x in f.lps]))):
        r = ctx.must_succeed(FAC, fn)
        ctx.check(ctx.w.same(r, v), "%s reports what is stored" % fn)
    f.kept("a query")


def scenarios(tier):
    out = {"lookup": (lookup, {}), "hashes": (hashes, {}), "replace": (replace, {}), "queries": (queries, {}),
           "removed": (removed, {})}
    for k, n in (("pool", "xyk"), ("pool_stable", "stable")):
        for l in (0, 1, 2):
            out["create_%s_%d" % (n, l)] = (create, {"kind": k, "nlps": l, "nwl": 1 if l == 2 else 2})
        for l in (5, 12):
            out["create_%s_%d" % (n, l)] = (create, {"kind": k, "nlps": l, "nwl": 2})
        out["create_%s_free" % n] = (create, {"kind": k, "nlps": 0, "nwl": 1, "free": True})
    for x in ("pool", "pool_stable"):
        for y in ("pool", "pool_stable"):
            out["twice_%s_%s" % (x, y)] = (twice, {"kinds": (x, y)})
    for w, a, r in ((1, 1, 0), (2, 0, 1), (2, 1, 1)) + (((2, 2, 2),) if tier != "quick" else ()):
        out["whitelist%d%d%d" % (w, a, r)] = (whitelist, {"nwl": w, "nadd": a, "nrem": r})
    return out
