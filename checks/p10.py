from .pools import *

CONTRACTS = ["pool", "pool_stable"]
LEVEL = "model_checking"
BOUNDS = ("a quote followed by the quoted call in the same arbitrary backed state; amounts, assets, limits symbolic over their "
          "machine values; the stable curve is an uninterpreted function of its inputs (equal inputs give equal results) and, "
          "in separate scenarios, the real curve on two concrete reserve pairs")
OUTSIDE = "reverse quotes are only checked to leave the state alone; tokens that do not follow SEP-41"


def unchanged(ctx, p, before, cfg):
    ra, rb, tot = p.post()
    ctx.check(E.cand(E.eq(ra, p.ra), E.eq(rb, p.rb), E.eq(tot, p.total)), "a quote leaves reserves and shares alone")
    ctx.check(ctx.w.same(p.cfg(), cfg), "a quote leaves the configuration alone")
    now = [t.balance(POOL) for t in (p.ta, p.tb, p.ts)] + p.balances(p.sender)
    for x, y in zip(now, before):
        ctx.check(E.eq(x, y), "a quote moves no tokens")


def state(p):
    return [t.balance(POOL) for t in (p.ta, p.tb, p.ts)] + p.balances(p.sender)


def quote(ctx, kind, abstract=False, curve=None):
    p = Pool(ctx, kind, curve=curve)
    if abstract:
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    offer = ctx.addr("offer_asset")
    n = ctx.i128("offer_amount") if not curve else P(54321)
    s0, cfg = state(p), p.cfg()
    q = ctx.call(POOL, "simulate_swap", addr(offer), i128(n))
    ask, com, spr = fnum(q, "ask_amount"), fnum(q, "commission_amount"), fnum(q, "spread_amount")
    ctx.check(E.eq(fnum(q, "total_return"), E.add(E.add(ask, com), spr)), "the quoted total is payout plus commission plus spread")
    unchanged(ctx, p, s0, cfg)
    r0 = p.balances(p.recipient)
    s0 = p.balances(p.sender)
    ret = p.swap(offer, n)[1]
    ra, rb, _ = p.post()
    ctx.check(E.eq(ret, ask), "the swap returns the quoted payout")
    o = 1 if ctx.branch(E.eq(offer, A)) else 0
    d = E.sub(p.rb, rb) if o else E.sub(p.ra, ra)
    ctx.check(E.eq(d, E.add(ask, com)), "payout and commission leave the reserves as quoted")
    if ctx.branch(E.ne(p.sender, p.recipient)):
        ctx.check(E.eq(E.sub(p.balances(p.sender)[o], s0[o]), ask), "the trader receives the quoted payout")
        ctx.check(E.eq(E.sub(p.balances(p.recipient)[o], r0[o]), com), "the commission charged is the quoted one")


def share(ctx, kind):
    p = Pool(ctx, kind)
    n = ctx.i128("shares")
    s0, cfg = state(p), p.cfg()
    q = ctx.call(POOL, "query_share", i128(n))
    qa, qb = q[1][0], q[1][1]
    ctx.check(ctx.w.same(field(qa, "address"), addr(A)) and ctx.w.same(field(qb, "address"), addr(B)), "the quote names the pool's tokens")
    unchanged(ctx, p, s0, cfg)
    ret = ctx.call(POOL, "withdraw_liquidity", addr(p.sender), i128(n), i128(ctx.i128("min_a")), i128(ctx.i128("min_b")), VOID)
    ctx.check(E.cand(E.eq(ret[1][0][1], fnum(qa, "amount")), E.eq(ret[1][1][1], fnum(qb, "amount"))),
              "a withdrawal pays the quoted amounts")
    s1 = p.balances(p.sender)
    ctx.check(E.cand(E.eq(E.sub(s1[0], s0[3]), fnum(qa, "amount")), E.eq(E.sub(s1[1], s0[4]), fnum(qb, "amount"))),
              "the holder receives the quoted amounts")


def queries(ctx, kind):
    p = Pool(ctx, kind)
    s0, cfg = state(p), p.cfg()
    asset = lambda a, n: struct(address=addr(a), amount=i128(n))
    info = struct(asset_a=asset(A, p.ra), asset_b=asset(B, p.rb), asset_lp_share=asset(SHARE, p.total), stake_address=addr(STAKE))
    want = [("query_config", (), p.config), ("query_share_token_address", (), addr(SHARE)),
            ("query_stake_contract_address", (), addr(STAKE)), ("query_pool_info", (), info),
            ("query_pool_info_for_factory", (), struct(pool_address=addr(POOL), pool_response=info, total_fee_bps=i64(p.fee))),
            ("query_total_issued_lp", (), i128(p.total))]
    for fn, args, v in want:
        r = ctx.must_succeed(POOL, fn, *args)
        ctx.check(ctx.w.same(r, v), "%s reports what is stored" % fn)
    unchanged(ctx, p, s0, cfg)


def reverse(ctx, kind, abstract=False):
    p = Pool(ctx, kind)
    if abstract:
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    s0, cfg = state(p), p.cfg()
    q = ctx.call(POOL, "simulate_reverse_swap", addr(ctx.addr("ask_asset")), i128(ctx.i128("ask_amount")))
    unchanged(ctx, p, s0, cfg)


def scenarios(tier):
    out = both(quote)
    for k in ("pool", "pool_stable"):
        n = k.replace("pool_", "").replace("pool", "xyk")
        out[n + "_share"] = (share, {"kind": k})
        out[n + "_queries"] = (queries, {"kind": k})
        out[n + "_reverse"] = (reverse, {"kind": k, "abstract": k != "pool"})
    return out
