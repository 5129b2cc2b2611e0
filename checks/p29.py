from .pools import *
from .p28 import SHAPES, alive, scaled, point, MAX, U
from . import p20

CONTRACTS = ["pool", "pool_stable", "multihop", "factory"]
LEVEL = "model_checking"
BOUNDS = ("XYK: any backed pool state with reserves of 1 to 10^18 units, any fee up to 50%, any asked amount up to half of the "
          "reserve, fee included; stable pool, and the router over the real factory and either pool: nine concrete pools (equal "
          "and different decimals, balanced and unbalanced) with concrete amounts, everything else symbolic")
OUTSIDE = ("asking for more than half of the reserve; fees above 50%; the stable curve itself (P27)")


def xyk(ctx, fee=None):
    """asking for at most half of the reserve, fee included"""
    p = Pool(ctx, "pool", maxamt=MAX, fee=fee)
    alive(ctx, p)
    ask = A if ctx.choice("ask_token", 2) == 0 else B
    offer = B if ask == A else A
    a, o = (p.ra, p.rb) if ask == A else (p.rb, p.ra)
    n = ctx.i128("ask_amount", 1, MAX)
    ctx.assume(E.le(p.fee, 5000))
    ctx.assume(E.le(E.scale(n, 20000), E.mul(a, E.sub(10000, p.fee))))
    r = ctx.call(POOL, "simulate_reverse_swap", addr(ask), i128(n))
    off, spr, com = (fnum(r, k) for k in ("offer_amount", "spread_amount", "commission_amount"))
    # before the fee: n / (1 - fee), to 18 decimals
    inv = E.fdiv(P(U * U), E.sub(U, E.scale(p.fee, 10 ** 14)))
    g = E.fdiv(E.mul(n, inv), P(U))
    ctx.check(E.eq(com, E.fdiv(E.mul(g, p.fee), P(10000))), "the quoted commission is the pool's fee on the output before it")
    ctx.check(E.le(E.scale(E.sub(E.sub(g, com), n), 1), 1), "no more output than needed is quoted")
    ctx.check(E.ge(E.sub(g, com), E.sub(n, 1)), "the output before the fee covers the asked amount")
    z = E.sub(a, g)
    s = E.add(o, off)
    ctx.check(E.le(E.mul(s, z), E.mul(o, a)), "no more than the constant product requires is quoted")
    ctx.check(E.gt(E.mul(E.add(s, 1), z), E.mul(o, a)), "the quoted offer, rounded down, buys the output")
    ctx.check(E.eq(E.add(g, spr), E.fdiv(E.mul(off, a), o)), "output plus spread is the spot value, rounded down")


def needs(ctx, call, fwd, do, da, n, q):
    """the quoted offer buys the asked amount, up to rounding in the units of both tokens"""
    slack = 2 + 4 * 10 ** max(0, da - do)
    more = ctx.call(*fwd(E.add(q, 2)))
    ctx.check(E.ge(fnum(more, "ask_amount"), n - 2), "the quoted offer buys the asked amount")
    if ctx.branch(E.gt(q, 2)):
        less = ctx.call(*fwd(E.sub(q, 2)))
        ctx.check(E.le(fnum(less, "ask_amount"), n + slack), "the quote is no higher than needed")


def stable(ctx, s, frac, fee):
    """the stable pool is asked by the offered token"""
    p = point(ctx, s, fee)
    ask = ctx.choice("ask_token", 2)
    n = max(10, s[ask] // frac)
    offer = (B, A)[ask]
    r = ctx.call(POOL, "simulate_reverse_swap", addr(offer), i128(n))
    q = fnum(r, "offer_amount")
    needs(ctx, ctx.call, lambda x: (POOL, "simulate_swap", addr(offer), i128(x)), s[3][1 - ask], s[3][ask], n, q)


def router(ctx, kind, s, frac, fee):
    """a reverse quote of the router over the real factory and pool is the pool's for that direction"""
    p20.deploy(ctx)
    if kind == "pool":
        p = Pool(ctx, "pool", fee=fee, curve=dict(ra=s[0], rb=s[1], total=s[0] + s[1]), decimals=s[3])
    else:
        p = point(ctx, s, fee)
    pk = struct(token_a=addr(A), token_b=addr(B))
    ctx.deploy(p20.FAC, "factory", [(PERS, pk, addr(POOL))])
    ask = ctx.choice("ask_token", 2)
    n = max(10, s[ask] // frac)
    offer, asked = (B, A)[ask], (A, B)[ask]
    ops = vec(struct(offer_asset=addr(offer), ask_asset=addr(asked), ask_asset_min_amount=VOID))
    t = u32(0 if kind == "pool" else 1)
    r = ctx.call(p20.MH, "simulate_reverse_swap", ops, i128(n), t)
    q = fnum(r, "offer_amount")
    needs(ctx, ctx.call, lambda x: (p20.MH, "simulate_swap", ops, i128(x), t), s[3][1 - ask], s[3][ask], n, q)


def scenarios(tier):
    out = {"xyk": (xyk, {})}
    for i, s in enumerate(SHAPES):
        f = {"s": s, "frac": (3, 9, 27)[i % 3], "fee": (30, 0, 500)[i // 3]}
        out["stable%d" % i] = (stable, f)
        if i in (5, 6, 3) or tier != "quick":
            out["router_stable%d" % i] = (router, dict(f, kind="pool_stable"))
            out["router_xyk%d" % i] = (router, dict(f, kind="pool"))
    return out
