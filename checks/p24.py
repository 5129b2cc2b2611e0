from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID
from . import pools, stk, vst, p16, p20, p22

CONTRACTS = ["factory", "multihop", "pool", "pool_stable", "stake", "stake_rewards", "vesting", "token", "trader"]
LEVEL = "model_checking"
BOUNDS = ("one call by an arbitrary caller in an arbitrary state of each contract: every code-replacing call, and the other "
          "state-changing calls (which must not replace code); the new hash is any of two uploaded ones")
OUTSIDE = "code hashes of nothing uploaded (refused by the ledger); what the new code does"


def state(ctx, kind):
    """(contract, administrator, fungible balances)"""
    if kind in ("pool", "pool_stable"):
        p = pools.Pool(ctx, kind)
        return pools.POOL, p.admin, p
    if kind == "stake":
        s = stk.Stk(ctx, 1, nd=1)
        return stk.STK, s.admin, s
    if kind == "vesting":
        s = vst.Vst(ctx, ("sat",))
        return vst.VEST, s.admin, s
    if kind == "stake_rewards":
        s = p16.Rw(ctx)
        return p16.RW, s.admin, s
    if kind == "multihop":
        p20.deploy(ctx)
        return p20.MH, ctx.admin, None
    f = p22.Fac(ctx)
    return p22.FAC, f.admin, f


def calls(ctx, kind, s):
    """the other state-changing calls"""
    x, n, m = ctx.addr("who"), ctx.i128("n", hi=10 ** 18), ctx.i128("m", hi=10 ** 18)
    if kind in ("pool", "pool_stable"):
        who = addr(s.sender)
        prov = [who, i128(n), VOID, i128(m), VOID, VOID, VOID] if kind == "pool" else [who, i128(n), i128(m), VOID, VOID, VOID]
        return [("swap", [who, addr(pools.A), i128(n), VOID, VOID, VOID, VOID]), ("provide_liquidity", prov),
                ("withdraw_liquidity", [who, i128(n), i128(1), i128(1), VOID]),
                ("update_config", ([addr(x)] if kind == "pool_stable" else []) + [addr(x)] + [VOID] * (4 if kind == "pool_stable" else 5))]
    if kind == "stake":
        return [("bond", [addr(s.sender), i128(n)]), ("unbond", [addr(s.sender), i128(n), u64(ctx.u64("t"))]),
                ("withdraw_rewards", [addr(s.sender)]), ("create_distribution_flow", [addr(x), addr(stk.R1)]),
                ("distribute_rewards", [addr(s.other), i128(n), addr(stk.R0)])]
    if kind == "vesting":
        return [("claim", [addr(s.user), u64(0)]), ("mint", [addr(x), i128(n)]), ("update_minter", [addr(x), addr(x)]),
                ("update_minter_capacity", [addr(x), ("u128", ctx.int("c", 0, 1 << 64))]), ("burn", [addr(s.user), ("u128", ctx.int("c", 0, 1 << 64))])]
    if kind == "stake_rewards":
        return [("add_user", [addr(s.user), s.info]), ("calculate_bond", [addr(s.user), s.info]),
                ("distribute_rewards", [i128(n)]), ("withdraw_rewards", [addr(s.user), s.info])]
    if kind == "factory":
        return [("update_whitelisted_accounts", [addr(x), vec(addr(x)), vec()]), ("update_wasm_hashes", [ctx.hash("token"), VOID, VOID])]
    return []


def keep(ctx, c):
    return {(d, i): v for i, (k, d, v) in enumerate(ctx.w.contracts[c].storage)}


def replace(ctx, kind, fn):
    c, admin, s = state(ctx, kind)
    ctx.assume(E.ne(admin, c))
    nm = ("token", "multihop")[ctx.choice("hash", 2)]
    h = ctx.hash(nm)
    args = [h]
    if kind == "factory":
        args.append(ctx.hash("pool"))
    if kind == "pool" and fn == "upgrade":
        args.append(i64(ctx.i64("new_default_slippage")))
    toks = [x.model for x in ctx.w.contracts.values() if x.model is not None and hasattr(x.model, "balance")]
    bal = [(t, a, t.balance(a)) for t in toks for a in (c, admin)]
    before = [(list(e[0]) if False else e[0], e[1], e[2]) for e in ctx.w.contracts[c].storage]
    n0 = len(ctx.w.upgrades)
    ctx.call(c, fn, *args)
    ctx.check(ctx.authed(c, admin), "%s: the code is replaced only with the administrator's authorization" % kind)
    ups = ctx.w.upgrades[n0:] if not ctx.replay else ctx.w.upgrades
    ctx.check(len(ups) == 1 and num_(ups[0][0]) == c and ctx.w.same(ups[0][1], h), "%s: exactly the given code is installed" % kind)
    skip = {"factory": [sym("stabwasm")], "pool": [sym("DSLIPBPS")] if fn == "upgrade" else []}.get(kind, [])
    for k, d, v in before:
        if any(ctx.w.same(k, x) for x in skip):
            continue
        w = ctx.get(c, k, d)
        ctx.check((w is None and v is None) or (w is not None and v is not None and ctx.w.same(w, v)),
                  "%s: replacing the code changes nothing stored" % kind)
    for t, a, v in bal:
        ctx.check(E.eq(t.balance(a), v), "%s: replacing the code moves no tokens" % kind)


def num_(x):
    from engine.host import num
    return num(x)


def other(ctx, kind, j):
    c, admin, s = state(ctx, kind)
    if kind == "pool_stable":
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    fn, args = calls(ctx, kind, s)[j]
    ctx.call(c, fn, *args)
    ctx.check(not ctx.w.upgrades, "%s: %s replaces no code" % (kind, fn))


def nothing(ctx, kind):
    """contracts without a code-replacing call"""
    x = 0x10
    ctx.deploy(x, kind)
    for fn in ("update", "upgrade"):
        ctx.must_fail("%s: the code cannot be replaced" % kind, x, fn, ctx.hash("pool"))


NCALLS = {"pool": 4, "pool_stable": 4, "stake": 5, "vesting": 5, "stake_rewards": 4, "factory": 2}


def scenarios(tier):
    out = {}
    for k in ("factory", "multihop", "pool", "pool_stable", "stake", "stake_rewards", "vesting"):
        for fn in ("update", "upgrade") if k.startswith("pool") else ("update",):
            out["%s_%s" % (k, fn)] = (replace, {"kind": k, "fn": fn})
        for j in range(NCALLS.get(k, 0)):
            out["%s_other%d" % (k, j)] = (other, {"kind": k, "j": j})
    for k in ("token", "trader"):
        out[k] = (nothing, {"kind": k})
    return out
