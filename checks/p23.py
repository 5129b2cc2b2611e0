from .pools import *
from engine.path import Revert

CONTRACTS = ["factory", "multihop", "pool", "pool_stable", "stake", "stake_rewards", "token", "trader", "vesting"]
LEVEL = "model_checking"
BOUNDS = ("initialization of a new contract with arbitrary arguments, then any one of its state-changing calls (or none), then a "
          "second initialization with arbitrary arguments by anyone; lists of up to 2 accounts; contracts deployed along the way "
          "are the real ones")
OUTSIDE = "expiry of the stored initialization flag (state archival); the strings are concrete"
X, NEWP, NEWT, NEWS = 0x10, 0x60, 0x61, 0x62
TOKINFO = ("name", "symbol", "decimals", "address")


def pinfo(ctx, t):
    bps = {n: ctx.i64(t + n) for n in ("swap_fee_bps", "max_allowed_slippage_bps", "default_slippage_bps",
                                       "max_allowed_spread_bps", "max_referral_bps")}
    st = struct(min_bond=i128(ctx.i128(t + "min_bond")), min_reward=i128(ctx.i128(t + "min_reward")),
                manager=addr(ctx.addr(t + "manager")), max_complexity=u32(ctx.u32(t + "complexity")))
    return struct(admin=addr(ctx.addr(t + "admin")), fee_recipient=addr(ctx.addr(t + "fee_recipient")),
                  token_init_info=struct(token_a=addr(A), token_b=addr(B)), stake_init_info=st,
                  **{k: i64(v) for k, v in bps.items()}), bps, st


def args_pool(ctx, t, stable):
    inf, bps, st = pinfo(ctx, t)
    fac = ctx.addr(t + "factory")
    a = [ctx.hash("stake"), ctx.hash("token"), inf, addr(fac), u32(ctx.u32(t + "decimals")), string("LP"), string("LP")]
    extra = ctx.u64(t + "amp") if stable else ctx.i64(t + "dslip")
    return a + [u64(extra) if stable else i64(extra), i64(ctx.i64(t + "maxfee"))]


def i_pool(ctx, t, kind):
    return "initialize", args_pool(ctx, t, kind == "pool_stable")


def c_pool(ctx, kind, a):
    d = INST if kind == "pool_stable" else PERS
    inf = a[2]
    si = field(inf, "stake_init_info")
    cfg = ctx.must_succeed(X, "query_config")
    for n, m in (("total_fee_bps", "swap_fee_bps"), ("max_allowed_slippage_bps",) * 2, ("max_allowed_spread_bps",) * 2,
                 ("fee_recipient",) * 2):
        ctx.check(ctx.w.same(field(cfg, n), field(inf, m)), "pool: %s is the given one" % n)
    for n in ("total_fee_bps", "max_allowed_slippage_bps", "max_allowed_spread_bps"):
        v = fnum(cfg, n)
        ctx.check(E.cand(E.ge(v, 0), E.le(v, 10000)), "pool: %s is within 0..=100%%" % n)
    ctx.check(E.eq(ctx.get(X, key("admin"), d)[1], fnum(inf, "admin")), "pool: the administrator is the given one")
    ctx.check(E.le(fnum(inf, "swap_fee_bps"), a[-1][1]), "pool: the fee is within the given maximum")
    info = ctx.must_succeed(X, "query_pool_info")
    ctx.check(E.cand(E.eq(fnum(field(info, "asset_a"), "amount"), 0), E.eq(fnum(field(info, "asset_b"), "amount"), 0),
                     E.eq(fnum(field(info, "asset_lp_share"), "amount"), 0)), "pool: starts empty")
    ctx.check(ctx.w.same(field(cfg, "token_a"), addr(A)) and ctx.w.same(field(cfg, "token_b"), addr(B)), "pool: the tokens are the given ones")
    if kind == "pool_stable":
        ctx.check(E.cand(E.gt(a[7][1], 0), E.le(a[7][1], 1000000)), "stable pool: the amplification is within its range")
        p = ctx.get(X, key("amp"), INST)
        ctx.check(E.cand(E.eq(fnum(p, "init_amp"), E.scale(a[7][1], 100)), E.eq(fnum(p, "next_amp"), E.scale(a[7][1], 100))),
                  "stable pool: the amplification is the given one")
    # the stake contract of the pool
    s = num(field(cfg, "stake_contract")[1])
    q = field(ctx.must_succeed(s, "query_config"), "config")
    for n in ("min_bond", "min_reward", "manager", "max_complexity"):
        ctx.check(ctx.w.same(field(q, n), field(si, n)), "the pool's stake contract has the given %s" % n)
    ctx.check(ctx.w.same(field(q, "lp_token"), field(cfg, "share_token")), "the pool's stake contract holds the share token")
    ctx.check(ctx.w.same(field(q, "owner"), a[3]), "the pool's stake contract has the given owner")
    ctx.check(E.eq(ctx.must_succeed(s, "query_admin")[1], fnum(inf, "admin")), "the pool's stake contract has the given administrator")
    # the share token is the pool's
    h = num(field(cfg, "share_token")[1])
    ctx.check(ctx.w.same(ctx.get(h, vec(sym("Admin")), INST), addr(X)), "the share token is administered by the pool")
    return s


def i_stake(ctx, t, kind):
    return "initialize", [addr(ctx.addr(t + "admin")), addr(ctx.addr(t + "lp")), i128(ctx.i128(t + "min_bond")),
                          i128(ctx.i128(t + "min_reward")), addr(ctx.addr(t + "manager")), addr(ctx.addr(t + "owner")),
                          u32(ctx.u32(t + "complexity"))]


def c_stake(ctx, kind, a):
    q = field(ctx.must_succeed(X, "query_config"), "config")
    want = dict(lp_token=a[1], min_bond=a[2], min_reward=a[3], manager=a[4], owner=a[5], max_complexity=a[6])
    ctx.check(ctx.w.same(q, struct(**want)), "stake: the settings are the given ones")
    ctx.check(ctx.w.same(ctx.must_succeed(X, "query_admin"), a[0]), "stake: the administrator is the given one")
    ctx.check(E.cand(E.gt(a[2][1], 0), E.gt(a[3][1], 0), E.gt(a[6][1], 0)), "stake: settings out of range are rejected")
    ctx.check(E.eq(ctx.must_succeed(X, "query_total_staked")[1], 0), "stake: nothing is staked")


def i_stake_rewards(ctx, t, kind):
    return "initialize", [addr(ctx.addr(t + "admin")), addr(ctx.addr(t + "staking")), addr(ctx.addr(t + "token")),
                          u32(ctx.u32(t + "complexity")), i128(ctx.i128(t + "min_reward")), i128(ctx.i128(t + "min_bond"))]


def c_stake_rewards(ctx, kind, a):
    q = field(ctx.must_succeed(X, "query_config"), "config")
    want = dict(staking_contract=a[1], reward_token=a[2], max_complexity=a[3], min_reward=a[4], min_bond=a[5])
    ctx.check(ctx.w.same(q, struct(**want)), "stake rewards: the settings are the given ones")
    ctx.check(ctx.w.same(ctx.must_succeed(X, "query_admin"), a[0]), "stake rewards: the administrator is the given one")
    ctx.check(E.eq(ctx.must_succeed(X, "query_distributed_reward", a[2])[1], 0), "stake rewards: nothing is distributed")


def tinfo(ctx, t):
    return struct(name=string("T"), symbol=string("T"), decimals=u32(ctx.u32(t + "tdecimals")), address=addr(ctx.addr(t + "token")))


def i_vesting(ctx, t, kind):
    return "initialize", [addr(ctx.addr(t + "admin")), tinfo(ctx, t), u32(ctx.u32(t + "complexity"))]


def i_vesting_minter(ctx, t, kind):
    m = struct(address=addr(ctx.addr(t + "minter")), mint_capacity=("u128", ctx.int(t + "cap", 0, (1 << 128) - 1)))
    return "initialize_with_minter", i_vesting(ctx, t, kind)[1] + [m]


def c_vesting(ctx, kind, a):
    ctx.check(ctx.w.same(ctx.must_succeed(X, "query_token_info"), a[1]), "vesting: the token is the given one")
    ctx.check(ctx.w.same(ctx.get(X, ("u32", 1), PERS), a[0]), "vesting: the administrator is the given one")
    ctx.check(ctx.w.same(ctx.get(X, ("u32", 6), INST), a[2]), "vesting: the complexity is the given one")
    if len(a) > 3:
        ctx.check(ctx.w.same(ctx.must_succeed(X, "query_minter"), a[3]), "vesting: the minter is the given one")
    else:
        ctx.must_fail("vesting: there is no minter", X, "query_minter")


def i_trader(ctx, t, kind):
    return "initialize", [addr(ctx.addr(t + "admin")), string("trader"), vec(addr(ctx.addr(t + "a")), addr(ctx.addr(t + "b"))),
                          addr(ctx.addr(t + "out"))]


def c_trader(ctx, kind, a):
    for fn, v in (("query_admin_address", a[0]), ("query_contract_name", a[1]), ("query_trading_pairs", a[2])):
        ctx.check(ctx.w.same(ctx.must_succeed(X, fn), v), "trader: %s is the given one" % fn)
    ctx.check(ctx.w.same(ctx.get(X, ("u32", 3), PERS), a[3]), "trader: the output token is the given one")


def i_multihop(ctx, t, kind):
    return "initialize", [addr(ctx.addr(t + "admin")), addr(ctx.addr(t + "factory"))]


def c_multihop(ctx, kind, a):
    ctx.check(ctx.w.same(ctx.get(X, vec(sym("Admin")), INST), a[0]), "multihop: the administrator is the given one")
    ctx.check(ctx.w.same(ctx.get(X, vec(sym("FactoryKey")), INST), a[1]), "multihop: the factory is the given one")


def i_factory(ctx, t, kind):
    n = ctx.choice(t + "whitelisted", 3)
    return "initialize", [addr(ctx.addr(t + "admin"))] + [ctx.hash(x) for x in ("multihop", "pool", "pool_stable", "stake", "token")] + \
        [vec(*[addr(ctx.addr(t + "white%d" % i)) for i in range(n)]), u32(ctx.u32(t + "decimals"))]


def c_factory(ctx, kind, a):
    c = ctx.must_succeed(X, "get_config")
    mh = field(c, "multihop_address")
    want = dict(admin=a[0], multihop_address=mh, lp_wasm_hash=a[2], stake_wasm_hash=a[4], token_wasm_hash=a[5],
                whitelisted_accounts=a[6], lp_token_decimals=a[7])
    ctx.check(ctx.w.same(c, struct(**want)), "factory: the settings are the given ones")
    ctx.check(ctx.w.same(ctx.must_succeed(X, "get_admin"), a[0]), "factory: the administrator is the given one")
    ctx.check(len(a[6][1]) > 0, "factory: an empty whitelist is rejected")
    ctx.check(len(ctx.must_succeed(X, "query_pools")[1]) == 0, "factory: no pool is registered")
    m = num(mh[1])
    ctx.check(ctx.w.same(ctx.get(m, vec(sym("Admin")), INST), a[0]), "factory: the router has the given administrator")
    ctx.check(ctx.w.same(ctx.get(m, vec(sym("FactoryKey")), INST), addr(X)), "factory: the router uses this factory")
    return m


KINDS = {"pool": (i_pool, c_pool), "pool_stable": (i_pool, c_pool), "stake": (i_stake, c_stake),
         "stake_rewards": (i_stake_rewards, c_stake_rewards), "vesting": (i_vesting, c_vesting), "trader": (i_trader, c_trader),
         "multihop": (i_multihop, c_multihop), "factory": (i_factory, c_factory)}


def world(ctx, kind):
    ctx.w.now = ctx.u64("now", 0, (1 << 63) - 1)
    ctx.deployable([NEWP, NEWT, NEWS], "token", "stake", "multihop")
    ctx.deploy(X, kind)
    ctx.token(A, "A")
    ctx.token(B, "B")


def ops(ctx, kind, a):
    """state-changing calls after initialization: [(contract, function, arguments)]"""
    out = []
    who, n = ctx.addr("who"), ctx.i128("n")
    if kind in ("pool", "pool_stable"):
        none = [VOID] * 6
        out = [("update", [ctx.hash("token")]),
               ("update_config", ([addr(who)] if kind == "pool_stable" else []) + [addr(who)] + none[:4 if kind == "pool_stable" else 5])]
    elif kind == "stake":
        out = [("update", [ctx.hash("token")]), ("create_distribution_flow", [addr(who), addr(A)])]
    elif kind == "stake_rewards":
        out = [("update", [ctx.hash("token")])]
    elif kind == "vesting":
        out = [("update", [ctx.hash("token")]), ("update_minter", [addr(who), addr(who)])]
    elif kind == "multihop":
        out = [("update", [ctx.hash("token")])]
    elif kind == "factory":
        out = [("update", [ctx.hash("token"), ctx.hash("pool")]),
               ("update_whitelisted_accounts", [addr(who), vec(), a[6]]), ("update_wasm_hashes", [VOID, VOID, VOID])]
    return out


def once(ctx, kind, first, second, op=None):
    world(ctx, kind)
    fn, a = first(ctx, "", kind)
    ctx.call(X, fn, *a)
    if kind == "trader":
        ctx.check(ctx.authed(X, a[0][1]), "trader: the administrator authorizes the initialization")
    if op is None:
        sub = KINDS[kind][1](ctx, kind, a)
    else:
        f, b = ops(ctx, kind, a)[op]
        ctx.call(X, f, *b)
        sub = None
    fn, b = second(ctx, "again_", kind)
    ctx.must_fail("%s: a second initialization is rejected" % kind, X, fn, *b)
    if op is None:
        KINDS[kind][1](ctx, kind, a)
    if sub is not None:
        k = "multihop" if kind == "factory" else "stake"
        fn, b = KINDS[k][0](ctx, "sub_", k)
        ctx.must_fail("%s: what it deployed cannot be initialized again" % kind, sub, fn, *b)


def token(ctx):
    """the share token is set up by its constructor, and has no initializer"""
    ctx.w.now = ctx.u64("now", 0, (1 << 63) - 1)
    ctx.deploy(X, "token")
    a = [addr(ctx.addr("admin")), u32(ctx.u32("decimals")), string("T"), string("S")]
    if ctx.replay:
        return
    try:
        ctx.w.run_constructor = True
        ctx.call(X, "__constructor", *a)
    except Revert:
        raise
    ctx.check(E.le(a[1][1], 18), "token: decimals above 18 are rejected")
    for f, v in (("decimals", a[1]), ("name", a[2]), ("symbol", a[3])):
        ctx.check(ctx.w.same(ctx.must_succeed(X, f), v), "token: %s is the given one" % f)
    ctx.check(ctx.w.same(ctx.get(X, vec(sym("Admin")), INST), a[0]), "token: the administrator is the given one")
    ctx.must_fail("token: there is no initializer", X, "initialize", *a)


def scenarios(tier):
    out = {}
    for k, (i, _) in KINDS.items():
        out[k] = (once, {"kind": k, "first": i, "second": i})
        n = {"pool": 2, "pool_stable": 2, "stake": 2, "stake_rewards": 1, "vesting": 2, "multihop": 1, "factory": 3}.get(k, 0)
        for j in range(n):
            out["%s_op%d" % (k, j)] = (once, {"kind": k, "first": i, "second": i, "op": j})
    out["vesting_minter"] = (once, {"kind": "vesting", "first": i_vesting_minter, "second": i_vesting_minter})
    out["vesting_minter_plain"] = (once, {"kind": "vesting", "first": i_vesting_minter, "second": i_vesting})
    out["vesting_plain_minter"] = (once, {"kind": "vesting", "first": i_vesting, "second": i_vesting_minter})
    out["token"] = (token, {})
    return out
