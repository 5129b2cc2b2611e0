from .pools import *

CONTRACTS = ["pool", "pool_stable", "token", "stake"]
LEVEL = "model_checking"
BOUNDS = ("one call of either pool type in an arbitrary state whose settings are in range (inductive step), and the "
          "initialization with real token and stake contracts; every argument symbolic over its machine values, each "
          "optional argument given or omitted")
OUTSIDE = "what replaced code does"
NEWS, NEWT = 0x40, 0x41
FIELDS = ("total_fee_bps", "max_allowed_slippage_bps", "max_allowed_spread_bps")
FIXED = ("token_a", "token_b", "share_token", "stake_contract", "pool_type")


def inrange(x):
    return E.cand(E.ge(x, 0), E.le(x, 10000))


def slip_of(p):
    """the default slippage, wherever the pool type keeps it"""
    if p.kind == "pool":
        return p.ctx.get(POOL, sym("DSLIPBPS"), PERS)[1]
    return fnum(p.cfg(), "default_slippage_bps")


def admin_of(p):
    return p.ctx.get(POOL, key("admin"), p.d)[1]


def names(p):
    return FIELDS + (("max_referral_bps",) if p.kind == "pool" else ())


def safe(ctx, p):
    c = p.cfg()
    for n in names(p):
        ctx.check(inrange(fnum(c, n)), "%s stays within 0..=100%%" % n)
    ctx.check(inrange(slip_of(p)), "the default slippage stays within 0..=100%")


def setup(ctx, kind, **kw):
    p = Pool(ctx, kind, **kw)
    for a in ("na", "nr"):
        x = ctx.addr({"na": "new_admin", "nr": "new_recipient"}[a])
        setattr(p, a, x)
    return p


def update(ctx, kind):
    p = setup(ctx, kind)
    before = p.cfg()
    given = {}

    def opt(name, v):
        if ctx.flag("give_" + name):
            given[name] = v
            return v
        return VOID
    args = [opt("admin", addr(p.na)), opt("total_fee_bps", i64(ctx.i64("new_fee"))), opt("fee_recipient", addr(p.nr)),
            opt("max_allowed_slippage_bps", i64(ctx.i64("new_slip"))), opt("max_allowed_spread_bps", i64(ctx.i64("new_spread")))]
    if kind == "pool":
        args.append(opt("max_referral_bps", i64(ctx.i64("new_ref"))))
    else:
        args = [addr(p.sender)] + args
    s0 = slip_of(p)
    ctx.call(POOL, "update_config", *args)
    ctx.check(ctx.authed(POOL, p.admin), "the configuration changes only with the administrator's authorization")
    c = p.cfg()
    for n in names(p) + ("fee_recipient",):
        ctx.check(E.eq(fnum(c, n), given[n][1] if n in given else fnum(before, n)),
                  "%s is the given one, or kept" % n)
    ctx.check(E.eq(admin_of(p), given["admin"][1] if "admin" in given else p.admin), "the administrator is the given one, or kept")
    ctx.check(E.eq(slip_of(p), s0), "the default slippage is kept")
    for n in FIXED:
        ctx.check(ctx.w.same(field(c, n), field(before, n)), "%s never changes" % n)
    safe(ctx, p)
    ra, rb, tot = p.post()
    ctx.check(E.cand(E.eq(ra, p.ra), E.eq(rb, p.rb), E.eq(tot, p.total)), "an update leaves the pool's books alone")


def replace(ctx, kind, fn):
    """code replacement"""
    p = setup(ctx, kind)
    cfg = p.cfg()
    s0 = slip_of(p)
    h = ctx.hash("token")
    args = [h]
    if fn == "upgrade" and kind == "pool":
        x = ctx.i64("new_default_slippage")
        args.append(i64(x))
    ctx.call(POOL, fn, *args)
    ctx.check(ctx.authed(POOL, p.admin), "the code is replaced only with the administrator's authorization")
    ctx.check(ctx.w.same(p.cfg(), cfg), "replacing the code keeps the configuration")
    ctx.check(E.eq(admin_of(p), p.admin), "replacing the code keeps the administrator")
    ctx.check(E.eq(slip_of(p), x if len(args) > 1 else s0), "the default slippage is the given one, or kept")
    safe(ctx, p)


def others(ctx, kind, fn):
    """no other call touches the configuration, whoever makes it"""
    p = setup(ctx, kind)
    if kind == "pool_stable":
        ctx.path.abstract = True
        ctx.path.loop_bound = 2
    cfg, s0 = p.cfg(), slip_of(p)
    n = ctx.i128("n")
    if fn == "swap":
        ctx.call(POOL, fn, addr(p.sender), addr(ctx.addr("offer_asset")), i128(n), VOID, ctx.opt("spread", i64(ctx.i64("spread"))),
                 VOID, ctx.opt("max_fee", i64(ctx.i64("max_fee"))))
    elif fn == "withdraw_liquidity":
        ctx.call(POOL, fn, addr(p.sender), i128(n), i128(1), i128(1), VOID)
    else:
        m = ctx.i128("m")
        slip = ctx.opt("slippage", i64(ctx.i64("slippage")))
        if kind == "pool":
            ctx.call(POOL, fn, addr(p.sender), i128(n), VOID, i128(m), VOID, slip, VOID)
        else:
            ctx.call(POOL, fn, addr(p.sender), i128(n), i128(m), slip, VOID, VOID)
    ctx.check(ctx.w.same(p.cfg(), cfg), "the configuration is unchanged by %s" % fn)
    ctx.check(E.eq(admin_of(p), p.admin), "the administrator is unchanged by %s" % fn)
    ctx.check(E.eq(slip_of(p), s0), "the default slippage is unchanged by %s" % fn)


def initial(ctx, kind):
    p = Pool.__new__(Pool)
    p.ctx, p.kind, p.d = ctx, kind, INST if kind == "pool_stable" else PERS
    ctx.w.now = ctx.u64("now")
    ctx.deployable([NEWT, NEWS], "token", "stake")
    ctx.deploy(POOL, kind)
    ctx.token(A, "A")
    ctx.token(B, "B")
    v = {n: ctx.i64(n) for n in ("swap_fee_bps", "max_allowed_slippage_bps", "default_slippage_bps",
                                 "max_allowed_spread_bps", "max_referral_bps")}
    ad, rec, man, fac = ctx.addr("admin"), ctx.addr("recipient"), ctx.addr("manager"), ctx.addr("factory")
    ta, tb = ((A, B), (B, A))[ctx.choice("order", 2)]
    info = struct(admin=addr(ad), fee_recipient=addr(rec), token_init_info=struct(token_a=addr(ta), token_b=addr(tb)),
                  stake_init_info=struct(min_bond=i128(ctx.i128("min_bond")), min_reward=i128(ctx.i128("min_reward")),
                                         manager=addr(man), max_complexity=u32(ctx.u32("complexity"))),
                  **{k: i64(x) for k, x in v.items()})
    maxfee = ctx.i64("max_allowed_fee")
    a = [ctx.hash("stake"), ctx.hash("token"), info, addr(fac)]
    if kind == "pool":
        dslip = ctx.i64("default_slippage")
        a += [u32(ctx.u32("decimals")), string("LP"), string("LP"), i64(dslip), i64(maxfee)]
    else:
        dslip = v["default_slippage_bps"]
        a += [u32(ctx.u32("decimals")), string("LP"), string("LP"), u64(ctx.u64("amp")), i64(maxfee)]
    ctx.call(POOL, "initialize", *a)
    safe(ctx, p)
    c = p.cfg()
    want = dict(total_fee_bps=v["swap_fee_bps"], max_allowed_slippage_bps=v["max_allowed_slippage_bps"],
                max_allowed_spread_bps=v["max_allowed_spread_bps"])
    if kind == "pool":
        want["max_referral_bps"] = v["max_referral_bps"]
    for n, x in want.items():
        ctx.check(E.eq(fnum(c, n), x), "%s is the given one" % n)
    ctx.check(E.eq(slip_of(p), dslip), "the default slippage is the given one")
    ctx.check(E.eq(admin_of(p), ad), "the administrator is the given one")
    ctx.check(E.eq(fnum(c, "fee_recipient"), rec), "the fee recipient is the given one")
    ctx.check(ctx.w.same(field(c, "token_a"), addr(ta)) and ctx.w.same(field(c, "token_b"), addr(tb)), "the tokens are the given ones")
    ctx.check(E.le(v["swap_fee_bps"], maxfee), "the fee is within the allowed maximum")


def scenarios(tier):
    out = {}
    for k, n in (("pool", "xyk"), ("pool_stable", "stable")):
        out[n + "_update_config"] = (update, {"kind": k})
        out[n + "_initialize"] = (initial, {"kind": k})
        for fn in ("upgrade", "update"):
            out[n + "_" + fn] = (replace, {"kind": k, "fn": fn})
        for fn in ("swap", "withdraw_liquidity", "provide_liquidity"):
            out[n + "_" + fn] = (others, {"kind": k, "fn": fn})
    return out
