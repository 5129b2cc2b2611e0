from .vst import *

CONTRACTS = ["vesting"]
LEVEL = "model_checking"
BOUNDS = ("one call (two for repeated mints) in an arbitrary state by an arbitrary caller, all amounts and capacities over their "
          "full ranges; with and without a configured minter")
OUTSIDE = "tokens that do not follow SEP-41"
U128MAX = (1 << 128) - 1


def minter(ctx, s):
    m = ctx.get(VEST, key("minter"), INST)
    return field(m, "address")[1], fnum(m, "mint_capacity")


def mint(ctx):
    s = Vst(ctx)
    who, n = ctx.addr("caller"), ctx.i128("amount")
    for k in SELF:
        ctx.assume(E.ne(who, k))
    w0 = s.tok.balance(who)
    cap0 = s.cap
    ctx.call(VEST, "mint", addr(who), i128(n))
    ctx.check(ctx.authed(VEST, who), "minting is authorized by the caller")
    ctx.check(E.eq(who, s.minter), "only the minter mints")
    ctx.check(E.gt(n, 0), "only positive amounts are minted")
    ctx.check(E.le(n, s.cap), "minting never exceeds the remaining capacity")
    a, cap = minter(ctx, s)
    ctx.check(E.eq(cap, E.sub(s.cap, n)), "minting lowers the capacity by the minted amount")
    ctx.check(E.eq(a, s.minter), "minting keeps the minter")
    ctx.check(E.eq(E.sub(s.tok.balance(VEST), s.held), n), "exactly the amount is minted")
    ctx.check(E.eq(s.tok.balance(who), w0), "the minter receives nothing")
    s.same_rest("mint", minter=False)
    m = ctx.int("second", 1, (1 << 127) - 1)
    try:
        ctx.call(VEST, "mint", addr(s.minter), i128(m))
    except Revert:
        return
    ctx.check(E.le(E.add(n, m), cap0), "all mints together stay within the capacity")


def nominter(ctx, fn):
    s = Vst(ctx, minter=False)
    who = ctx.addr("caller")
    if fn == "mint":
        ctx.must_fail("nothing is minted without a minter", VEST, "mint", addr(who), i128(ctx.i128("amount")))
    elif fn == "capacity":
        ctx.must_fail("no capacity without a minter", VEST, "update_minter_capacity", addr(who), u128(ctx.int("cap2", 0, U128MAX)))
    else:
        new = ctx.addr("new")
        ctx.call(VEST, "update_minter", addr(who), addr(new))
        ctx.check(ctx.authed(VEST, s.admin), "the first minter is set by the administrator")
        ctx.check(E.eq(who, s.admin), "only the administrator sets the first minter")
        a, cap = minter(ctx, s)
        ctx.check(E.cand(E.eq(a, new), E.eq(cap, 0)), "a new minter starts without capacity")
        s.same_rest("update_minter", minter=False)


def role(ctx):
    s = Vst(ctx)
    who, new = ctx.addr("caller"), ctx.addr("new")
    ctx.call(VEST, "update_minter", addr(who), addr(new))
    ctx.check(E.cor(ctx.authed(VEST, s.minter), ctx.authed(VEST, s.admin)), "the minter changes with the minter's or the administrator's authorization")
    a, cap = minter(ctx, s)
    ctx.check(E.eq(a, new), "the minter becomes the given account")
    ctx.check(E.eq(cap, s.cap), "the capacity is kept")
    s.same_rest("update_minter", minter=False)


def capacity(ctx):
    s = Vst(ctx)
    who, n = ctx.addr("caller"), ctx.int("cap2", 0, U128MAX)
    ctx.call(VEST, "update_minter_capacity", addr(who), u128(n))
    ctx.check(ctx.authed(VEST, s.admin), "the capacity changes with the administrator's authorization")
    a, cap = minter(ctx, s)
    ctx.check(E.eq(cap, n), "the capacity becomes the given one")
    ctx.check(E.eq(a, s.minter), "the minter is kept")
    q = ctx.must_succeed(VEST, "query_minter")
    ctx.check(ctx.w.same(q, struct(address=addr(s.minter), mint_capacity=u128(n))), "the query reports minter and capacity")
    s.same_rest("update_minter_capacity", minter=False)


def burn(ctx):
    s = Vst(ctx)
    who, n = ctx.addr("caller"), ctx.int("amount", 0, U128MAX)
    for k in SELF + (s.other,):
        ctx.assume(E.ne(who, k))
    w0, o0 = s.tok.balance(who), s.tok.balance(s.other)
    ctx.call(VEST, "burn", addr(who), u128(n))
    ctx.check(ctx.authed(VEST, who), "burning is authorized by the burner")
    ctx.check(E.gt(n, 0), "only positive amounts are burned")
    ctx.check(E.eq(E.sub(w0, s.tok.balance(who)), n), "exactly the stated amount of the burner is burned")
    ctx.check(E.eq(s.tok.balance(s.other), o0), "nobody else's tokens are burned")
    ctx.check(E.eq(s.tok.balance(VEST), s.held), "no vested tokens are burned")
    s.same_rest("burn")


def kept(ctx, fn):
    s = Vst(ctx, ["sat"])
    if fn == "claim":
        ctx.call(VEST, "claim", addr(s.user), u64(0))
    elif fn == "update":
        ctx.call(VEST, "update", ctx.hash("vesting"))
    else:
        c = Curve(ctx, "sat", "n")
        ctx.call(VEST, "create_vesting_schedules", vec(struct(recipient=addr(ctx.addr("r")), curve=c.val)))
    a, cap = minter(ctx, s)
    ctx.check(E.cand(E.eq(a, s.minter), E.eq(cap, s.cap)), "%s keeps minter and capacity" % fn)


def scenarios(tier):
    out = {"mint": (mint, {}), "role": (role, {}), "capacity": (capacity, {}), "burn": (burn, {})}
    for fn in ("mint", "capacity", "update_minter"):
        out["nominter_" + fn] = (nominter, {"fn": fn})
    for fn in ("claim", "update", "create"):
        out["kept_" + fn] = (kept, {"fn": fn})
    return out
