"""Queries tell what is recorded, are never refused to anybody, and change nothing."""
from .pools import *
from . import stk, vst, p16, p20, p21, p22
from .stk import Stk, info
from .vst import u128

CONTRACTS = ["token", "pool", "pool_stable", "stake", "stake_rewards", "vesting", "trader", "multihop", "factory"]
LEVEL = "model_checking"
BOUNDS = ("each query in an arbitrary state of its contract: accounts with 0 to 6 recorded stakes, 0 to 9 vesting schedules, "
          "factories with 0 to 4 (thorough: 6) pools; the portfolio over pools, share tokens and staking contracts that answer "
          "arbitrarily, and end to end over a real pool of either kind and a real staking contract (reserves and shares up to 10^18 "
          "units)")
OUTSIDE = ("lifetimes of entries, which queries extend; the annualized reward of the rewards contract (its text is not "
           "interpreted); longer records")
FAC = p22.FAC
NOINFO = info([], P(0), P(0), P(0))


class Frozen:
    """everything recorded before a call"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.before = {}
        for x, c in ctx.w.contracts.items():
            if c.model is None:
                self.before[x] = [tuple(e) for e in c.storage]
            elif c.model.kind == "token":
                self.before[x] = [(b[0], b[1]) for b in c.model.bal]

    def check(self, what):
        c = self.ctx
        c.check(set(c.w.contracts) >= set(self.before) and not c.w.auths, "%s needs nobody's authorization" % what)
        for x, es in self.before.items():
            k = c.w.contracts[x]
            if k.model is None:
                c.check(sum(e[2] is not None for e in k.storage) == sum(e[2] is not None for e in es),
                        "%s adds and removes no entries" % what)
                for key, dur, v in es:
                    if v is not None:
                        c.check(c.w.same(c.get(x, key, dur), v), "%s changes no entry" % what)
            else:
                for a, v in es:
                    c.check(E.eq(k.model.balance(a), v), "%s moves no tokens" % what)


def ask(ctx, a, fn, args, want, possible=True):
    f = Frozen(ctx)
    r = (ctx.must_succeed if possible else ctx.call)(a, fn, *args)
    if want is not None:
        ctx.check(ctx.w.same(r, want), "%s reports what is recorded" % fn)
    f.check(fn)
    return r


def stake(ctx, nst, tokens=(stk.R0, stk.R1)):
    s = Stk(ctx, nst, nd=1 if nst and nst < 3 else 0, tokens=tokens)
    q = ctx.choice("query", 4)
    if q == 0:
        ask(ctx, stk.STK, "query_config", (), struct(config=s.config))
    elif q == 1:
        ask(ctx, stk.STK, "query_admin", (), addr(s.admin))
    elif q == 2:
        ask(ctx, stk.STK, "query_total_staked", (), i128(s.total))
    else:
        who = ctx.addr("account")
        mine = s.mine if nst is not None else NOINFO
        i = mine if ctx.branch(E.eq(who, s.sender)) else s.otherinfo if ctx.branch(E.eq(who, s.other)) else NOINFO
        for k in stk.SELF + (s.admin, s.manager, s.owner):
            ctx.assume(E.ne(who, k))
        ask(ctx, stk.STK, "query_staked", (addr(who),),
            struct(stakes=field(i, "stakes"), total_stake=field(i, "total_stake"), last_reward_time=field(i, "last_reward_time")))


def withdrawable(ctx, nst, nd):
    s = Stk(ctx, nst, nd=nd)
    s.consistent()
    ask(ctx, stk.STK, "query_withdrawable_rewards", (addr(s.sender),), None)


def rewards(ctx):
    s = p16.Rw(ctx, "const", 1)
    q = ctx.choice("query", 5)
    t = addr(p16.TOK)
    if q == 0:
        ask(ctx, p16.RW, "query_config", (), struct(config=s.config))
    elif q == 1:
        ask(ctx, p16.RW, "query_admin", (), addr(s.admin))
    elif q == 2:
        ask(ctx, p16.RW, "query_distributed_reward", (t,), u128(s.dist))
    elif q == 3:
        # what was paid in and is not yet withdrawn is held
        ctx.assume(E.le(s.wdr, s.held))
        ask(ctx, p16.RW, "query_undistributed_reward", (t,), u128(E.sub(s.held, s.wdr)))
    else:
        ask(ctx, p16.RW, "query_withdrawable_reward", (addr(s.user), s.info), None, possible=False)


def vesting(ctx, n, minter):
    s = vst.Vst(ctx, ["sat"] * n, minter=minter)
    for cv, bal, inf in s.mine[2:]:
        # (small and large amounts are passed differently: both for the first two schedules, large for the others)
        ctx.assume(E.cand(E.ge(bal, 1 << 66), E.ge(cv.points[0][1], 1 << 66)))
    q = ctx.choice("query", 7)
    V = vst.VEST
    if q == 0:
        ask(ctx, V, "query_token_info", (), s.token)
    elif q == 1:
        ask(ctx, V, "query_vesting_contract_balance", (), i128(s.held))
    elif q == 2:
        who = ctx.addr("account")
        ask(ctx, V, "query_balance", (addr(who),), i128(s.tok.balance(who)))
    elif q == 3:
        if minter:
            ask(ctx, V, "query_minter", (), struct(address=addr(s.minter), mint_capacity=u128(s.cap)))
        else:
            ctx.must_fail("without a minter none is reported", V, "query_minter")
    elif q == 4:
        ask(ctx, V, "query_all_vesting_info", (addr(s.user),), vec(*[x[2] for x in s.mine]))
        ask(ctx, V, "query_all_vesting_info", (addr(s.other),), vec(*[x[2] for x in s.theirs]))
    elif q == 5:
        for i, (cv, bal, inf) in enumerate(s.mine):
            ask(ctx, V, "query_vesting_info", (addr(s.user), u64(i)), inf)
        ctx.must_fail("a missing schedule is not reported", V, "query_vesting_info", addr(s.user), u64(n))
    else:
        if not n:
            return
        cv, bal, inf = s.mine[n - 1]
        locked = cv.at(ctx.w.now)
        ctx.assume(E.ge(bal, locked))
        ask(ctx, V, "query_available_to_claim", (addr(s.user), u64(n - 1)), i128(E.sub(bal, locked)))


def pool(ctx, kind):
    p = Pool(ctx, kind)
    asset = lambda a, n: struct(address=addr(a), amount=i128(n))
    inf = struct(asset_a=asset(A, p.ra), asset_b=asset(B, p.rb), asset_lp_share=asset(SHARE, p.total), stake_address=addr(STAKE))
    want = [("query_config", p.config), ("query_share_token_address", addr(SHARE)), ("query_stake_contract_address", addr(STAKE)),
            ("query_pool_info", inf), ("query_total_issued_lp", i128(p.total)),
            ("query_pool_info_for_factory", struct(pool_address=addr(POOL), pool_response=inf, total_fee_bps=i64(p.fee)))]
    fn, v = want[ctx.choice("query", len(want))]
    ask(ctx, POOL, fn, (), v)


def trader(ctx):
    s = p21.Trader(ctx)
    for k in s.tok.values():
        k.decimals = P(ctx.choice("decimals", 3) + 6)
    h = s.held()
    T = ("str", b"TOK")
    a = lambda t: struct(symbol=T, amount=i128(h[t]))
    want = (("query_balances", struct(output_token=a(p21.OUT), token_a=a(A), token_b=a(B))),
            ("query_trading_pairs", vec(addr(A), addr(B))), ("query_admin_address", addr(s.admin)),
            ("query_contract_name", p21.NAME),
            ("query_output_token_info", struct(address=addr(p21.OUT), name=T, symbol=T,
                                               decimal=u32(s.tok[p21.OUT].decimals))))
    fn, v = want[ctx.choice("query", len(want))]
    ask(ctx, p21.TR, fn, (), v)


def factory(ctx):
    f = p22.Fac(ctx, 3, 3)
    want = (("get_admin", addr(f.admin)), ("get_config", f.config), ("query_pools", vec(*[addr(x) for x in f.lps])))
    fn, v = want[ctx.choice("query", 3)]
    ask(ctx, FAC, fn, (), v)


def asset(a, n):
    return struct(address=addr(a), amount=i128(n))


class Pools:
    """n registered pools whose answers are arbitrary"""

    def __init__(self, ctx, n):
        self.f = p22.Fac(ctx, n, 1, others=False)
        self.rows = []
        for i in range(n):
            lp, st, sh = 0x70 + i, 0x80 + i, 0x90 + i
            row = dict(lp=lp, st=st, sh=sh, fee=ctx.i64("fee%d" % i), bal=ctx.i128("wallet%d" % i, 0, 1 << 100),
                       a=ctx.addr("token_a%d" % i), b=ctx.addr("token_b%d" % i), total=ctx.i128("total%d" % i),
                       ra=ctx.i128("ra%d" % i), rb=ctx.i128("rb%d" % i), xa=ctx.i128("xa%d" % i), xb=ctx.i128("xb%d" % i),
                       asked=[], pairs=[])
            k = ctx.choice("stakes%d" % i, 3)
            row["stakes"] = [(ctx.i128("st%d_%d" % (i, j), 1, 1 << 100), ctx.u64("ts%d_%d" % (i, j))) for j in range(k)]
            sum_ = P(0)
            for x, _ in row["stakes"]:
                sum_ = E.add(sum_, x)
            row["staked"] = sum_
            row["info"] = struct(
                pool_address=addr(lp), total_fee_bps=i64(row["fee"]),
                pool_response=struct(asset_a=asset(row["a"], row["ra"]), asset_b=asset(row["b"], row["rb"]),
                                     asset_lp_share=asset(sh, row["total"]), stake_address=addr(st)))
            row["list"] = vec(*[struct(stake=i128(x), stake_timestamp=u64(t)) for x, t in row["stakes"]])
            self.rows.append(row)
            self.add(ctx, row)

    def add(self, ctx, row):
        def lp(ctx, fn, args):
            if fn == "query_pool_info_for_factory":
                return row["info"], []
            if fn == "query_share":
                row["asked"].append(args[0][1])
                return vec(asset(row["a"], row["xa"]), asset(row["b"], row["xb"])), []
            return None

        def st(ctx, fn, args):
            if fn != "query_staked":
                return None
            row["pairs"].append(args[0][1])
            return struct(stakes=row["list"], total_stake=i128(row["staked"]), last_reward_time=u64(P(0))), []

        def sh(ctx, fn, args):
            if fn != "balance":
                return None
            row["pairs"].append(args[0][1])
            return i128(row["bal"]), []
        ctx.script(row["lp"], "lp", lp)
        ctx.script(row["st"], "st", st)
        ctx.script(row["sh"], "sh", sh)


def details(ctx, n):
    w = Pools(ctx, n)
    ask(ctx, FAC, "query_pools", (), vec(*[addr(r["lp"]) for r in w.rows]))
    ask(ctx, FAC, "query_all_pools_details", (), vec(*[r["info"] for r in w.rows]))
    for r in w.rows:
        ask(ctx, FAC, "query_pool_details", (addr(r["lp"]),), r["info"])


def portfolio(ctx, n, staking):
    w = Pools(ctx, n)
    who = ctx.addr("account")
    f = Frozen(ctx)
    r = ctx.must_succeed(FAC, "query_user_portfolio", addr(who), boolean(staking))
    f.check("the portfolio")
    lps, sts = [], []
    for x in w.rows:
        own = E.add(x["bal"], x["staked"])
        for y in x["pairs"]:
            ctx.check(E.eq(y, who), "the portfolio is that of the given account")
        if ctx.branch(E.gt(own, 0)):
            ctx.check(len(x["asked"]) > 0 or bool(ctx.replay), "the shares are valued by their pool")
            for y in x["asked"]:
                ctx.check(E.eq(y, own), "all shares of the account, in its wallet or staked, are valued")
            lps.append(struct(assets=vec(asset(x["a"], x["xa"]), asset(x["b"], x["xb"]))))
        if staking and x["stakes"]:
            sts.append(struct(staking_contract=addr(x["st"]), stakes=x["list"]))
    ctx.check(ctx.w.same(r, struct(lp_portfolio=vec(*lps), stake_portfolio=vec(*sts))),
              "the portfolio lists every position of the account, and nothing else")


def real(ctx, kind, nst):
    """a real factory, pool and staking contract"""
    p = Pool(ctx, kind, maxamt=10 ** 18)
    f = p22.Fac(ctx, 0, 1, others=False)
    ctx.w.contracts[FAC].storage = [[k, d, vec(addr(POOL)) if k == p22.fkey("lps") else v]
                                    for k, d, v in ctx.w.contracts[FAC].storage]
    ctx.w.contracts[FAC].initial = [list(e) for e in ctx.w.contracts[FAC].storage]
    who = ctx.addr("account")
    for k in CONTRACT_ADDRS + (FAC,):
        ctx.assume(E.ne(who, k))
    stakes = [(ctx.i128("stake%d" % i, 1, 10 ** 18), ctx.u64("stime%d" % i)) for i in range(nst)]
    tot = P(0)
    for x, _ in stakes:
        tot = E.add(tot, x)
    own = E.add(p.ts.balance(who), tot)
    # staked shares are held by the staking contract
    ctx.assume(E.le(tot, p.ts.balance(STAKE)))
    ctx.deploy(STAKE, "stake", [(PERS, addr(who), info(stakes, P(0), P(0), tot)), (INST, stk.key("init"), boolean(True))]
               if nst else [(INST, stk.key("init"), boolean(True))])
    q = ctx.must_succeed(POOL, "query_share", i128(own))
    r = ask(ctx, FAC, "query_user_portfolio", (addr(who), boolean(True)), None)
    lps = [struct(assets=q)] if ctx.branch(E.gt(own, 0)) else []
    sts = [struct(staking_contract=addr(STAKE), stakes=field(info(stakes, P(0), P(0), tot), "stakes"))] if nst else []
    ctx.check(ctx.w.same(r, struct(lp_portfolio=vec(*lps), stake_portfolio=vec(*sts))), "the portfolio is the account's position")


def scenarios(tier):
    big = tier != "quick"
    out = {"trader": (trader, {}), "factory": (factory, {}), "rewards": (rewards, {}), "pool_xyk": (pool, {"kind": "pool"}), "pool_stable": (pool, {"kind": "pool_stable"}),
           "stake_new": (stake, {"nst": None}), "withdrawable11": (withdrawable, {"nst": 1, "nd": 1}),
           "withdrawable21": (withdrawable, {"nst": 2, "nd": 1})}
    for n in (0, 1, 2, 6):
        out["stake%d" % n] = (stake, {"nst": n})
    for n in (0, 1, 2, 4, 9) + ((12,) if big else ()):
        out["vesting%d" % n] = (vesting, {"n": n, "minter": n != 1})
    for n in (0, 1, 2, 4) + ((6,) if big else ()):
        out["details%d" % n] = (details, {"n": n})
    for n in (0, 1, 2) + ((3,) if big else ()):
        for s in (True, False):
            out["portfolio%d_%s" % (n, s)] = (portfolio, {"n": n, "staking": s})
    for k in ("pool", "pool_stable"):
        for n in (0, 1, 2):
            out["real_%s%d" % (k, n)] = (real, {"kind": k, "nst": n})
    return out
