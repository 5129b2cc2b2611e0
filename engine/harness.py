"""Scenario context: the same harness code runs symbolically (engine) and concretely (real host, for replay)."""
import json
import os
import subprocess
import time
from . import build, expr as E, portfolio, xdr
from .expr import P, Poly, Cond
from .host import World, Contract, VOID, num, veq
from .path import Path, Revert, Prune, EngineError, Inconclusive, Stats
from .tokens import Token, Script

I128MAX = (1 << 127) - 1
I128MIN = -(1 << 127)
U64MAX = (1 << 64) - 1
TEMP, PERS, INST = 0, 1, 2

# ------------------------------------------------------------------ value constructors
def i128(n):
    return ("i128", n)


def u64(n):
    return ("u64", n)


def i64(n):
    return ("i64", n)


def u32(n):
    return ("u32", n)


def addr(n):
    return ("addr", n)


def sym(s):
    return ("sym", s)


def string(s):
    return ("str", s.encode())


def byts(b):
    return ("bytes", tuple(b))


def vec(*xs):
    return ("vec", tuple(xs))


def boolean(b):
    return ("bool", b)


def struct(**kw):
    """a #[contracttype] struct: a map sorted by field name"""
    return ("map", tuple((sym(k), kw[k]) for k in sorted(kw)))


def enum(name, *xs):
    return ("vec", (sym(name),) + xs)


def field(v, name):
    if v is None or v[0] != "map":
        raise EngineError("not a struct: %r" % (v,))
    for k, x in v[1]:
        if k == sym(name):
            return x
    raise EngineError("no field %s" % name)


def fnum(v, name):
    return field(v, name)[1]


KNOWN = set()


class Done(Exception):
    pass


class ConcretePath(Path):
    """Replay: every value comes from the model, nothing is symbolic."""
    abstract = property(lambda self: False, lambda self, v: None)
    havoc = property(lambda self: False, lambda self, v: None)
    loop_bound = property(lambda self: 1 << 30, lambda self, v: None)

    def __init__(self, model):
        super().__init__()
        self.cmodel = model

    def fresh(self, name, lo=None, hi=None):
        n = self.nfresh.get(name, 0)
        self.nfresh[name] = n + 1
        nm = name if n == 0 else "%s#%d" % (name, n)
        v = self.cmodel.get(nm)
        if v is None:
            v = lo if lo is not None else 0
            if lo is not None and lo < 0:
                v = 0
        return P(v)

    def branch(self, c):
        if not isinstance(c, bool):
            raise EngineError("symbolic branch in a replay")
        return c

    def assume(self, c):
        if c is False:
            raise Prune("assumption does not hold in the replay")
        if c is not True:
            raise EngineError("symbolic assumption in a replay")

    def feasible(self, c):
        return c

    def valid(self, c, timeout=None):
        return c


class Ctx:
    def __init__(self, scenario, path, loaded, built, replay=None):
        self.scenario, self.path, self.loaded, self.built = scenario, path, loaded, built
        self.replay = replay                # a Native, or None
        self.w = World(path)
        self.w.now = 0
        path.on_trap = self.on_trap
        self.viol = []
        self.incon = []
        self.proving = False
        self.trace = []
        self.mismatch = []
        self.ncalls = 0
        self.checked = 0
        self.known = None

    # -------------------------------------------------------- inputs
    def int(self, name, lo, hi):
        return self.path.fresh(name, lo, hi)

    def i128(self, name, lo=I128MIN, hi=I128MAX):
        return self.path.fresh(name, lo, hi)

    def u64(self, name, lo=0, hi=U64MAX):
        return self.path.fresh(name, lo, hi)

    def u32(self, name, lo=0, hi=(1 << 32) - 1):
        return self.path.fresh(name, lo, hi)

    def i64(self, name, lo=-(1 << 63), hi=(1 << 63) - 1):
        return self.path.fresh(name, lo, hi)

    def addr(self, name):
        """an arbitrary address (may coincide with any other)"""
        return self.path.fresh(name, 1, 1 << 40)

    def choice(self, name, n):
        """a free choice among n cases (forks)"""
        v = self.path.fresh("choice_" + name, 0, n - 1)
        for j in range(n - 1):
            c = E.eq(v, j)
            if c is True or (c is not False and self.path.branch(c)):
                return j
        return n - 1

    def opt(self, name, v):
        """Option<V>: forks into void and v"""
        return v if self.choice("some_" + name, 2) == 0 else VOID

    def flag(self, name):
        return self.choice(name, 2) == 1

    def now(self, t):
        self.w.now = t

    # -------------------------------------------------------- world
    def deploy(self, a, contract, storage=(), default=None):
        c = Contract(a, contract, loaded=self.loaded[contract])
        c.storage = [[k, d, v] for d, k, v in storage]
        c.initial = [[k, d, v] for d, k, v in storage]
        c.default = default
        c.wasm = contract
        self.w.contracts[a] = c
        return c

    def token(self, a, name, **kw):
        t = Token(self, name, **kw)
        self.w.contracts[a] = Contract(a, name, model=t)
        return t

    def deployable(self, addrs, *names):
        """contracts deployed by the code under test are the real ones (by the hash of their wasm); each gets the next
        of `addrs`"""
        left = list(addrs)
        want = {self.built[n]["hash"]: n for n in names}

        def hook(w, h, salt, args):
            hh = bytes(num(x) for x in h[1]).hex()
            if hh not in want:
                raise Revert("deployment of an unknown code hash")
            for _, _, salt0, _, d0 in w.deployed:
                if w.same(addr(d0), addr(w.deployer)) and saltsame(w, salt0, salt):
                    raise Revert("the address of the new contract is taken")
            a = left.pop(0)
            nm = want[hh]
            c = self.deploy(a, nm)
            w.deployed.append((a, nm, salt, args, w.deployer))
            if "__constructor" in self.loaded[nm].m.fns:
                w.stack.append(a)
                try:
                    w.run(c, "__constructor", args)
                finally:
                    w.stack.pop()
            return addr(a)
        self.w.deploy_hook = hook

    def hash(self, name):
        """the code hash of a contract built from the tree, as a BytesN<32>"""
        return byts(bytes.fromhex(self.built[name]["hash"]))

    def script(self, a, name, fn):
        s = Script(self, name, fn)
        self.w.contracts[a] = Contract(a, name, model=s)
        return s

    def get(self, a, key, dur):
        return self.w.sget(self.w.contracts[a], key, dur)

    # -------------------------------------------------------- conditions
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Prune("assume false")
            return
        self.path.assume(c)

    def branch(self, c):
        return c if isinstance(c, bool) else self.path.branch(c)

    def mono(self, a, b, c):
        """lemma: a <= b and c >= 0 give a*c <= b*c (instantiated only when both sides are known)"""
        if self.replay:
            return
        if self.path.valid(E.cand(E.le(a, b), E.ge(c, 0)), 5) is True:
            self.path.assume(E.le(E.mul(a, c), E.mul(b, c)))

    def shrink(self, p):
        """lemma: floor(u*v/k) <= u where 0 <= v <= k and u >= 0, for the quotients in p (instantiated only when both are known)"""
        if self.replay:
            return
        for a in E.atoms_of(p).values():
            if a.kind != "fdiv" or len(a.args[0].t) != 1:
                continue
            (m, k), = a.args[0].t.items()
            for i in range(len(m)):
                u = E.mk({(m[i],): 1})
                v = E.mk({m[:i] + m[i + 1:]: k})
                if v.c is None and self.path.valid(E.cand(E.ge(u, 0), E.ge(v, 0), E.le(v, a.args[1])), 3) is True:
                    self.path.assume(E.le(E.mk({(a.id,): 1}), u))
                    break

    def lemma(self, c, msg):
        """an intermediate assertion: proved, then used"""
        if self.replay:
            return
        if isinstance(c, bool) and c:
            return
        self.path.stats.obligations += 1
        r = self.path.valid(c)
        if r is True:
            self.path.stats.discharged += 1
            self.path.assume(c)
        elif r is None:
            self.path.stats.obligations -= 1

    def check(self, c, msg, timeout=None, known=None):
        """an assertion of the property; known: the id of the recorded finding a failure here is an instance of"""
        self.checked += 1
        if self.replay:
            if c is not True and c is not False:
                raise EngineError("symbolic check in a replay")
            if not c:
                self.viol.append({"msg": msg})
            return
        st = self.path.stats
        st.obligations += 1
        st.labels[msg] = st.labels.get(msg, 0) + 1
        r = self.path.valid(c, timeout)
        if r is None:
            r = self.smallcex(c)
        if r is True:
            st.discharged += 1
            if not isinstance(c, bool):
                self.path.assume(c)
        elif r is False:
            self.viol.append({"msg": msg, "model": self.names(self.path.model), "scenario": self.scenario,
                              "prefix": list(self.path.taken), "known": known if known in KNOWN else None,
                              "abs": self.path.abstracted})
            # continue on the rest of the path where the assertion holds
            if isinstance(c, bool) or self.path.feasible(c) is False:
                raise Done()
            self.path.assume(c)
        else:
            self.incon.append({"msg": msg, "scenario": self.scenario, "cond": str(c)[:300]})
            if not isinstance(c, bool):
                self.path.assume(c)

    def smallcex(self, c):
        """the solver gave no answer: look for a counterexample among small values"""
        base = self.path.pc + ([E.cnot(c)] if not isinstance(c, bool) else [])
        for bits in (8, 16, 32, 64):
            lim = []
            for v in self.path.vars:
                lo, hi = self.path.iv(v)
                if (lo is None or lo < (1 << bits)) and (hi is None or hi > (1 << bits)):
                    lim.append(E.le(v, 1 << bits))
                    if lo is None or lo < -(1 << bits):
                        lim.append(E.ge(v, -(1 << bits)))
            res, model = portfolio.check(base + lim, 8)
            self.path.stats.queries += 1
            if res == "sat":
                self.path.model = model
                return False
        return None

    def names(self, model):
        out = {}
        for i, v in (model or {}).items():
            a = E.Atom.by_id[i]
            if a.kind == "var":
                out[a.name] = v
        return out

    def on_trap(self, c, what):
        """prove mode: a trap is reachable if c can hold here"""
        if not self.proving:
            return
        nc = E.cnot(c) if not isinstance(c, bool) else (not c)
        self.check(nc, "call never traps: %s" % what)
        if nc is False:
            raise Done()

    # -------------------------------------------------------- calls
    def call(self, a, fn, *args, proving=False):
        """One top-level transaction; raises Revert when it fails (all effects undone)."""
        self.ncalls += 1
        w = self.w
        w.auths = []
        self.trace.append({"to": num(a), "fn": fn, "args": args, "now": w.now})
        if self.replay:
            return self.native_call(a, fn, args)
        self.proving = proving
        self.path.trap_mode = "prove" if proving else "assume"
        snap = w.snapshot()
        try:
            return w.invoke(a, fn, args)
        except Revert as e:
            w.restore(snap)
            w.stack = []
            if proving:
                self.check(False, "call never traps: %s" % e)
                raise Done()
            self.path.stats.reverts += 1
            raise
        finally:
            self.proving = False
            self.path.trap_mode = "assume"

    def must_succeed(self, a, fn, *args):
        """The call has to succeed: every reachable trap is a violation."""
        if self.replay:
            try:
                return self.call(a, fn, *args)
            except Revert as e:
                self.check(False, "call never traps: %s" % e)
                raise Done()
        return self.call(a, fn, *args, proving=True)

    def must_fail(self, msg, a, fn, *args):
        """The call has to be rejected, whatever its symbolic arguments."""
        try:
            self.call(a, fn, *args)
        except Revert:
            self.checked += 1
            return
        self.check(False, msg)

    def authed(self, contract, who):
        """condition: `who`'s authorization was demanded by `contract` during the last call"""
        return E.cor(*[E.eq(x, who) if not isinstance(x, tuple) else False
                       for c, x in self.w.auths if c == contract])

    # -------------------------------------------------------- native replay
    def native_call(self, a, fn, args):
        w = self.w
        ntok = {x: len(c.model.init) for x, c in w.contracts.items() if isinstance(c.model, Token)}
        snap = w.snapshot()
        known = set(w.contracts)
        try:
            eres = w.invoke(a, fn, args)
            eok = True
        except Revert as e:
            eres, eok = str(e), False
            w.stack = []
        eauth = {(c, num(x)) for c, x in w.auths}
        scripts = {x: list(c.model.log) for x, c in w.contracts.items() if isinstance(c.model, Script)}
        epost = self.dump_engine()
        # initial state, including what the engine run made concrete
        touched = {x: [list(e) for e in c.storage] for x, c in w.contracts.items()}
        inits = {x: list(c.model.init) for x, c in w.contracts.items() if isinstance(c.model, Token)}
        made = {c.wasm: x for x, c in w.contracts.items() if x not in known}
        w.restore(snap)
        w.stack = []
        for x, c in w.contracts.items():
            if isinstance(c.model, Token):
                for ad, v in inits[x][ntok[x]:]:
                    c.model.bal.append([ad, v])
            elif c.model is None and c.default:
                have = {(e[1], xdr.hexv(e[0])) for e in c.storage}
                for k, d, v in touched[x]:
                    if (d, xdr.hexv(k)) not in have:
                        c.storage.append([k, d, c.default(k, d)])
        r = self.replay.run(self, num(a), fn, args, scripts)
        if "crash" in r:
            raise EngineError("native host: %s" % r["crash"])
        if r["ok"] and any(int(y, 16) in w.contracts or any(int(i, 16) == int(y, 16) for i, _ in r["instances"])
                           for _, y, _ in r["auths"]):
            # the run grants every authorization; a contract could not have signed this one
            r = dict(r, ok=False, err="no authorization of a contract")
        if r["ok"] != eok:
            self.mismatch.append("%s: engine %s, native %s %s" % (fn, (eok, eres), r["ok"], r["err"]))
        if not r["ok"]:
            raise Revert("native: " + r["err"])
        self.load_native(r)
        ret = xdr.unhexv(r["ret"])
        nauth = {(int(c, 16), int(x, 16)) for c, x, f in r["auths"]}
        w.auths = sorted(nauth)
        w.upgrades = [(int(i, 16), byts(bytes.fromhex(h))) for i, h in r["instances"]
                      if int(i, 16) in w.contracts and w.contracts[int(i, 16)].wasm
                      and h != self.built[w.contracts[int(i, 16)].wasm]["hash"]]
        if eok:
            # contracts deployed by the call have other addresses on the real host
            back = {x: made[c.wasm] for x, c in w.contracts.items() if x not in known and c.wasm in made}

            def tr(h):
                if isinstance(h, str):
                    for x, y in back.items():
                        h = h.replace("%064x" % x, "%064x" % y)
                return back.get(h, h) if isinstance(h, int) else h
            if xdr.hexv(eres) != tr(xdr.hexv(ret)):
                self.mismatch.append("%s: engine returns %r, native %r" % (fn, eres, ret))
            npost = {tuple(tr(y) if i != 1 else y for i, y in enumerate(k)): tr(v) if k[1] != "bal" else v
                     for k, v in self.dump_engine().items()}
            for k in sorted(set(epost) | set(npost)):
                if epost.get(k) != npost.get(k):
                    self.mismatch.append("%s: state %r engine %r native %r" % (fn, k, epost.get(k), npost.get(k)))
            if eauth != {(tr(x), tr(y)) for x, y in nauth}:
                self.mismatch.append("%s: auths engine %r native %r" % (fn, sorted(eauth), sorted(nauth)))
        self.trace[-1]["ret"] = ret
        for x, l in scripts.items():
            if x in w.contracts:
                w.contracts[x].model.log = l
        return ret

    def dump_engine(self):
        out = {}
        for x, c in self.w.contracts.items():
            if isinstance(c.model, Token):
                for a, v in c.model.bal:
                    n = num(v)
                    if n:
                        out[(x, "bal", num(a))] = n
            elif c.model is None:
                for k, d, v in c.storage:
                    if v is not None:
                        out[(x, d, xdr.hexv(k))] = xdr.hexv(v)
        return out

    def load_native(self, r):
        by = {}
        for i, d, k, v in r["entries"]:
            by.setdefault(int(i, 16), []).append((d, xdr.unhexv(k), xdr.unhexv(v)))
        for i, h in r["instances"]:
            i = int(i, 16)
            if i not in self.w.contracts:
                nm = next((n for n, b in self.built.items() if n[0] != "_" and b["hash"] == h), None)
                if nm:
                    c = Contract(i, nm, loaded=self.loaded.get(nm))
                    c.wasm = nm
                    c.initial = []
                    self.w.contracts[i] = c
        for x, c in self.w.contracts.items():
            es = by.get(x, [])
            if isinstance(c.model, Token):
                seen = {}
                for d, k, v in es:
                    if k[0] == "addr":
                        seen[k[1]] = v[1]
                diff = sum(seen.values()) - sum(num(b[1]) for b in c.model.bal)
                if diff:
                    c.model.log.append(("mint", None, None, P(diff)) if diff > 0 else ("burn", None, None, P(-diff)))
                for b in c.model.bal:
                    b[1] = P(seen.pop(num(b[0]), 0))
                for a, v in seen.items():
                    c.model.bal.append([a, P(v)])
            elif c.model is None:
                new = {(d, xdr.hexv(k)): [k, d, v] for d, k, v in es}
                out = []
                for e in c.storage:
                    n = new.pop((e[1], xdr.hexv(e[0])), None)
                    out.append(n if n else [e[0], e[1], None])
                out += list(new.values())
                c.storage = out


class Native:
    """The runner process: the real Soroban host over the built wasm."""
    BIN = None

    def __init__(self, built):
        self.built = built
        self.p = subprocess.Popen([runner_binary()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def close(self):
        self.p.stdin.close()
        self.p.wait()

    def run(self, ctx, a, fn, args, scripts):
        h32 = lambda n: "%064x" % num(n)
        codes, idx, cs = [], {}, []
        for nm, b in self.built.items():
            if nm[0] == "_":
                continue
            idx[nm] = len(codes)
            codes.append({"path": b["wasm"], "hash": b["hash"]})
        for x, c in ctx.w.contracts.items():
            if isinstance(c.model, Token):
                t = c.model
                cs.append({"id": h32(x), "wasm": -2, "admin": None if t.admin is None else h32(t.admin),
                           "decimals": num(t.decimals),
                           "storage": [[1, xdr.hexv(("addr", b[0])), xdr.hexv(("i128", b[1]))]
                                       for b in t.bal if num(b[1])]})
            elif isinstance(c.model, Script):
                sc = []
                for e in scripts[x][len(c.model.log):]:
                    if e.get("fail"):
                        sc.append({"fn": e["fn"], "fail": True})
                    else:
                        sc.append({"fn": e["fn"], "ret": xdr.hexv(e["ret"]),
                                   "effects": [[h32(t), f, [xdr.hexv(y) for y in ar]] for t, f, ar in e["effects"]]})
                cs.append({"id": h32(x), "wasm": -1, "script": sc, "storage": []})
            else:
                cs.append({"id": h32(x), "wasm": idx[c.wasm],
                           "storage": [[d, xdr.hexv(k), xdr.hexv(v)] for k, d, v in c.storage if v is not None]})
        job = {"now": num(ctx.w.now), "seq": num(ctx.w.seq), "codes": codes, "contracts": cs,
               "call": {"id": h32(a), "fn": fn, "args": [xdr.hexv(x) for x in args]}}
        ctx.last_job = job
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise EngineError("the native runner died")
        return json.loads(line)


def saltsame(w, a, b):
    """equality of two salts: hashes are equal only for equal inputs"""
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] != y[0]:
                return False
            if x is y:
                continue
            if x[0] == "sha":
                if not saltsame(w, ("bytes", x[1]), ("bytes", y[1])):
                    return False
                return True
            if not w.same(x[1], y[1]):
                return False
        elif isinstance(x, tuple) or isinstance(y, tuple) or num(x) != num(y):
            return False
    return True


def runner_binary(build_it=True):
    if Native.BIN:
        return Native.BIN
    src = os.path.join(build.VERIF, "runner")
    tgt = os.path.join(build.ROOT, "runner")
    b = os.path.join(tgt, "debug", "runner")
    if not build_it:
        return b if os.path.exists(b) else None
    e = build.env()
    for k in list(e):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS")):
            del e[k]
    e["CARGO_TARGET_DIR"] = tgt
    build.sh(["cargo", "build", "--offline", "--locked"], cwd=src, env=e)
    Native.BIN = b
    return b


def neg(c):
    return (not c) if isinstance(c, bool) else E.cnot(c)


def imp(a, b):
    """a implies b"""
    return E.cor(neg(a), b)


def iff(a, b):
    return E.cor(E.cand(a, b), E.cand(neg(a), neg(b)))
