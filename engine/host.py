"""The Soroban host as seen by a contract, with symbolic contents.

Values (V) are immutable tuples:
  ('void',) ('bool',b) ('u32',n) ('i32',n) ('u64',n) ('i64',n) ('u128',n) ('i128',n) ('u256',n) ('i256',n)
  ('time',n) ('dur',n) ('sym',s) ('str',bytes) ('bytes',tuple) ('addr',n) ('vec',(V,..)) ('map',((V,V),..))
  ('err',code)
where n is an int or a Poly.
"""
import hashlib
from . import expr as E
from .expr import P, Poly, Cond
from .interp import BYTEORG, Sym, BS, mksym, Instance, path_require, Loaded
from .path import Revert, Prune, EngineError

VOID = ("void",)
TAGS = {"void": 2, "u32": 4, "i32": 5, "u64": 64, "i64": 65, "time": 66, "dur": 67, "u128": 68, "i128": 69,
        "u256": 70, "i256": 71, "bytes": 72, "str": 73, "sym": 74, "vec": 75, "map": 76, "addr": 77}
SMALL = {"u64": (6, 0, 1 << 56), "i64": (7, -(1 << 55), 1 << 55), "time": (8, 0, 1 << 56), "dur": (9, 0, 1 << 56),
         "u128": (10, 0, 1 << 56), "i128": (11, -(1 << 55), 1 << 55), "u256": (12, 0, 1 << 56),
         "i256": (13, -(1 << 55), 1 << 55)}
SMALLK = {v[0]: k for k, v in SMALL.items()}
RANGE = {"u32": (0, (1 << 32) - 1), "i32": (-(1 << 31), (1 << 31) - 1), "u64": (0, (1 << 64) - 1),
         "i64": (-(1 << 63), (1 << 63) - 1), "u128": (0, (1 << 128) - 1), "i128": (-(1 << 127), (1 << 127) - 1),
         "u256": (0, (1 << 256) - 1), "i256": (-(1 << 255), (1 << 255) - 1)}
SYMCH = "_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
U32 = lambda n: ((n & 0xffffffff) << 32) | 4


def isint(x):
    return isinstance(x, int)


def num(x):
    if isinstance(x, Poly) and x.c is not None:
        return x.c
    return x


def veq(a, b):
    """condition that two host values are equal"""
    if a is b:
        return True
    if a is None or b is None:
        # an absent entry
        return False
    if a[0] != b[0]:
        return False
    k = a[0]
    if k in ("vec", "map"):
        if len(a[1]) != len(b[1]):
            return False
        cs = []
        for x, y in zip(a[1], b[1]):
            if k == "map":
                cs.append(veq(x[0], y[0]))
                if cs[-1] is False:
                    return False
                cs.append(veq(x[1], y[1]))
            else:
                cs.append(veq(x, y))
            if cs[-1] is False:
                return False
        return E.cand(*cs)
    if k == "void":
        return True
    x, y = a[1], b[1]
    if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)) and not isinstance(x, bool):
        return E.eq(x, y)
    return x == y


class Contract:
    """kind 'ir': loaded module + storage; kind 'py': a Python model object with .call(world, fn, args)."""

    def __init__(self, addr, name, loaded=None, model=None):
        self.addr, self.name, self.loaded, self.model = addr, name, loaded, model
        self.storage = []       # list of [key, durability, V|None]
        self.default = None     # lazy initial storage: key, durability -> V|None
        self.wasm = None


class World:
    def __init__(self, path):
        self.path = path
        self.objs = []
        self.contracts = {}
        self.now = None
        self.seq = 1000
        self.stack = []
        self.auths = []         # (contract, address) demanded through the host
        self.calls = []         # (caller, contract, fn, args, result)
        self.upgrades = []      # (contract, hash V)
        self.deployed = []
        self.frames, self.grants, self.pending = [], [], []
        self.call_hook = None
        self.deploy_hook = None
        self.events = []

    # -------------------------------------------------- values
    def encode_int(self, kind, n):
        n = num(n)
        if isint(n):
            tag, lo, hi = SMALL[kind]
            if lo <= n < hi:
                return ((n & ((1 << 56) - 1)) << 8) | tag
        return self.obj((kind, n))

    def obj(self, v):
        self.objs.append(v)
        return (len(self.objs) << 32) | TAGS[v[0]]

    def enc(self, v):
        k = v[0]
        if k == "void":
            return 2
        if k == "bool":
            b = v[1]
            if isinstance(b, Cond):
                b = self.path.branch(b)
            return 1 if b else 0
        if k in ("u32", "i32"):
            n = num(v[1])
            if isint(n):
                return ((n & 0xffffffff) << 32) | TAGS[k]
            return Sym(64, E.add(E.scale(n, 1 << 32), P(TAGS[k])))
        if k in SMALL:
            return self.encode_int(k, v[1])
        if k == "sym":
            s = v[1]
            if len(s) <= 9:
                n = 0
                for ch in s:
                    n = n << 6 | (SYMCH.index(ch) + 1)
                return n << 8 | 14
            return self.obj(v)
        if k == "err":
            return v[1]
        return self.obj(v)

    def dec(self, x):
        if x.__class__ is Sym:
            p = x.p
            tag = E.mod(p, P(256))
            if tag.c is None:
                lo, hi = self.path.iv(p)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    c = E.eq(p, 1)
                    return ("bool", c if isinstance(c, bool) else self.path.branch(c))
                raise EngineError("Val with symbolic tag %r" % (x,))
            if tag.c in (4, 5):
                n = E.fdiv(E.sub(p, tag), P(1 << 32))
                return ("u32" if tag.c == 4 else "i32", n)
            if tag.c in SMALLK:
                return (SMALLK[tag.c], E.fdiv(E.sub(p, tag), P(256)))
            raise EngineError("symbolic Val %r" % (x,))
        if x.__class__ is not int:
            raise EngineError("Val %r" % (x,))
        tag = x & 255
        if tag == 0:
            return ("bool", False)
        if tag == 1:
            return ("bool", True)
        if tag == 2:
            return VOID
        if tag == 3:
            return ("err", x)
        if tag == 4:
            return ("u32", x >> 32)
        if tag == 5:
            n = x >> 32
            return ("i32", n - (1 << 32) if n >> 31 else n)
        if tag in SMALLK:
            n = x >> 8
            k = SMALLK[tag]
            if k[0] == "i" and n >> 55:
                n -= 1 << 56
            return (k, n)
        if tag == 14:
            n = x >> 8
            s = ""
            while n:
                s = SYMCH[(n & 63) - 1] + s
                n >>= 6
            return ("sym", s)
        if 64 <= tag <= 77:
            i = (x >> 32) - 1
            if not 0 <= i < len(self.objs):
                raise EngineError("bad handle %x" % x)
            v = self.objs[i]
            if TAGS[v[0]] != tag:
                raise Revert("object type mismatch")
            return v
        raise EngineError("bad Val %x" % x)

    # -------------------------------------------------- helpers
    def require(self, c, what="host"):
        path_require(self.path, c, what) if not isinstance(c, bool) else (None if c else self._rev(what))

    def _rev(self, what):
        if self.path.trap_mode == "prove":
            self.path.on_trap(True, what)
        raise Revert(what)

    def same(self, a, b):
        c = veq(a, b)
        return c if isinstance(c, bool) else self.path.branch(c)

    def less(self, a, b):
        """a < b in the host's total order, forking as needed"""
        return self.cmp(a, b) < 0

    ORDER = ["bool", "void", "err", "u32", "i32", "u64", "i64", "time", "dur", "u128", "i128", "u256", "i256",
             "bytes", "str", "sym", "vec", "map", "addr"]

    def cmp(self, a, b):
        if a[0] != b[0]:
            x, y = self.ORDER.index(a[0]), self.ORDER.index(b[0])
            return -1 if x < y else 1
        k = a[0]
        if k == "void":
            return 0
        if k in ("vec", "map"):
            for x, y in zip(a[1], b[1]):
                if k == "map":
                    c = self.cmp(x[0], y[0]) or self.cmp(x[1], y[1])
                else:
                    c = self.cmp(x, y)
                if c:
                    return c
            return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
        x, y = a[1], b[1]
        if isinstance(x, Poly) or isinstance(y, Poly):
            if isinstance(x, (tuple, list)):
                raise EngineError("cmp")
            c = E.eq(x, y)
            if c is True or (c is not False and self.path.branch(c)):
                return 0
            c = E.lt(x, y)
            return -1 if (c is True or (c is not False and self.path.branch(c))) else 1
        if k == "bytes":
            x, y = list(x), list(y)
            for p, q in zip(x, y):
                if not (isint(p) and isint(q)):
                    raise EngineError("cmp symbolic bytes")
        return (x > y) - (x < y)

    # -------------------------------------------------- storage
    def cur(self):
        return self.contracts[self.stack[-1]]

    def sfind(self, c, key, dur):
        for e in c.storage:
            if e[1] == dur and self.same(e[0], key):
                return e
        v = c.default(key, dur) if c.default else None
        e = [key, dur, v]
        c.storage.append(e)
        return e

    def sget(self, c, key, dur):
        return self.sfind(c, key, dur)[2]

    def sput(self, c, key, dur, v):
        self.sfind(c, key, dur)[2] = v

    # -------------------------------------------------- calls
    def snapshot(self):
        st = {a: [list(e) for e in c.storage] for a, c in self.contracts.items()}
        ms = {a: c.model.snapshot() for a, c in self.contracts.items() if c.model is not None}
        return st, ms, list(self.auths), list(self.calls), list(self.upgrades), list(self.deployed), set(self.contracts)

    def restore(self, s):
        st, ms, self.auths, self.calls, self.upgrades, self.deployed, cs = s
        for a in list(self.contracts):
            if a not in cs:
                del self.contracts[a]
        for a, e in st.items():
            self.contracts[a].storage = e
        for a, m in ms.items():
            self.contracts[a].model.restore(m)

    def resolve(self, addr):
        """the contract at a (possibly symbolic) address, or None"""
        a = num(addr)
        if isint(a):
            return self.contracts.get(a)
        for k in sorted(self.contracts):
            c = E.eq(a, k)
            if c is True or (c is not False and self.path.branch(c)):
                return self.contracts[k]
        return None

    def invoke(self, addr, fn, args):
        """a (sub)call; returns V or raises Revert"""
        c = self.resolve(addr)
        if c is None:
            if self.call_hook:
                return self.call_hook(self, addr, fn, args)
            raise Revert("call of a non-contract")
        if c.addr in self.stack:
            raise Revert("re-entry")
        caller = self.stack[-1] if self.stack else None
        rec = [caller, c.addr, fn, tuple(args), None]
        self.calls.append(rec)
        if len(self.stack) > 8:
            raise Revert("call depth")
        # authorizations the caller gave for the sub-calls of this call
        old = self.grants
        self.grants, self.pending = old + self.pending, []
        self.stack.append(c.addr)
        self.frames.append((c.addr, fn, tuple(args)))
        try:
            if c.model is not None:
                r = c.model.call(self, fn, list(args))
            else:
                r = self.run(c, fn, args)
        finally:
            self.stack.pop()
            self.frames.pop()
            self.grants, self.pending = old, []
        rec[4] = r
        return r

    def authorize(self, entries):
        """authorize_as_curr_contract: the current contract authorizes sub-calls of its next call"""
        me = self.stack[-1]

        def inv(v):
            ctx = v["context"]
            self.pending.append([me, num(ctx["contract"][1]), ctx["fn_name"][1], ctx["args"][1], False])
            for x in v["sub_invocations"][1]:
                entry(x)

        def rec(v):
            return {k[1]: (rec(x) if x[0] == "map" else x) for k, x in v[1]}

        def entry(v):
            if v[0] != "vec" or v[1][0][0] != "sym" or v[1][0][1] != "Contract":
                raise EngineError("authorization entry not modelled")
            inv(rec(v[1][1]))
        for x in entries[1]:
            entry(x)

    def run(self, c, fn, args):
        f = c.loaded.m.fns.get(fn)
        if f is None or fn.startswith("_ZN"):
            raise Revert("no such function %s" % fn)
        if len(f.params) != len(args):
            raise Revert("wrong number of arguments")
        host = HostTable(self)
        inst = Instance(c.loaded, self.path, host)
        r = inst.run(f, [self.enc(a) for a in args])
        return self.dec(r)

    def require_auth(self, addr):
        caller = self.stack[-2] if len(self.stack) >= 2 else None
        a = num(addr)
        if caller is not None:
            # a contract is authorised for calls it makes itself
            c = E.eq(a, caller)
            if c is True or (c is not False and self.path.branch(c)):
                return
        if isint(a) and a in self.contracts:
            # a contract signs nothing: only calls it authorized in advance
            ca, fn, args = self.frames[-1] if self.frames else (None, None, ())
            for g in self.grants:
                who, c, f, ar, used = g
                if not used and who == a and f == fn and self.same(("addr", c), ("addr", ca)) \
                        and self.same(("vec", tuple(ar)), ("vec", args)):
                    g[4] = True
                    return
            raise Revert("no authorization of a contract")
        self.auths.append((self.stack[-1], a))


class HostTable:
    def __init__(self, w):
        self.w = w

    def __call__(self, inst, name, args):
        f = getattr(self, "h_" + name, None)
        if f is None:
            raise EngineError("host function %s not modelled" % name)
        return f(inst, *args)

    # ---- integers
    def h_obj_from_u64(self, i, v):
        return self.w.encode_int("u64", i.norm(v, 64, False))

    def h_obj_from_i64(self, i, v):
        return self.w.encode_int("i64", i.norm(v, 64, True))

    def h_obj_to_u64(self, i, o):
        return mksym(64, P(self.w.dec(o)[1]))

    def h_obj_to_i64(self, i, o):
        return mksym(64, P(self.w.dec(o)[1]))

    def h_timepoint_obj_from_u64(self, i, v):
        return self.w.encode_int("time", i.norm(v, 64, False))

    def h_obj_from_i128_pieces(self, i, hi, lo):
        return self.w.encode_int("i128", E.add(E.scale(P(i.norm(hi, 64, True)), 1 << 64), P(i.norm(lo, 64, False))))

    def h_obj_from_u128_pieces(self, i, hi, lo):
        return self.w.encode_int("u128", E.add(E.scale(P(i.norm(hi, 64, False)), 1 << 64), P(i.norm(lo, 64, False))))

    def _lo(self, i, o):
        n = self.w.dec(o)[1]
        if isint(n):
            return n & ((1 << 64) - 1)
        return Sym(64, i.lowmod(n, 1 << 64))

    def _hi(self, i, o):
        n = self.w.dec(o)[1]
        return mksym(64, i.path.fdiv(P(n), P(1 << 64)))

    h_obj_to_i128_lo64 = h_obj_to_u128_lo64 = _lo
    h_obj_to_i128_hi64 = h_obj_to_u128_hi64 = _hi

    def _u(self, kind):
        pass

    def _arith(self, i, op, kind, a, b):
        w = self.w
        va, vb = w.dec(a), w.dec(b)
        if va[0] != kind or (vb[0] != kind and op not in ("pow", "shl", "shr")):
            raise Revert("type")
        x, y = P(va[1]), P(vb[1])
        lo, hi = RANGE[kind]
        if w.path.abstract == "ops" and (x.c is None or y.c is None) and op in ("mul", "div", "pow"):
            # over-approximation: some value in range, the same for the same operands
            if op == "div":
                w.require(E.ne(y, 0), "division by zero")
            if not (op == "mul" and (x.c is not None or y.c is not None)):
                w.path.abstracted = True
                return w.encode_int(kind, E.uf(op + kind, [x, y], lo, hi))
        if op == "add":
            r = E.add(x, y)
        elif op == "sub":
            r = E.sub(x, y)
        elif op == "mul":
            r = E.mul(x, y)
        elif op in ("div", "rem"):
            if kind == "i256":
                w.require(E.ne(y, 0), "division by zero")
                nx, ny = w.path.branch(E.lt(x, 0)), w.path.branch(E.lt(y, 0))
                q = i.path.fdiv(E.neg(x) if nx else x, E.neg(y) if ny else y)
                q = E.neg(q) if nx != ny else q
                r = q if op == "div" else E.sub(x, E.mul(q, y))
                if op == "rem" :
                    raise EngineError("i256 rem")
            else:
                w.require(E.gt(y, 0), "division by zero")
                q = i.path.fdiv(x, y)
                return w.encode_int(kind, q if op == "div" else E.sub(x, E.mul(q, y)))
        elif op == "pow":
            n = vb[1]
            n = num(n)
            if not isint(n):
                raise EngineError("symbolic exponent")
            r = P(1)
            for _ in range(n):
                r = E.mul(r, x)
        w.require(E.cand(E.ge(r, lo), E.le(r, hi)), "256-bit overflow")
        return w.encode_int(kind, r)

    def h_u256_add(self, i, a, b):
        return self._arith(i, "add", "u256", a, b)

    def h_u256_sub(self, i, a, b):
        return self._arith(i, "sub", "u256", a, b)

    def h_u256_mul(self, i, a, b):
        return self._arith(i, "mul", "u256", a, b)

    def h_u256_div(self, i, a, b):
        return self._arith(i, "div", "u256", a, b)

    def h_u256_rem_euclid(self, i, a, b):
        return self._arith(i, "rem", "u256", a, b)

    def h_u256_pow(self, i, a, b):
        return self._arith(i, "pow", "u256", a, b)

    def h_i256_add(self, i, a, b):
        return self._arith(i, "add", "i256", a, b)

    def h_i256_sub(self, i, a, b):
        return self._arith(i, "sub", "i256", a, b)

    def h_i256_mul(self, i, a, b):
        return self._arith(i, "mul", "i256", a, b)

    def h_i256_div(self, i, a, b):
        return self._arith(i, "div", "i256", a, b)

    def _tobytes(self, i, o):
        n = num(self.w.dec(o)[1])
        if isint(n):
            return self.w.enc(("bytes", tuple((n & ((1 << 256) - 1)).to_bytes(32, "big"))))
        return self.w.enc(("bytes", tuple((n, 31 - k) for k in range(32))))

    h_u256_val_to_be_bytes = h_i256_val_to_be_bytes = _tobytes

    def _frombytes(self, kind, i, b):
        bs = list(self.w.dec(b)[1])
        if len(bs) != 32:
            raise Revert("bytes length")
        v = i.assemble(bs[::-1]) if not all(isint(x) for x in bs) else int.from_bytes(bytes(bs), "big")
        return self.w.encode_int(kind, i.norm(v, 256, kind == "i256"))

    def h_u256_val_from_be_bytes(self, i, b):
        return self._frombytes("u256", i, b)

    def h_i256_val_from_be_bytes(self, i, b):
        return self._frombytes("i256", i, b)

    def h_obj_from_u256_pieces(self, i, a, b, c, d):
        n = P(0)
        for x in (a, b, c, d):
            n = E.add(E.scale(n, 1 << 64), P(i.norm(x, 64, False)))
        return self.w.encode_int("u256", n)

    def h_obj_from_i256_pieces(self, i, a, b, c, d):
        n = P(i.norm(a, 64, True))
        for x in (b, c, d):
            n = E.add(E.scale(n, 1 << 64), P(i.norm(x, 64, False)))
        return self.w.encode_int("i256", n)

    def _limb(self, i, o, k):
        n = self.w.dec(o)[1]
        q = i.path.fdiv(P(n), P(1 << (64 * k)))
        if q.c is not None:
            return q.c & ((1 << 64) - 1)
        return Sym(64, q if k == 3 else i.lowmod(q, 1 << 64))

    def h_obj_to_u256_hi_hi(self, i, o):
        return self._limb(i, o, 3)

    def h_obj_to_u256_hi_lo(self, i, o):
        return self._limb(i, o, 2)

    def h_obj_to_u256_lo_hi(self, i, o):
        return self._limb(i, o, 1)

    def h_obj_to_u256_lo_lo(self, i, o):
        return self._limb(i, o, 0)

    # ---- buffers
    def _mem(self, i, pos, n):
        a, n = (pos >> 32), (n >> 32)
        return i.rdbytes(a, n)

    def h_symbol_new_from_linear_memory(self, i, pos, n):
        return self.w.enc(("sym", bytes(self._mem(i, pos, n)).decode()))

    def h_string_new_from_linear_memory(self, i, pos, n):
        return self.w.enc(("str", bytes(self._mem(i, pos, n))))

    def h_bytes_new_from_linear_memory(self, i, pos, n):
        return self.w.enc(("bytes", tuple(self._mem(i, pos, n))))

    def h_bytes_new(self, i):
        return self.w.enc(("bytes", ()))

    def h_bytes_len(self, i, b):
        return U32(len(self.w.dec(b)[1]))

    def h_bytes_append(self, i, a, b):
        return self.w.enc(("bytes", self.w.dec(a)[1] + self.w.dec(b)[1]))

    def h_bytes_slice(self, i, b, s, e):
        s, e = s >> 32, e >> 32
        v = self.w.dec(b)[1]
        if not s <= e <= len(v):
            self.w._rev("slice")
        return self.w.enc(("bytes", v[s:e]))

    def h_bytes_front(self, i, b):
        v = self.w.dec(b)[1]
        if not v:
            self.w._rev("front")
        return self._byte(i, v[0])

    def h_bytes_back(self, i, b):
        v = self.w.dec(b)[1]
        return self._byte(i, v[-1])

    def _byte(self, i, x):
        if isint(x):
            return U32(x)
        p, k = x
        n = i.lowmod(i.path.fdiv(p, P(1 << (8 * k))), 256)
        if n.c is None:
            BYTEORG[n] = x
        return self.w.enc(("u32", n))

    def h_bytes_get(self, i, b, k):
        return self._byte(i, self.w.dec(b)[1][k >> 32])

    def h_bytes_copy_to_linear_memory(self, i, b, pos, lm, n):
        pos, lm, n = pos >> 32, lm >> 32, n >> 32
        i.wrbytes(lm, list(self.w.dec(b)[1])[pos:pos + n])
        return 2

    def h_string_copy_to_linear_memory(self, i, b, pos, lm, n):
        pos, lm, n = pos >> 32, lm >> 32, n >> 32
        i.wrbytes(lm, list(self.w.dec(b)[1])[pos:pos + n])
        return 2

    def h_string_len(self, i, b):
        return U32(len(self.w.dec(b)[1]))

    def h_serialize_to_bytes(self, i, v):
        v = self.w.dec(v)
        return self.w.enc(("bytes", (("xdr", v),)))

    def h_compute_hash_sha256(self, i, b):
        v = self.w.dec(b)[1]
        return self.w.enc(("bytes", (("sha", v),) * 32))

    def h_symbol_index_in_linear_memory(self, i, sym, pos, n):
        s = self.w.dec(sym)[1]
        a, n = pos >> 32, n >> 32
        for k in range(n):
            p = i.rd(a + 8 * k, 4)
            l = i.rd(a + 8 * k + 4, 4)
            if bytes(i.rdbytes(p, l)).decode() == s:
                return U32(k)
        self.w._rev("symbol not in slice")

    # ---- vectors
    def _vec(self, v):
        d = self.w.dec(v)
        if d[0] != "vec":
            raise Revert("not a vec")
        return d[1]

    def _idx(self, i, k, n, ctx="index"):
        k = self.w.dec(k)[1]
        k = num(k)
        if not isint(k):
            self.w.require(E.lt(k, n), ctx)
            for j in range(n - 1):
                if i.path.branch(E.eq(k, j)):
                    return j
            return n - 1
        if k >= n:
            self.w._rev(ctx)
        return k

    def h_vec_new(self, i):
        return self.w.enc(("vec", ()))

    def h_vec_new_from_linear_memory(self, i, pos, n):
        a, n = pos >> 32, n >> 32
        return self.w.enc(("vec", tuple(self.w.dec(i.rd(a + 8 * k, 8)) for k in range(n))))

    def h_vec_unpack_to_linear_memory(self, i, v, pos, n):
        a, n = pos >> 32, n >> 32
        vs = self._vec(v)
        if len(vs) != n:
            self.w._rev("vec length")
        for k, x in enumerate(vs):
            i.wr(a + 8 * k, 8, self.w.enc(x))
        return 2

    def h_vec_len(self, i, v):
        return U32(len(self._vec(v)))

    def h_vec_get(self, i, v, k):
        vs = self._vec(v)
        return self.w.enc(vs[self._idx(i, k, len(vs))])

    def h_vec_put(self, i, v, k, x):
        vs = list(self._vec(v))
        vs[self._idx(i, k, len(vs))] = self.w.dec(x)
        return self.w.enc(("vec", tuple(vs)))

    def h_vec_del(self, i, v, k):
        vs = list(self._vec(v))
        del vs[self._idx(i, k, len(vs))]
        return self.w.enc(("vec", tuple(vs)))

    def h_vec_insert(self, i, v, k, x):
        vs = list(self._vec(v))
        vs.insert(self._idx(i, k, len(vs) + 1), self.w.dec(x))
        return self.w.enc(("vec", tuple(vs)))

    def h_vec_push_back(self, i, v, x):
        return self.w.enc(("vec", self._vec(v) + (self.w.dec(x),)))

    def h_vec_push_front(self, i, v, x):
        return self.w.enc(("vec", (self.w.dec(x),) + self._vec(v)))

    def h_vec_pop_back(self, i, v):
        vs = self._vec(v)
        if not vs:
            self.w._rev("pop")
        return self.w.enc(("vec", vs[:-1]))

    def h_vec_pop_front(self, i, v):
        vs = self._vec(v)
        if not vs:
            self.w._rev("pop")
        return self.w.enc(("vec", vs[1:]))

    def h_vec_front(self, i, v):
        vs = self._vec(v)
        if not vs:
            self.w._rev("front")
        return self.w.enc(vs[0])

    def h_vec_back(self, i, v):
        vs = self._vec(v)
        if not vs:
            self.w._rev("back")
        return self.w.enc(vs[-1])

    def h_vec_append(self, i, a, b):
        return self.w.enc(("vec", self._vec(a) + self._vec(b)))

    def h_vec_slice(self, i, v, s, e):
        vs = self._vec(v)
        s, e = s >> 32, e >> 32
        if not s <= e <= len(vs):
            self.w._rev("slice")
        return self.w.enc(("vec", vs[s:e]))

    def h_vec_first_index_of(self, i, v, x):
        x = self.w.dec(x)
        for k, y in enumerate(self._vec(v)):
            if self.w.same(y, x):
                return U32(k)
        return 2

    def h_vec_last_index_of(self, i, v, x):
        x = self.w.dec(x)
        vs = self._vec(v)
        for k in reversed(range(len(vs))):
            if self.w.same(vs[k], x):
                return U32(k)
        return 2

    # ---- maps
    def _map(self, m):
        d = self.w.dec(m)
        if d[0] != "map":
            raise Revert("not a map")
        return d[1]

    def h_map_new(self, i):
        return self.w.enc(("map", ()))

    def _key(self, i, a, k):
        p = i.rd(a + 8 * k, 4)
        l = i.rd(a + 8 * k + 4, 4)
        return ("sym", bytes(i.rdbytes(p, l)).decode())

    def h_map_new_from_linear_memory(self, i, keys, vals, n):
        ka, va, n = keys >> 32, vals >> 32, n >> 32
        es = [(self._key(i, ka, k), self.w.dec(i.rd(va + 8 * k, 8))) for k in range(n)]
        es.sort(key=lambda e: e[0][1])
        return self.w.enc(("map", tuple(es)))

    def h_map_unpack_to_linear_memory(self, i, m, keys, vals, n):
        ka, va, n = keys >> 32, vals >> 32, n >> 32
        es = self._map(m)
        if len(es) != n:
            self.w._rev("map size")
        for k in range(n):
            key = self._key(i, ka, k)
            if es[k][0] != key:
                self.w._rev("map key")
            i.wr(va + 8 * k, 8, self.w.enc(es[k][1]))
        return 2

    def _find(self, es, k):
        for j, (x, y) in enumerate(es):
            if self.w.same(x, k):
                return j
        return None

    def h_map_get(self, i, m, k):
        es = self._map(m)
        j = self._find(es, self.w.dec(k))
        if j is None:
            self.w._rev("map key")
        return self.w.enc(es[j][1])

    def h_map_has(self, i, m, k):
        return 1 if self._find(self._map(m), self.w.dec(k)) is not None else 0

    def h_map_put(self, i, m, k, v):
        es = list(self._map(m))
        k, v = self.w.dec(k), self.w.dec(v)
        j = self._find(es, k)
        if j is not None:
            es[j] = (es[j][0], v)
        else:
            j = 0
            while j < len(es) and self.w.less(es[j][0], k):
                j += 1
            es.insert(j, (k, v))
        return self.w.enc(("map", tuple(es)))

    def h_map_del(self, i, m, k):
        es = list(self._map(m))
        j = self._find(es, self.w.dec(k))
        if j is None:
            self.w._rev("map key")
        del es[j]
        return self.w.enc(("map", tuple(es)))

    def h_map_len(self, i, m):
        return U32(len(self._map(m)))

    def h_map_keys(self, i, m):
        return self.w.enc(("vec", tuple(k for k, v in self._map(m))))

    def h_map_values(self, i, m):
        return self.w.enc(("vec", tuple(v for k, v in self._map(m))))

    def h_map_key_by_pos(self, i, m, k):
        es = self._map(m)
        return self.w.enc(es[self._idx(i, k, len(es))][0])

    def h_map_val_by_pos(self, i, m, k):
        es = self._map(m)
        return self.w.enc(es[self._idx(i, k, len(es))][1])

    # ---- ledger
    def h_get_contract_data(self, i, k, t):
        v = self.w.sget(self.w.cur(), self.w.dec(k), t & 255 if isint(t) else t)
        if v is None:
            self.w._rev("missing storage entry")
        return self.w.enc(v)

    def h_has_contract_data(self, i, k, t):
        return 0 if self.w.sget(self.w.cur(), self.w.dec(k), t & 255) is None else 1

    def h_put_contract_data(self, i, k, v, t):
        self.w.sput(self.w.cur(), self.w.dec(k), t & 255, self.w.dec(v))
        return 2

    def h_del_contract_data(self, i, k, t):
        self.w.sput(self.w.cur(), self.w.dec(k), t & 255, None)
        return 2

    def h_extend_contract_data_ttl(self, i, k, t, a, b):
        v = self.w.sget(self.w.cur(), self.w.dec(k), t & 255)
        if v is None:
            self.w._rev("extend ttl of a missing entry")
        return 2

    def h_extend_current_contract_instance_and_code_ttl(self, i, a, b):
        return 2

    def h_update_current_contract_wasm(self, i, h):
        self.w.upgrades.append((self.w.stack[-1], self.w.dec(h)))
        return 2

    def h_create_contract_with_constructor(self, i, deployer, hsh, salt, args):
        w = self.w
        d = w.dec(deployer)[1]
        if w.deploy_hook is None:
            raise EngineError("deployment not modelled")
        if not w.same(("addr", d), ("addr", w.stack[-1])):
            w.auths.append((w.stack[-1], d))
        w.deployer = d
        r = w.deploy_hook(w, w.dec(hsh), w.dec(salt), list(w.dec(args)[1]))
        return w.enc(r)

    def h_create_contract(self, i, deployer, hsh, salt):
        w = self.w
        d = w.dec(deployer)[1]
        if not w.same(("addr", d), ("addr", w.stack[-1])):
            w.auths.append((w.stack[-1], d))
        w.deployer = d
        r = w.deploy_hook(w, w.dec(hsh), w.dec(salt), [])
        return w.enc(r)

    # ---- context
    def h_obj_cmp(self, i, a, b):
        va, vb = self.w.dec(a), self.w.dec(b)
        if va[0] == vb[0] and len(va) > 1 and va[0] not in ("vec", "map", "bytes", "str", "sym") and \
                (isinstance(va[1], Poly) or isinstance(vb[1], Poly)):
            x, y = va[1], vb[1]
            return mksym(64, E.ite(E.le(x, y), E.ite(E.lt(x, y), -1, 0), 1))
        r = self.w.cmp(va, vb)
        return r & ((1 << 64) - 1)

    def h_get_ledger_timestamp(self, i):
        return self.w.encode_int("u64", self.w.now)

    def h_get_ledger_sequence(self, i):
        return self.w.enc(("u32", self.w.seq))

    def h_get_max_live_until_ledger(self, i):
        return self.w.enc(("u32", E.add(P(self.w.seq), P(3110400))))

    def h_get_current_contract_address(self, i):
        return self.w.enc(("addr", self.w.stack[-1]))

    def h_contract_event(self, i, t, d):
        return 2

    def h_log_from_linear_memory(self, i, *a):
        return 2

    def h_fail_with_error(self, i, e):
        if self.w.path.trap_mode == "prove":
            self.w.path.on_trap(True, "contract error %x" % (e >> 32 if isint(e) else 0))
        raise Revert("contract error %s" % (e >> 32 if isint(e) else e))

    def h_require_auth(self, i, a):
        self.w.require_auth(self.w.dec(a)[1])
        return 2

    def h_require_auth_for_args(self, i, a, args):
        self.w.require_auth(self.w.dec(a)[1])
        return 2

    def h_authorize_as_curr_contract(self, i, v):
        self.w.authorize(self.w.dec(v))
        return 2

    def h_call(self, i, c, f, args):
        w = self.w
        ca = w.dec(c)
        if ca[0] != "addr":
            raise Revert("call target")
        r = w.invoke(ca[1], w.dec(f)[1], list(w.dec(args)[1]))
        return w.enc(r)

    def h_try_call(self, i, c, f, args):
        raise EngineError("try_call not modelled")
