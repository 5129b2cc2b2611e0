"""Symbolic execution of the contracts' LLVM IR.

Values: Python int (unsigned, concrete); Sym(w, poly): an integer whose bit pattern is poly mod 2^w;
Cond: a symbolic i1; BS(w, poly): byte-swapped poly; tuple: aggregate. Pointers are concrete.
"""
import re
from . import expr as E, kernel
from .expr import Poly, Cond, P, cnot
from .ir import Glob, CExpr, Reg, size_align
from .path import Revert, Prune, EngineError


class Sym:
    __slots__ = ("w", "p")

    def __init__(self, w, p):
        self.w, self.p = w, p

    def __repr__(self):
        return "i%d:%r" % (self.w, self.p)


class BS:
    __slots__ = ("w", "p")

    def __init__(self, w, p):
        self.w, self.p = w, p


def mksym(w, p):
    if isinstance(p, int):
        return p & ((1 << w) - 1)
    if p.c is not None:
        return p.c & ((1 << w) - 1)
    return Sym(w, p)


class Loaded:
    """A module with its globals laid out; shared by all instances."""

    def __init__(self, module):
        self.m = module
        self.addr = {}
        self.image = {}
        self.fnaddr = {}
        a = 0x10000
        for nm, g in module.globs.items():
            if g[0] == "alias":
                continue
            t, v = g
            sz, al = size_align(t)
            al = max(al, 8)
            a = (a + al - 1) // al * al
            self.addr[nm] = a
            a += max(sz, 1)
        fa = 0x8000000
        for nm in list(module.fns) + list(module.decls):
            self.addr[nm] = fa
            self.fnaddr[fa] = nm
            fa += 16
        for nm, g in module.globs.items():
            if g[0] == "alias":
                v = g[1]
                self.addr[nm] = self.addr[v.name]
        for nm, g in module.globs.items():
            if g[0] != "alias":
                self.init(self.addr[nm], g[0], g[1])
        self.stack_base = (a + 0xffff) // 0x10000 * 0x10000

    def ptr(self, v):
        if isinstance(v, Glob):
            return self.addr[v.name]
        if isinstance(v, CExpr):
            return self.addr[v.g.name] + v.off
        return v

    def init(self, a, t, v):
        if isinstance(v, bytes):
            for i, b in enumerate(v):
                self.image[a + i] = b
        elif isinstance(v, tuple):
            if t[0] == "a":
                s = size_align(t[2])[0]
                for i, x in enumerate(v):
                    self.init(a + i * s, t[2], x)
            else:
                off = 0
                for f, x in zip(t[1], v):
                    s, al = size_align(f)
                    if not t[2]:
                        off = (off + al - 1) // al * al
                    self.init(a + off, f, x)
                    off += s
        else:
            v = self.ptr(v)
            s = size_align(t)[0]
            for i, b in enumerate(int(v).to_bytes(s, "little")):
                self.image[a + i] = b


class ByteOrg(dict):
    """a byte's value (modulo 256) -> the (poly, byte index) it was taken from"""
    @staticmethod
    def key(p):
        return E.mk({m: k % 256 for m, k in p.t.items() if k % 256})

    def __setitem__(self, p, v):
        k = self.key(p)
        if k.c is None:
            super().__setitem__(k, v)

    def find(self, p):
        return self.get(self.key(p))


BYTEORG = ByteOrg()
OVF = re.compile(r"llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)$")


class Instance:
    """One invocation of a contract: fresh linear memory over a loaded module."""
    MAXDEPTH = 200

    def __init__(self, loaded, path, host):
        self.L = loaded
        self.path = path
        self.host = host          # callable table: host(name, args) ; see host.py
        self.mem = {}
        self.image = loaded.image
        self.sp = loaded.stack_base
        self.heap = 0x4000000
        self.depth = 0
        self.stats = path.stats

    # ------------------------------------------------------------ memory
    def rd(self, a, n):
        """n bytes -> int | Sym | BS"""
        mem = self.mem
        img = self.image
        bs = []
        conc = True
        for i in range(a, a + n):
            b = mem.get(i)
            if b is None:
                b = img.get(i, 0)
            elif b.__class__ is not int:
                conc = False
            bs.append(b)
        if conc:
            return int.from_bytes(bytes(bs), "little")
        return self.assemble(bs)

    def assemble(self, bs):
        n = len(bs)
        f = bs[0]
        if f.__class__ is tuple:
            p, k = f
            if n == 1 and k:
                r = mksym(8, self.path.fdiv(p, 1 << (8 * k)))
                if r.__class__ is Sym:
                    BYTEORG[r.p] = f
                return r
            if all(b.__class__ is tuple and b[0] is p and b[1] == k + i for i, b in enumerate(bs)):
                return mksym(8 * n, p if k == 0 else self.path.fdiv(p, 1 << (8 * k)))
            if n > 1 and all(b.__class__ is tuple and b[0] is p and b[1] == k - i for i, b in enumerate(bs)):
                k0 = k - n + 1
                return BS(8 * n, p if k0 == 0 else E.fdiv(p, 1 << (8 * k0)))
        if n > 1:
            # big-endian bytes: leading zeros of a small value, and bytes that are the same for every value
            z = next((i for i, b in enumerate(bs) if b.__class__ is tuple), None)
            if z is not None:
                p, k = bs[z]
                k -= n - 1 - z                        # of the last byte
                y = next(i for i, b in enumerate(bs) if b.__class__ is tuple or b)

                def fits(i, b):
                    j = k + n - 1 - i
                    if b.__class__ is tuple:
                        return b[0] is p and b[1] == j
                    return j >= 0 and E.mod(E.fdiv(p, 1 << (8 * j)), P(256)).c == b
                if k >= 0 and n - z > 1 and all(fits(i, b) for i, b in enumerate(bs) if i >= y):
                    lo, hi = self.path.iv(p)
                    if y == 0 or lo is not None and lo >= 0 and hi is not None and hi < 1 << (8 * (k + n - y)):
                        return BS(8 * n, p if k == 0 else E.fdiv(p, 1 << (8 * k)))
        tot = P(0)
        i = 0
        while i < n:
            b = bs[i]
            if b.__class__ is int:
                tot = E.add(tot, P(b << (8 * i)))
                i += 1
                continue
            p, k = b
            j = i + 1
            while j < n and bs[j].__class__ is tuple and bs[j][0] is p and bs[j][1] == k + (j - i):
                j += 1
            part = p if k == 0 else self.path.fdiv(p, 1 << (8 * k))
            lo, hi = self.path.iv(part)
            m = 1 << (8 * (j - i))
            if not (lo is not None and lo >= 0 and hi is not None and hi < m):
                part = E.mod(part, P(m))
                self.path._bound(part, 0, m - 1) if part.c is None else None
            tot = E.add(tot, E.scale(part, 1 << (8 * i)))
            i = j
        if n == 1 and f.__class__ is tuple and tot.c is None:
            BYTEORG[tot] = f
        return mksym(8 * n, tot)

    def wr(self, a, n, v):
        mem = self.mem
        c = v.__class__
        if c is int:
            for b in v.to_bytes(n, "little"):
                mem[a] = b
                a += 1
        elif c is Sym:
            p = v.p
            if n == 1:
                b = BYTEORG.find(p)
                if b is not None:
                    mem[a] = b
                    return
            for k in range(n):
                mem[a + k] = (p, k)
        elif c is Cond:
            self.wr(a, n, Sym(8, E.ite(v, 1, 0)))
        elif c is BS:
            p = v.p
            for k in range(n):
                mem[a + k] = (p, n - 1 - k)
        else:
            raise EngineError("store %r" % (v,))

    def rdbytes(self, a, n):
        return [self.mem.get(i, self.image.get(i, 0)) for i in range(a, a + n)]

    def wrbytes(self, a, bs):
        for i, b in enumerate(bs):
            self.mem[a + i] = b

    def load(self, t, n, a):
        k = t[0]
        if k == "s" or k == "a":
            out = []
            if k == "a":
                s = size_align(t[2])[0]
                return tuple(self.load(t[2], s, a + i * s) for i in range(t[1]))
            off = 0
            for f in t[1]:
                s, al = size_align(f)
                if not t[2]:
                    off = (off + al - 1) // al * al
                out.append(self.load(f, s, a + off))
                off += s
            return tuple(out)
        v = self.rd(a, n)
        if k == "i" and t[1] < 8 * n:
            return self.cast("trunc", 8 * n, t[1], v)
        return v

    def store(self, t, n, v, a):
        k = t[0]
        if k == "s" or k == "a":
            if k == "a":
                s = size_align(t[2])[0]
                for i, x in enumerate(v):
                    self.store(t[2], s, x, a + i * s)
                return
            off = 0
            for f, x in zip(t[1], v):
                s, al = size_align(f)
                if not t[2]:
                    off = (off + al - 1) // al * al
                self.store(f, s, x, a + off)
                off += s
            return
        self.wr(a, n, v)

    # ------------------------------------------------------------ integer views
    def norm(self, v, w, signed):
        """The integer denoted by v as a signed/unsigned w-bit number: int or Poly."""
        c = v.__class__
        if c is int:
            if signed and v >> (w - 1):
                return v - (1 << w)
            return v
        if c is Cond:
            p = E.ite(v, 1, 0)
            return E.neg(p) if signed and w == 1 else p
        if c is BS:
            raise EngineError("arithmetic on byte-swapped symbolic value %r %r" % (w, v.p))
        p = v.p
        M = 1 << w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        a, b = self.path.iv(p)
        if a is not None and b is not None:
            if lo <= a and b <= hi:
                return p
            k = (a - lo) // M
            if k and lo <= a - k * M and b - k * M <= hi:
                return E.add(p, P(-k * M))
        inr = E.cand(E.le(lo, p), E.le(p, hi))
        if self.path.branch(inr):
            return p
        # one wrap in either direction, else the general form
        q = E.add(p, P(-M))
        if self.path.branch(E.cand(E.le(lo, q), E.le(q, hi))):
            return q
        q = E.add(p, P(M))
        if self.path.branch(E.cand(E.le(lo, q), E.le(q, hi))):
            return q
        r = E.mod(E.add(p, P(-lo)), P(M))
        if r.c is None:
            self.path._bound(r, 0, M - 1)
        return E.add(r, P(lo))

    def truth(self, v):
        """A branch decision on an i1 value."""
        if v.__class__ is int:
            return v & 1 == 1
        if v.__class__ is Cond:
            return self.path.branch(v)
        raise EngineError("i1 %r" % (v,))

    # ------------------------------------------------------------ operations
    def binop(self, op, w, a, b):
        M = 1 << w
        if a.__class__ is int and b.__class__ is int:
            if op == "add":
                return (a + b) % M
            if op == "sub":
                return (a - b) % M
            if op == "mul":
                return (a * b) % M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) % M if b < w else 0
            if op == "lshr":
                return a >> b
            if op == "ashr":
                s = a - M if a >> (w - 1) else a
                return (s >> b) % M
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x = a - M if a >> (w - 1) else a
            y = b - M if b >> (w - 1) else b
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) % M
        if w == 1:
            if op == "and":
                return c01(E.cand(tc(a), tc(b)))
            if op == "or":
                return c01(E.cor(tc(a), tc(b)))
            if op in ("xor", "add", "sub"):
                x, y = tc(a), tc(b)
                if isinstance(y, bool):
                    x, y = y, x
                if isinstance(x, bool):
                    return c01(cnot(y) if x else y)
                return c01(E.cor(E.cand(x, cnot(y)), E.cand(cnot(x), y)))
        if op in ("add", "sub", "mul"):
            x, y = self.raw(a), self.raw(b)
            r = E.add(x, y) if op == "add" else E.sub(x, y) if op == "sub" else E.mul(x, y)
            return mksym(w, r)
        if op == "shl":
            if b.__class__ is int:
                if b >= w:
                    return 0
                r = E.scale(self.raw(a), 1 << b)
                return mksym(w, E.mk({m: k for m, k in r.t.items() if k % M}))
        if op == "lshr":
            if b.__class__ is int:
                return mksym(w, self.path.fdiv(P(self.norm(a, w, False)), P(1 << b)))
        if op == "ashr":
            if b.__class__ is int:
                return mksym(w, self.path.fdiv(P(self.norm(a, w, True)), P(1 << b)))
        if op in ("shl", "lshr", "ashr"):
            # symbolic shift amount: fork over its values
            n = self.concretize(b, w)
            return self.binop(op, w, a, n)
        if op == "udiv" or op == "urem":
            x, y = P(self.norm(a, w, False)), P(self.norm(b, w, False))
            q = self.path.fdiv(x, y)
            return mksym(w, q if op == "udiv" else E.sub(x, E.mul(q, y)))
        if op == "sdiv" or op == "srem":
            x, y = P(self.norm(a, w, True)), P(self.norm(b, w, True))
            br = self.path.branch
            nx = br(E.lt(x, 0))
            ny = br(E.lt(y, 0))
            ax = E.neg(x) if nx else x
            ay = E.neg(y) if ny else y
            q = self.path.fdiv(ax, ay)
            if nx != ny:
                q = E.neg(q)
            return mksym(w, q if op == "sdiv" else E.sub(x, E.mul(q, y)))
        if op == "and":
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                return self.and_mask(a, b, w)
        if op == "or":
            return self.or_(a, b, w)
        if op == "xor":
            if a.__class__ is int:
                a, b = b, a
            if b.__class__ is int:
                if b == 0:
                    return a
                if b == M - 1:
                    return mksym(w, E.sub(P(-1), self.raw(a)))
                x = self.and_mask(a, b, w)     # a ^ m = a + m - 2 (a & m)
                return mksym(w, E.sub(E.add(self.raw(a), P(b)), E.scale(self.raw(x), 2)))
            if a.__class__ is Sym and b.__class__ is Sym and a.p is b.p:
                return 0
        raise EngineError("unsupported symbolic %s i%d %r %r" % (op, w, a, b))

    def raw(self, v):
        c = v.__class__
        if c is int:
            return P(v)
        if c is Sym:
            return v.p
        if c is Cond:
            return E.ite(v, 1, 0)
        raise EngineError("arithmetic on %r" % (v,))

    def lowmod(self, p, m):
        """p mod m (m a power of two) with its interval recorded"""
        lo, hi = self.path.iv(p)
        if lo is not None and lo >= 0 and hi is not None and hi < m:
            return p
        r = E.mod(p, P(m))
        if r.c is None:
            self.path._bound(r, 0, m - 1)
        return r

    def and_mask(self, a, m, w):
        if m == 0:
            return 0
        M = 1 << w
        if m == M - 1:
            return a
        p = self.raw(a)
        # contiguous runs of ones
        tot = P(0)
        k = 0
        runs = 0
        while k < w:
            if not (m >> k) & 1:
                k += 1
                continue
            j = k
            while j < w and (m >> j) & 1:
                j += 1
            runs += 1
            if j == w:
                u = P(self.norm(a, w, False))
                part = E.scale(self.path.fdiv(u, P(1 << k)), 1 << k)
            elif k == 0:
                part = self.lowmod(p, 1 << j)
            else:
                part = E.scale(self.lowmod(self.path.fdiv(p, P(1 << k)), 1 << (j - k)), 1 << k)
            tot = E.add(tot, part)
            k = j
        if runs > 4:
            raise EngineError("and mask %x" % m)
        return mksym(w, tot)

    def or_(self, a, b, w):
        x, y = self.raw(a), self.raw(b)
        if x.c == 0:
            return b
        if y.c == 0:
            return a
        for p, q in ((x, y), (y, x)):
            tz = w
            for k in p.t.values():
                tz = min(tz, (k & -k).bit_length() - 1)
            if tz:
                lo, hi = self.path.iv(q)
                if lo is not None and lo >= 0 and hi is not None and hi < (1 << tz):
                    return mksym(w, E.add(p, q))
                # the low part may be a mod-class value: take it modulo 2^tz if it is that narrow
        # booleans stored in bytes
        for p, q in ((a, b), (b, a)):
            if p.__class__ is int:
                return mksym(w, E.sub(E.add(P(p), self.raw(q)), self.raw(self.and_mask(q, p, w))))
        lo, hi = self.path.iv(x)
        lo2, hi2 = self.path.iv(y)
        if lo is not None and lo >= 0 and hi is not None and hi <= 1 and lo2 is not None and lo2 >= 0 and hi2 is not None and hi2 <= 1:
            return mksym(w, E.ite(E.cor(E.eq(x, 1), E.eq(y, 1)), 1, 0))
        raise EngineError("unsupported symbolic or i%d %r %r" % (w, a, b))

    def concretize(self, v, w, limit=300):
        if v.__class__ is int:
            return v
        p = P(self.norm(v, w, False))
        if p.c is not None:
            return p.c
        lo, hi = self.path.iv(p)
        if lo is None or hi is None or hi - lo > limit:
            raise EngineError("cannot enumerate %r in [%s,%s]" % (p, lo, hi))
        for k in range(lo, hi):
            if self.path.branch(E.eq(p, k)):
                return k
        self.path.assume(E.eq(p, hi))
        return hi

    def icmp(self, pred, w, a, b):
        if a.__class__ is int and b.__class__ is int:
            if pred[0] == "s":
                M = 1 << w
                if a >> (w - 1):
                    a -= M
                if b >> (w - 1):
                    b -= M
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            o = pred[1:]
            return int(a < b if o == "lt" else a <= b if o == "le" else a > b if o == "gt" else a >= b)
        if w == 1:
            x, y = tc(a), tc(b)
            if isinstance(x, bool):
                x, y = y, x
            if pred in ("eq", "ne"):
                if isinstance(y, bool):
                    r = x if y else cnot(x)
                else:
                    r = E.cor(E.cand(x, y), E.cand(cnot(x), cnot(y)))
                return c01(r if pred == "eq" else cnot(r))
            raise EngineError("icmp i1")
        if pred in ("eq", "ne"):
            if a.__class__ is BS or b.__class__ is BS:
                M = 1 << w
                xs = []
                for v in (a, b):
                    if v.__class__ is BS:
                        xs.append(self.lowmod(v.p, M))
                    elif v.__class__ is int:
                        xs.append(P(int.from_bytes(v.to_bytes(w // 8, "little"), "big")))
                    else:
                        raise EngineError("icmp on byte-swapped")
                r = E.eq(xs[0], xs[1])
                return c01(r if pred == "eq" else cnot(r))
            d = E.sub(self.raw(a), self.raw(b))
            if d.c is not None:
                r = d.c % (1 << w) == 0
                return int(r if pred == "eq" else not r)
            M = 1 << w
            lo, hi = self.path.iv(d)
            if lo is not None and hi is not None and -M < lo and hi < M:
                r = E.eq(d, 0)
            else:
                # pick the view with the better intervals
                s = not (self._unsigned_ok(a, w) and self._unsigned_ok(b, w))
                r = E.eq(P(self.norm(a, w, s)), P(self.norm(b, w, s)))
            return c01(r if pred == "eq" else cnot(r))
        s = pred[0] == "s"
        x, y = P(self.norm(a, w, s)), P(self.norm(b, w, s))
        o = pred[1:]
        r = E.lt(x, y) if o == "lt" else E.le(x, y) if o == "le" else E.gt(x, y) if o == "gt" else E.ge(x, y)
        return c01(r)

    def _unsigned_ok(self, v, w):
        if v.__class__ is int:
            return True
        lo, hi = self.path.iv(self.raw(v))
        return lo is not None and lo >= 0 and hi is not None and hi < (1 << w)

    def cast(self, op, w1, w2, v):
        c = v.__class__
        if c is int:
            if op == "trunc":
                return v & ((1 << w2) - 1)
            if op == "sext":
                if v >> (w1 - 1):
                    return (v - (1 << w1)) & ((1 << w2) - 1)
                return v
            return v & ((1 << w2) - 1)
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            op = "trunc" if w2 < w1 else "zext"
            if w1 == w2:
                return v
        if c is Cond:
            if op == "zext":
                return Sym(w2, E.ite(v, 1, 0))
            if op == "sext":
                return Sym(w2, E.neg(E.ite(v, 1, 0)))
            return v
        if c is BS:
            raise EngineError("cast of byte-swapped")
        if op == "trunc":
            if w2 == 1:
                p = v.p
                lo, hi = self.path.iv(p)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    return c01(E.eq(p, 1))
                r = self.lowmod(p, 2)
                return c01(E.eq(r, 1)) if r.c is None else r.c
            p = v.p
            # drop the multiples of 2^w2
            t = {m: k % (1 << w2) if (k >> w2) and k > 0 else k for m, k in p.t.items()}
            return mksym(w2, E.mk(t))
        if op == "zext":
            lo, hi = self.path.iv(v.p)
            M = 1 << w1
            if lo is not None and -M <= lo < 0 and hi is not None and 0 <= hi < M:
                return mksym(w2, E.add(v.p, E.scale(E.ite(E.lt(v.p, 0), 1, 0), M)))
        return mksym(w2, P(self.norm(v, w1, op == "sext")))

    # ------------------------------------------------------------ calls
    def call(self, name, args):
        f = self.L.m.fns.get(name)
        h = self.intercept(name, f)
        if h is not None:
            return h(self, args)
        if f is None:
            return self.extern(name, args)
        if self.path.abstract:
            r = kernel.apply(self, name, f, args)
            if r is not kernel.SKIP:
                return r
        return self.run(f, args)

    _icache = {}

    def intercept(self, name, f):
        h = Instance._icache.get(name, 0)
        if h == 0:
            from . import intercepts
            h = Instance._icache[name] = intercepts.lookup(name, f)
        return h

    def extern(self, name, args):
        if name.startswith("llvm."):
            return self.intrinsic(name, args)
        d = self.L.m.decls.get(name, name)
        if d.startswith("soroban_env_guest::guest::"):
            return self.host(self, d.split("::")[-1], args)
        raise EngineError("undefined function %s" % d)

    def intrinsic(self, name, args):
        m = OVF.match(name)
        if m:
            s, op, w = m.group(1) == "s", m.group(2), int(m.group(3))
            a, b = self.norm(args[0], w, s), self.norm(args[1], w, s)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            if isinstance(a, int) and isinstance(b, int):
                r = a + b if op == "add" else a - b if op == "sub" else a * b
                return (r & ((1 << w) - 1), int(not lo <= r <= hi))
            a, b = P(a), P(b)
            r = E.add(a, b) if op == "add" else E.sub(a, b) if op == "sub" else E.mul(a, b)
            if r.c is not None:
                return (r.c & ((1 << w) - 1), int(not lo <= r.c <= hi))
            ovf = E.cor(E.lt(r, lo), E.gt(r, hi))
            d = self.path.decide(ovf)
            return (mksym(w, r), int(d) if d is not None else ovf)
        if name.startswith("llvm.expect"):
            return args[0]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            n = args[2]
            if n.__class__ is not int:
                n = self.concretize(n, 32)
            self.wrbytes(args[0], self.rdbytes(args[1], n))
            return 0
        if name.startswith("llvm.memset"):
            n = args[2]
            if args[1].__class__ is not int or n.__class__ is not int:
                raise EngineError("memset")
            for i in range(n):
                self.mem[args[0] + i] = args[1] & 255
            return 0
        if name.startswith("llvm.bswap"):
            w = int(name.split(".i")[-1])
            v = args[0]
            if v.__class__ is int:
                return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
            if v.__class__ is BS:
                return mksym(w, v.p)
            return BS(w, v.p)
        if name.startswith("llvm.trap"):
            raise Revert("trap")
        if name.startswith("llvm.is.constant"):
            return 0
        if name.startswith("llvm.assume"):
            return 0
        m = re.match(r"llvm\.([su])(min|max)\.i(\d+)$", name)
        if m:
            s, w = m.group(1) == "s", int(m.group(3))
            a, b = P(self.norm(args[0], w, s)), P(self.norm(args[1], w, s))
            c = self.path.branch(E.le(a, b)) if not isinstance(E.le(a, b), bool) else E.le(a, b)
            return args[0] if c == (m.group(2) == "min") else args[1]
        m = re.match(r"llvm\.([su])(add|sub)\.sat\.i(\d+)$", name)
        if m:
            s, w = m.group(1) == "s", int(m.group(3))
            a, b = P(self.norm(args[0], w, s)), P(self.norm(args[1], w, s))
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
            r = E.add(a, b) if m.group(2) == "add" else E.sub(a, b)
            if self.path.branch(E.gt(r, hi)):
                return hi
            if self.path.branch(E.lt(r, lo)):
                return lo & ((1 << w) - 1)
            return mksym(w, r)
        m = re.match(r"llvm\.abs\.i(\d+)$", name)
        if m:
            w = int(m.group(1))
            a = P(self.norm(args[0], w, True))
            return mksym(w, E.neg(a) if self.path.branch(E.lt(a, 0)) else a)
        m = re.match(r"llvm\.(ctlz|cttz|ctpop)\.i(\d+)$", name)
        if m and args[0].__class__ is int:
            w, v = int(m.group(2)), args[0]
            if m.group(1) == "ctlz":
                return w - v.bit_length()
            if m.group(1) == "cttz":
                return (v & -v).bit_length() - 1 if v else w
            return bin(v).count("1")
        m = re.match(r"llvm\.ctlz\.i(\d+)$", name)
        if m:
            w = int(m.group(1))
            p = P(self.norm(args[0], w, False))
            for k in range(w):
                if self.path.branch(E.lt(p, 1 << k)):
                    return w - k
            return 0
        if name.startswith("llvm.wasm.memory.size"):
            return 2048
        raise EngineError("intrinsic %s" % name)

    # ------------------------------------------------------------ the loop
    def run(self, f, args):
        try:
            return self.run_(f, args)
        except EngineError as e:
            if len(getattr(e, "where", "")) < 300:
                e.where = getattr(e, "where", "") + " < " + f.demangled
                e.args = (str(e.args[0]).split("  in  ")[0] + "  in  " + e.where,)
            raise

    def run_(self, f, args):
        if f.blocks is None:
            f.compile()
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise EngineError("recursion depth")
        self.stats.functions.add(f.demangled)
        R = [0] * f.nregs
        for i, a in zip(f.pregs, args):
            R[i] = a
        sp0 = self.sp
        L = self.L
        path = self.path
        prev = -1
        bi = 0
        blocks = f.blocks
        trap = f.trap
        n = 0

        def val(x):
            c = x.__class__
            if c is Reg:
                return R[x.i]
            if c is int:
                return x
            if c is Glob or c is CExpr:
                return L.ptr(x)
            if c is tuple:
                return tuple(val(y) for y in x)
            return x
        visits = {}
        symv = {}
        havoc = None
        if path.havoc and f.name in kernel.loops(self):
            havoc = kernel.Havoc(self, f, sp0)
        while True:
            phis, ins = blocks[bi]
            if phis:
                vs = [val(ph[2][prev]) for ph in phis]
                for ph, v in zip(phis, vs):
                    R[ph[1]] = v
            if havoc is not None and bi in havoc.heads:
                havoc.arrive(bi, prev, R, phis)
            k = visits.get(bi, 0) + 1
            visits[bi] = k
            if k > 3000:
                raise EngineError("loop bound exceeded in %s" % f.demangled)
            nxt = None
            for I in ins:
                n += 1
                op = I[0]
                if op == "call":
                    callee = I[2]
                    a = [R[x.i] if x.__class__ is Reg else val(x) for x in I[3]]
                    if callee.__class__ is not str:
                        callee = L.fnaddr[R[callee.i]]
                    r = self.call(callee, a)
                    if I[1] is not None:
                        R[I[1]] = r
                elif op == "extract":
                    v = val(I[2])
                    for i in I[3]:
                        v = v[i]
                    R[I[1]] = v
                elif op == "br":
                    c = val(I[1])
                    if c.__class__ is int:
                        nxt = I[2] if c & 1 else I[3]
                    else:
                        if path.loop_bound is not None and path.decide(c) is None:
                            k = symv.get(bi, 0) + 1
                            symv[bi] = k
                            if k > path.loop_bound:
                                path.stats.loopcut += 1
                                raise Prune("loop bound")
                        t1, t2 = trap[I[2]], trap[I[3]]
                        if t1 != t2:
                            good = cnot(c) if t1 else c
                            path_require(path, good, f.demangled)
                            nxt = I[3] if t1 else I[2]
                        else:
                            nxt = I[2] if self.truth(c) else I[3]
                    if trap[nxt]:
                        raise Revert("trap in %s" % f.demangled)
                    break
                elif op == "jmp":
                    nxt = I[1]
                    break
                elif op == "store":
                    t = I[1]
                    v = val(I[3])
                    a = val(I[4])
                    if t[0] in "sa":
                        self.store(t, I[2], v, a)
                    else:
                        self.wr(a, I[2], v)
                elif op == "alloca":
                    a = (self.sp + I[3] - 1) // I[3] * I[3]
                    self.sp = a + I[2]
                    R[I[1]] = a
                elif op == "gep":
                    a = val(I[2]) + I[3]
                    for x, w, sz in I[4]:
                        v = val(x)
                        if v.__class__ is not int:
                            v = self.concretize(v, w)
                        if v >> (w - 1):
                            v -= 1 << w
                        a += v * sz
                    R[I[1]] = a
                elif op == "icmp":
                    R[I[1]] = self.icmp(I[2], I[3], val(I[4]), val(I[5]))
                elif op == "load":
                    t = I[2]
                    a = val(I[4])
                    if a.__class__ is not int:
                        raise EngineError("symbolic pointer")
                    R[I[1]] = self.load(t, I[3], a)
                elif op == "cast":
                    R[I[1]] = self.cast(I[2], I[3], I[4], val(I[5]))
                elif op == "insert":
                    R[I[1]] = _insert(val(I[2]), val(I[3]), I[4])
                elif op == "select":
                    c = val(I[2])
                    if c.__class__ is not int:
                        x, y = val(I[3]), val(I[4])
                        if I[5] == 1:
                            R[I[1]] = c01(E.cor(E.cand(c, tc(x)), E.cand(cnot(c), tc(y))))
                            continue
                        if I[5] and x.__class__ is int and y.__class__ is int:
                            M = 1 << I[5]
                            R[I[1]] = mksym(I[5], E.ite(c, x - M if x >> (I[5] - 1) else x,
                                                        y - M if y >> (I[5] - 1) else y))
                            continue
                        c = 1 if self.truth(c) else 0
                    R[I[1]] = val(I[3]) if c & 1 else val(I[4])
                elif op == "bin":
                    a, b = val(I[4]), val(I[5])
                    R[I[1]] = self.binop(I[2], I[3], a, b)
                elif op == "ret":
                    v = val(I[1])
                    self.sp = sp0
                    self.depth -= 1
                    self.stats.instrs += n
                    return v
                elif op == "switch":
                    v = val(I[1])
                    nxt = I[3]
                    if v.__class__ is int:
                        for cv, lab in I[4]:
                            if cv == v:
                                nxt = lab
                                break
                    else:
                        for cv, lab in I[4]:
                            c = self.icmp("eq", I[2], v, cv)
                            if (c if c.__class__ is int else self.truth(c)):
                                nxt = lab
                                break
                    if trap[nxt]:
                        raise Revert("trap in %s" % f.demangled)
                    break
                elif op == "mov":
                    R[I[1]] = val(I[2])
                elif op == "unreachable":
                    raise Revert("unreachable in %s" % f.demangled)
                elif op == "asm":
                    if I[1] is not None:
                        R[I[1]] = 0
                else:
                    raise EngineError("op %s" % op)
            prev = bi
            bi = nxt


def path_require(path, good, what):
    """Execution continues only if good holds; otherwise the transaction traps."""
    d = path.decide(good)
    if d is True:
        return
    if d is False:
        if path.trap_mode == "prove":
            path.on_trap(E.cnot(good), what)
        raise Revert("trap in %s" % what)
    if path.trap_mode == "prove":
        path.on_trap(E.cnot(good), what)
    path.assume(good)


def _insert(v, e, idx):
    l = list(v) if v.__class__ is tuple else [0, 0, 0, 0]
    if len(idx) == 1:
        l[idx[0]] = e
    else:
        l[idx[0]] = _insert(l[idx[0]], e, idx[1:])
    return tuple(l)


def tc(v):
    if v.__class__ is int:
        return bool(v & 1)
    if v.__class__ is Cond:
        return v
    raise EngineError("i1 %r" % (v,))


def c01(c):
    if c is True:
        return 1
    if c is False:
        return 0
    return c
