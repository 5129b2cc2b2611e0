"""Numeric kernels: functions that iterate (contain a loop) over 256-bit arithmetic and touch nothing else.
In a scenario with path.abstract set they are replaced by an uninterpreted function of their inputs (any result
in range, the same for the same inputs): what is decided there holds for every curve. The kernels themselves are
the subject of P27. Recognised by structure, not by name."""
from . import expr as E
from .expr import P
from .path import Revert, Prune, EngineError

NUMERIC = ("obj_from_", "obj_to_", "u256_", "i256_", "obj_cmp", "fail_with_error", "log_from_linear_memory",
           "string_new", "vec_new_from", "bytes_", "get_ledger_timestamp")
HEAVY = ("u256_mul", "u256_div", "u256_pow", "i256_mul", "i256_div")


def analyse(L):
    """names of the kernel functions of a loaded module"""
    import re
    m = L.m
    callees, loops = {}, {}
    for nm, f in m.fns.items():
        if f.blocks is None:
            f.compile()
        cs = set()
        edges = {}
        for bi, (phis, ins) in enumerate(f.blocks):
            for I in ins:
                if I[0] == "call":
                    cs.add(I[2] if isinstance(I[2], str) else "?")
            last = ins[-1]
            edges[bi] = [last[2], last[3]] if last[0] == "br" else [last[1]] if last[0] == "jmp" else \
                [last[3]] + [x[1] for x in last[4]] if last[0] == "switch" else []
        callees[nm] = cs
        loops[nm] = _cyclic(edges)
    host = {}
    for nm, d in m.decls.items():
        if d.startswith("soroban_env_guest::guest::"):
            host[nm] = d.split("::")[-1]
    from . import intercepts
    memo = {}

    def reach(nm):
        """(only numeric, uses heavy arithmetic)"""
        if nm in memo:
            return memo[nm]
        memo[nm] = (True, False)
        if nm in host:
            h = host[nm]
            r = (h.startswith(NUMERIC), h in HEAVY)
        elif nm.startswith("llvm."):
            r = (True, False)
        elif nm == "?":
            r = (False, False)
        elif intercepts.lookup(nm, m.fns.get(nm)) is not None:
            r = (True, False)
        elif nm in callees:
            ok, heavy = True, False
            for c in callees[nm]:
                a, b = reach(c)
                ok, heavy = ok and a, heavy or b
            r = (ok, heavy)
        else:
            r = (False, False)
        memo[nm] = r
        return r
    out = {nm for nm in m.fns if loops[nm] and reach(nm) == (True, True)}
    # those that use another kernel
    below = {}

    def uses(nm):
        if nm not in below:
            below[nm] = False
            below[nm] = any(c in out or uses(c) for c in callees.get(nm, ()))
        return below[nm]
    L.compound = {nm for nm in out if uses(nm)}
    return out


def _cyclic(edges):
    state = {}
    for s in edges:
        if s in state:
            continue
        stack = [(s, iter(edges[s]))]
        state[s] = 1
        while stack:
            n, it = stack[-1]
            for t in it:
                if state.get(t) == 1:
                    return True
                if t not in state:
                    state[t] = 1
                    stack.append((t, iter(edges[t])))
                    break
            else:
                state[n] = 2
                stack.pop()
    return False


def loops(inst):
    ks = inst.L.__dict__.get("kernels")
    if ks is None:
        ks = inst.L.kernels = analyse(inst.L)
    return ks


def backedges(f):
    """(from, head) edges that close a loop"""
    r = f.__dict__.get("backs")
    if r is None:
        r = f.backs = set()
        state = {}
        stack = [(0, iter(succs(f.blocks[0][1][-1])))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for t in it:
                if state.get(t) == 1:
                    r.add((n, t))
                elif t not in state:
                    state[t] = 1
                    stack.append((t, iter(succs(f.blocks[t][1][-1]))))
                    break
            else:
                state[n] = 2
                stack.pop()
    return r


def succs(last):
    return [last[2], last[3]] if last[0] == "br" else [last[1]] if last[0] == "jmp" else \
        [last[3]] + [x[1] for x in last[4]] if last[0] == "switch" else []


class Havoc:
    """One activation of a numeric kernel. When a loop head is reached for the second time, everything the iteration
    changed (live memory, phis) becomes arbitrary, so what follows stands for every later iteration; when it is
    reached again and nothing else has changed, the path is covered by the one before and ends."""

    def __init__(self, inst, f, sp0):
        self.i, self.f = inst, f
        self.backs = backedges(f)
        self.heads = {h for _, h in self.backs}
        self.at = {}

    def live(self):
        i = self.i
        return {a: b for a, b in i.mem.items() if not i.sp <= a < 0x4000000}

    def arrive(self, head, prev, R, phis):
        i = self.i
        now = (self.live(), {ph[1]: R[ph[1]] for ph in phis})
        if (prev, head) not in self.backs:
            self.at[head] = (now, set(), set())
            return
        (mem0, reg0), hm, hr = self.at[head]
        mem, reg = now
        cm = {a for a, b in mem.items() if a not in mem0 or not same(mem0[a], b)} - hm
        cr = {r for r, v in reg.items() if not same(reg0[r], v)} - hr
        i.path.stats.loopcut += 1
        if not cm and not cr:
            raise Prune("loop covered")
        hm, hr = hm | cm, hr | cr
        i.path.abstracted = True
        done = set()
        for a in sorted(hm):
            if a in done:
                continue
            w = a & ~7
            v = i.rdbytes(w, 8)
            if all(b.__class__ is int for b in v) and v[0] in KINDTAG:
                i.wr(w, 8, self.value(v[0]))
                done.update(range(w, w + 8))
                continue
            b = i.mem[a]
            n = 1
            if b.__class__ is tuple:
                a0 = a - b[1]
                while i.mem.get(a0 + n, 0) == (b[0], n):
                    n += 1
                a = a0
            i.wr(a, n, Sym_(8 * n, i.path.fresh("loop", 0, (1 << (8 * n)) - 1)))
            done.update(range(a, a + n))
        for ph in phis:
            if ph[1] in hr:
                v = R[ph[1]]
                if v.__class__ is int and v & 255 in KINDTAG and v >> 8:
                    R[ph[1]] = self.value(v & 255)
                elif v.__class__ is int:
                    raise EngineError("loop-carried number")
                else:
                    R[ph[1]] = Sym_(v.w, i.path.fresh("loop", 0, (1 << v.w) - 1))
        self.at[head] = ((self.live(), {ph[1]: R[ph[1]] for ph in phis}), hm, hr)

    def value(self, tag):
        kind = KINDTAG[tag]
        lo, hi = (0, (1 << 256) - 1) if kind == "u256" else (-(1 << 255), (1 << 255) - 1)
        return self.i.host.w.encode_int(kind, self.i.path.fresh("iterate", lo, hi))


KINDTAG = {12: "u256", 13: "i256", 70: "u256", 71: "i256"}


def Sym_(w, p):
    from .interp import mksym
    return mksym(w, p)


def same(a, b):
    return a is b or (a.__class__ is b.__class__ and a == b)


def norm(inst, r):
    """results compare by value, not by object handle"""
    if r.__class__ is int and (r & 255) in (12, 13, 70, 71) and r >> 8:
        try:
            return inst.host.w.dec(r)
        except Exception:
            return r
    return r


def attempt(inst, sub, f, cargs, **kw):
    mode = inst.path.abstract, inst.path.havoc
    inst.path.abstract = inst.path.havoc = False
    try:
        r = sub.run(f, cargs)
    except Revert:
        return None
    except Exception:
        if not kw:
            raise
        return None
    finally:
        inst.path.abstract, inst.path.havoc = mode
    return norm(inst, r) if kw else r


SAMPLES = (10 ** 18 + 7, 10 ** 12 + 3, 12345, 10 ** 20 + 9, 200)


def probe(inst, f, args):
    """run the kernel on sample numbers to see whether it returns a 256-bit object, and which pointers it reads"""
    kinds = set()
    used = set()
    for s in SAMPLES:
        for sc in (s, 200):
            sub = inst.__class__(inst.L, inst.path, inst.host)
            sub.sp, sub.heap = inst.sp, inst.heap
            sub.mem = {a: (b if b.__class__ is int else ((s >> (8 * b[1])) & 255)) for a, b in inst.mem.items()}
            cargs = [a if a.__class__ is int else (sc if j else sc) for j, a in enumerate(args)]
            sp0 = sub.sp
            before = dict(sub.mem)
            r = attempt(inst, sub, f, cargs)
            if r is None:
                continue
            for j, a in enumerate(args):
                if f.params[j][1][0] != "i" and a >= 0x10000 and j not in used:
                    # is what this points to an input? (references to zero-sized values point anywhere)
                    alt = inst.__class__(inst.L, inst.path, inst.host)
                    alt.sp, alt.heap, alt.mem = inst.sp, inst.heap, dict(before)
                    for b in range(a, a + 8):
                        alt.mem[b] = alt.mem.get(b, 0) ^ 0x5b
                    if attempt(inst, alt, f, cargs, norm=True) != norm(inst, r):
                        used.add(j)
            if any(a < sp0 and before.get(a) != b for a, b in sub.mem.items()):
                return "mem", used
            if r.__class__ is not int:
                raise EngineError("kernel probe of %s" % f.demangled)
            kinds.add({12: "u256", 13: "i256", 70: "u256", 71: "i256"}.get(r & 255, "num")
                      if f.ret == ("i", 64) else "num")
            if len(kinds) > 1:
                return "num", used
    return kinds.pop() if kinds else "num", used


KIND = {}
SKIP = object()


def apply(inst, name, f, args):
    """-> the abstract result, or SKIP when the function has to be executed"""
    ks = inst.L.__dict__.get("kernels")
    if ks is None:
        ks = inst.L.kernels = analyse(inst.L)
    if name not in ks or (inst.path.abstract == "leaf" and name in inst.L.compound):
        return SKIP
    key = (id(inst.L), name)
    k = KIND.get(key)
    if k is None:
        k = KIND[key] = probe(inst, f, args)
    k, used = k
    if k == "mem" or f.ret[0] != "i":
        return SKIP
    ins = []
    ptys = [t for _, t in f.params]
    i = 0
    w = inst.host.w
    while i < len(args):
        t = ptys[i]
        if t[0] == "i":
            ins.append(P(inst.norm(args[i], t[1], False)))
        elif i + 1 < len(args) and ptys[i + 1] == ("i", 32) and isinstance(args[i + 1], int) and args[i + 1] <= 8:
            for j in range(args[i + 1]):
                ins.append(P(inst.norm(inst.rd(args[i] + 16 * j, 16), 128, False)))
            i += 1
        elif args[i] >= 0x10000 and i in used:
            v = inst.rd(args[i], 8)
            if v.__class__ is int and (v & 255) in (12, 13, 70, 71):
                ins.append(P(w.dec(v)[1]))
            else:
                ins.append(P(inst.norm(v, 64, False)))
        i += 1
    inst.path.abstracted = True
    if k == "num":
        r = E.uf("kernel:" + f.demangled, ins, 0, (1 << f.ret[1]) - 1)
        from .interp import mksym
        out = mksym(f.ret[1], r)
    else:
        lo, hi = (0, (1 << 256) - 1) if k == "u256" else (-(1 << 255), (1 << 255) - 1)
        r = E.uf("kernel:" + f.demangled, ins, lo, hi)
        out = w.encode_int(k, r)
    inst.path.kernels.append((f.demangled, tuple(ins), r))
    if inst.path.kernel_fact:
        inst.path.assume(inst.path.kernel_fact(ins, r))
    inst.stats.functions.add("[uninterpreted] " + f.demangled)
    return out
