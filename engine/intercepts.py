"""Functions executed by their specification instead of their code (listed in DESIGN.md):
SDK integer<->Val conversions, panic/formatting machinery, integer square root, allocation."""
import re
from . import expr as E
from .expr import P, Poly
from .path import Revert, EngineError


def _conv(kind, w, signed):
    def h(inst, args):
        v = inst.rd(args[1], w // 8)
        return (0, inst.host.w.encode_int(kind, inst.norm(v, w, signed)))
    return h


def _panic(inst, args):
    raise Revert("panic")


def _ok0(inst, args):
    return 0


def _sqrt(w, signed):
    def h(inst, args):
        # by value or by reference, depending on the trait method
        v = args[0]
        if h.byref:
            v = inst.rd(args[0], w // 8)
        n = inst.norm(v, w, signed)
        path = inst.path
        if isinstance(n, int) or P(n).c is not None:
            n = n if isinstance(n, int) else P(n).c
            if n < 0:
                raise Revert("sqrt of negative")
            import math
            return math.isqrt(n)
        if path.branch(E.lt(n, 0)):
            raise Revert("sqrt of negative")
        r = E.uf("isqrt", [n], 0, 1 << ((w + 1) // 2))
        path.assume(E.le(E.mul(r, r), n))
        path.assume(E.lt(n, E.add(E.mul(r, r), E.add(E.scale(r, 2), 1))))
        from .interp import mksym
        return mksym(w, r)
    h.byref = False
    return h


import math
E.UF_EVAL["isqrt"] = math.isqrt

KINDS = {"i128": ("i128", 128, True), "u128": ("u128", 128, False), "i64": ("i64", 64, True), "u64": ("u64", 64, False)}


def _alloc(inst, args):
    n, al = args[0], max(args[1], 1)
    a = (inst.heap + al - 1) // al * al
    inst.heap = a + n
    return a


def lookup(name, f):
    d = f.demangled if f is not None else None
    if d is None:
        from .ir import demangle
        d = demangle(name)
    m = re.search(r"<soroban_env_common::(?:val::Val|num::[IU]\d+Val) as soroban_env_common::convert::TryFromVal<E,([iu]\d+)>>::try_from_val$", d)
    if m and m.group(1) in KINDS:
        return _conv(*KINDS[m.group(1)])
    if d.startswith(("core::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
                     "core::result::unwrap_failed", "core::slice::index::slice_", "alloc::raw_vec::handle_error",
                     "alloc::alloc::handle_alloc_error", "core::slice::copy_from_slice::len_mismatch",
                     "core::cell::panic", "core::str::slice_error_fail")):
        return _panic
    if d.startswith(("core::fmt::write", "core::fmt::Formatter", "core::fmt::num::", "std::io::stdio::_eprint")) or \
            (" as core::fmt::" in d and f is None):
        return _ok0
    m = re.search(r"<([iu]\d+) as num_integer::roots::Roots>::sqrt$", d)
    if m:
        k = m.group(1)
        h = _sqrt(int(k[1:]), k[0] == "i")
        h.byref = True
        return h
    if d.endswith("contract_event") and "guest" in d:
        return lambda inst, args: 2
    if name in ("__rust_alloc", "__rust_alloc_zeroed", "__rg_alloc"):
        return _alloc
    if name in ("__rust_dealloc", "__rg_dealloc"):
        return _ok0
    return None
