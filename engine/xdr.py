"""ScVal <-> XDR hex, for values of the engine (concrete ones)."""
import struct
from .expr import Poly

T = dict(bool=0, void=1, err=2, u32=3, i32=4, u64=5, i64=6, time=7, dur=8, u128=9, i128=10, u256=11, i256=12,
         bytes=13, str=14, sym=15, vec=16, map=17, addr=18)
R = {v: k for k, v in T.items()}
W = {"u32": 4, "i32": 4, "u64": 8, "i64": 8, "time": 8, "dur": 8, "u128": 16, "i128": 16, "u256": 32, "i256": 32}


def cint(n):
    if isinstance(n, Poly):
        assert n.c is not None, "symbolic value in a native call"
        return n.c
    return n


def opaque(b):
    return struct.pack(">I", len(b)) + b + b"\0" * (-len(b) % 4)


def enc(v):
    k = v[0]
    out = struct.pack(">i", T[k])
    if k == "void":
        return out
    if k == "bool":
        return out + struct.pack(">i", int(bool(cint(v[1]))))
    if k in W:
        w = W[k]
        return out + (cint(v[1]) & ((1 << (8 * w)) - 1)).to_bytes(w, "big")
    if k == "bytes":
        return out + opaque(bytes(cint(x) for x in v[1]))
    if k == "str":
        return out + opaque(bytes(v[1]))
    if k == "sym":
        return out + opaque(v[1].encode())
    if k == "addr":
        return out + struct.pack(">i", 1) + cint(v[1]).to_bytes(32, "big")
    if k == "vec":
        return out + struct.pack(">iI", 1, len(v[1])) + b"".join(enc(x) for x in v[1])
    if k == "map":
        return out + struct.pack(">iI", 1, len(v[1])) + b"".join(enc(x) + enc(y) for x, y in v[1])
    raise ValueError(k)


def dec(b):
    v, i = _dec(b, 0)
    assert i == len(b)
    return v


def _dec(b, i):
    k = R[struct.unpack_from(">i", b, i)[0]]
    i += 4
    if k == "void":
        return ("void",), i
    if k == "bool":
        return ("bool", struct.unpack_from(">i", b, i)[0] == 1), i + 4
    if k == "err":
        t, c = struct.unpack_from(">ii", b, i)
        return ("err", (c << 32) | (t << 8) | 3), i + 8
    if k in W:
        w = W[k]
        n = int.from_bytes(b[i:i + w], "big")
        if k[0] == "i" and n >> (8 * w - 1):
            n -= 1 << (8 * w)
        return (k, n), i + w
    if k in ("bytes", "str", "sym"):
        n = struct.unpack_from(">I", b, i)[0]
        d = b[i + 4:i + 4 + n]
        i += 4 + n + (-n % 4)
        return (k, tuple(d) if k == "bytes" else d if k == "str" else d.decode()), i
    if k == "addr":
        t = struct.unpack_from(">i", b, i)[0]
        i += 4
        if t == 0:
            i += 4
        return ("addr", int.from_bytes(b[i:i + 32], "big")), i + 32
    p, n = struct.unpack_from(">iI", b, i)
    i += 8
    out = []
    for _ in range(n):
        x, i = _dec(b, i)
        if k == "map":
            y, i = _dec(b, i)
            x = (x, y)
        out.append(x)
    return (k, tuple(out)), i


def hexv(v):
    return enc(v).hex()


def unhexv(s):
    return dec(bytes.fromhex(s))
