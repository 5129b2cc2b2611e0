"""Curves as contract values, and their reference values."""
from engine import expr as E
from engine.expr import P
from engine.harness import *


def u128(n):
    return ("u128", n)


def const(v):
    return enum("Constant", u128(v))


def sat(x1, y1, x2, y2):
    return enum("SaturatingLinear", struct(min_x=u64(x1), min_y=u128(y1), max_x=u64(x2), max_y=u128(y2)))


def pieces(steps):
    return enum("PiecewiseLinear", struct(steps=vec(*[struct(time=u64(t), value=u128(v)) for t, v in steps])))


def interp(x1, y1, x2, y2, x):
    """between the two points; rounded toward the earlier value"""
    w = E.sub(x2, x1)
    w = E.ite(E.gt(w, 0), w, 1)
    up = E.add(y1, E.fdiv(E.mul(E.sub(y2, y1), E.sub(x, x1)), w))
    down = E.sub(y1, E.fdiv(E.mul(E.sub(y1, y2), E.sub(x, x1)), w))
    return E.ite(E.ge(y2, y1), up, down)


def value(points, x):
    """reference: first value before the first point, last value after the last, linear in between"""
    r = points[-1][1]
    for (x1, y1), (x2, y2) in reversed(list(zip(points, points[1:]))):
        r = E.ite(E.lt(x, x2), interp(x1, y1, x2, y2, x), r)
    return E.ite(E.le(x, points[0][0]), points[0][1], r)


class Curve:
    """an arbitrary valid curve: kind 'const', 'sat', or a number of steps"""

    def __init__(self, ctx, kind, name="c", maxy=10 ** 20, maxt=1 << 40, order=None, valid=True, times=None):
        self.kind = kind
        n = 1 if kind == "const" else 2 if kind == "sat" else kind
        ts = [ctx.u64("%s_t%d" % (name, i), 0, maxt) for i in range(n)] if times is None else [P(t) for t in times]
        vs = [ctx.int("%s_v%d" % (name, i), 0, maxy) for i in range(n)]
        self.points = list(zip(ts, vs))
        if valid:
            if kind not in ("const", "sat"):
                ctx.assume(E.gt(ts[0], 0))
            for a, b in zip(ts, ts[1:]):
                ctx.assume(E.lt(a, b))
        if order:
            for a, b in zip(vs, vs[1:]):
                ctx.assume(E.ge(a, b) if order < 0 else E.le(a, b))
        if kind == "const":
            self.val = const(vs[0])
            self.points = [(P(0), vs[0])]
        elif kind == "sat":
            self.val = sat(ts[0], vs[0], ts[1], vs[1])
        else:
            self.val = pieces(self.points)

    def at(self, x):
        return value(self.points, x)
