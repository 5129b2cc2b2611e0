from itertools import combinations

from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID
from .curves import *

CONTRACTS = ["probe"]
LEVEL = "model_checking"
BOUNDS = ("curves: constant, linear, and 1 to 4 steps (thorough: 5) with arbitrary 64-bit times and 128-bit values, valid "
          "or not; evaluation never traps for values up to 10^20 and times below 2^40; sums of two curves of up to 2 "
          "steps each with values up to 10^20, times below 2^40; between its points, two linear curves at all choices of a "
          "few times")
OUTSIDE = "curves with more steps; sums of curves with more than 2 steps each (thorough: 3 and 2)"
X = 0x10
U128 = (1 << 128) - 1


def num(v):
    return v[1]


def probe(ctx):
    ctx.deploy(X, "probe")


def any_curve(ctx, kind, name="c"):
    return Curve(ctx, kind, name, maxy=U128, maxt=U64MAX, valid=False)


def shape(ctx, c):
    """times strictly increasing, values all rising / all falling"""
    ps = c.points
    ts = [E.lt(a[0], b[0]) for a, b in zip(ps, ps[1:])]
    up = [E.le(a[1], b[1]) for a, b in zip(ps, ps[1:])]
    dn = [E.ge(a[1], b[1]) for a, b in zip(ps, ps[1:])]
    return E.cand(True, *ts), E.cand(True, *up), E.cand(True, *dn)


def values(ctx, kind):
    """evaluation against the reference, for every valid curve"""
    probe(ctx)
    c = any_curve(ctx, kind)
    x = ctx.u64("x")
    ctx.assume(E.eq(num(ctx.call(X, "validate", c.val)), 0))
    lo, hi = [num(v) for v in ctx.call(X, "range", c.val)[1]]
    for _, v in c.points:
        ctx.check(E.cand(E.le(lo, v), E.le(v, hi)), "the range contains every given value")
    ctx.check(E.cor(*[E.eq(lo, v) for _, v in c.points]), "the lower end of the range is taken")
    ctx.check(E.cor(*[E.eq(hi, v) for _, v in c.points]), "the upper end of the range is taken")
    v = num(ctx.call(X, "value", c.val, u64(x)))
    ctx.check(E.eq(v, c.at(x)), "the value is the interpolation between the neighbouring points")
    ctx.check(E.cand(E.le(lo, v), E.le(v, hi)), "the value lies within the reported range")


def total(ctx, kind):
    """evaluation never traps"""
    probe(ctx)
    c = Curve(ctx, kind)
    x = ctx.u64("x")
    v = num(ctx.must_succeed(X, "value", c.val, u64(x)))
    ctx.check(E.eq(v, c.at(x)), "the value is the interpolation between the neighbouring points")


def facts(ctx, kind):
    """validation, size, end"""
    probe(ctx)
    c = any_curve(ctx, kind)
    n = len(c.points)
    ordered, up, down = shape(ctx, c)
    if kind not in ("const", "sat"):
        ordered = E.cand(ordered, E.gt(c.points[0][0], 0))
    r = num(ctx.call(X, "validate", c.val))
    ctx.check(iff(E.eq(r, 0), ordered), "a curve is valid exactly when its times increase")
    r = num(ctx.call(X, "increasing", c.val))
    ctx.check(iff(E.eq(r, 0), E.cand(ordered, up)), "a curve is accepted as increasing exactly when it never falls")
    r = num(ctx.call(X, "decreasing", c.val))
    ctx.check(iff(E.eq(r, 0), E.cand(ordered, down)), "a curve is accepted as decreasing exactly when it never rises")
    ctx.check(E.eq(num(ctx.call(X, "size", c.val)), n), "the size is the number of points")
    m = ctx.u32("max")
    ctx.check(iff(E.eq(num(ctx.call(X, "complexity", c.val, u32(m))), 0), E.le(P(n), m)),
              "a curve is too complex exactly above the given size")
    e = ctx.call(X, "end", c.val)
    if kind == "const":
        ctx.check(e[0] == "void", "a constant has no end")
    else:
        ctx.check(E.eq(num(e), c.points[-1][0]), "the end is the last time")


def empty(ctx):
    probe(ctx)
    c = pieces([])
    ctx.check(E.ne(num(ctx.call(X, "validate", c)), 0), "a curve without points is invalid")
    ctx.check(E.ne(num(ctx.call(X, "increasing", c)), 0), "a curve without points is not increasing")
    ctx.check(E.ne(num(ctx.call(X, "decreasing", c)), 0), "a curve without points is not decreasing")
    ctx.must_fail("a curve without points has no value", X, "value", c, u64(ctx.u64("x")))


def monotone(ctx, kind, fn):
    """whatever validation accepts as monotonic is monotonic between any two times"""
    probe(ctx)
    c = Curve(ctx, kind, valid=False)
    ctx.assume(E.eq(num(ctx.call(X, fn, c.val)), 0))
    x = ctx.u64("x")
    y = ctx.u64("y")
    ctx.assume(E.lt(x, y))
    a = num(ctx.call(X, "value", c.val, u64(x)))
    b = num(ctx.call(X, "value", c.val, u64(y)))
    ctx.check(E.ge(a, b) if fn == "decreasing" else E.le(a, b), "a curve accepted as %s is" % fn)


def combined(ctx, k1, k2):
    """the sum of two curves: its points are the exact sums, at the times of both"""
    probe(ctx)
    c, d = Curve(ctx, k1, "c"), Curve(ctx, k2, "d")
    s = ctx.must_succeed(X, "combine", c.val, d.val)
    if "const" in (k1, k2):
        x = ctx.u64("x")
        v = num(ctx.call(X, "value", s, u64(x)))
        ctx.check(E.eq(v, E.add(c.at(x), d.at(x))), "adding a constant is exact")
        return
    steps = [(fnum(p, "time"), fnum(p, "value")) for p in field(s[1][1], "steps")[1]]
    for t, v in steps:
        ctx.check(E.eq(v, E.add(c.at(t), d.at(t))), "every point of the sum is the sum of the values")
        ctx.check(E.cor(*[E.eq(t, q) for q, _ in c.points + d.points]), "the sum has only the times of the two curves")
    for q, _ in c.points + d.points:
        ctx.check(E.cor(*[E.eq(t, q) for t, _ in steps]), "the sum has all times of the two curves")
    for a, b in zip(steps, steps[1:]):
        ctx.check(E.lt(a[0], b[0]), "the times of the sum increase")


def sumat(ctx, k1, k2, order, times, xs):
    """the sum of two curves between its points, for every choice of `times` for the points"""
    probe(ctx)
    cs = []
    for k, nm in ((k1, "c"), (k2, "d")):
        ts = list(combinations(times, 2 if k == "sat" else k))
        cs.append(Curve(ctx, k, nm, order=order, times=ts[ctx.choice("times_" + nm, len(ts))]))
    c, d = cs
    x = xs[ctx.choice("x", len(xs))]
    v = num(ctx.must_succeed(X, "sum_at", c.val, d.val, u64(x)))
    ref = E.add(c.at(P(x)), d.at(P(x)))
    n = len(c.points) + len(d.points) - 1 if order is None else 1
    ctx.check(E.cand(E.le(v, E.add(ref, n)), E.le(ref, E.add(v, n))),
              "the sum is the sum of the values, up to one unit of rounding per segment")


def scenarios(tier):
    deep = tier != "quick"
    out = {"empty": (empty, {})}
    ks = ["const", "sat"] + list(range(1, 6 if deep else 5))
    for k in ks:
        out["values_%s" % k] = (values, {"kind": k})
        out["total_%s" % k] = (total, {"kind": k})
        out["facts_%s" % k] = (facts, {"kind": k})
        for fn in ("increasing", "decreasing"):
            out["%s_%s" % (fn, k)] = (monotone, {"kind": k, "fn": fn})
    pairs = [("const", "const"), ("const", "sat"), ("const", 2), (2, "const"), ("sat", "const"), ("sat", "sat"),
             ("sat", 1), (1, "sat"), ("sat", 2), (2, 2)] + ([(3, 2), ("sat", 3)] if deep else [])
    for a, b in pairs:
        out["sum_%s_%s" % (a, b)] = (combined, {"k1": a, "k2": b})
    times, xs = ([1, 3, 4, 8, 13], list(range(15))) if deep else ([1, 3, 8], [2, 4, 5, 7])
    for o in (-1, 1, None):
        out["between_%s" % o] = (sumat, {"k1": "sat", "k2": "sat", "order": o, "times": times, "xs": xs})
    return out
