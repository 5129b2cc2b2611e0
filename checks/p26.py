from engine import expr as E
from engine.expr import P
from engine.harness import *
from engine.host import VOID

CONTRACTS = ["probe"]
LEVEL = "model_checking"
BOUNDS = ("every public arithmetic function of both decimal types, for all 128-bit arguments (the 256-bit type: values given "
          "and returned as 128 bits); decimal places 0 to 40; powers 0 to 3 (thorough: 5); in-range results are refused for "
          "no operands up to 10^19 (ten units)")
OUTSIDE = "text conversion; 256-bit intermediate values above 128 bits as inputs; powers above the bound"
X = 0x10
F = 10 ** 18
U128 = (1 << 128) - 1
MOD = {"percent": 10 ** 16, "permille": 10 ** 15, "bps": 10 ** 14}


def probe(ctx):
    ctx.deploy(X, "probe")


def tdiv(a, b):
    """a / b, truncated toward zero (b not 0)"""
    a, b = P(a), P(b)
    bp = E.ite(E.ge(b, 0), b, E.neg(b))
    bp = E.ite(E.eq(bp, 0), P(1), bp) if b.c is None else bp
    ap = E.ite(E.ge(a, 0), a, E.neg(a))
    q = E.fdiv(ap, bp)
    same = E.cor(E.cand(E.ge(a, 0), E.ge(b, 0)), E.cand(E.lt(a, 0), E.lt(b, 0)))
    return E.ite(same, q, E.neg(q))


REF = {"add": lambda a, b: E.add(a, b), "sub": lambda a, b: E.sub(a, b), "mul": lambda a, b: tdiv(E.mul(a, b), F),
       "div": lambda a, b: tdiv(E.mul(a, F), b), "ratio": lambda a, b: tdiv(E.mul(a, F), b),
       "mul_int": lambda a, b: tdiv(E.mul(a, b), F), "int_mul": lambda a, b: tdiv(E.mul(a, b), F),
       "div_int": lambda a, b: tdiv(a, b)}
WHAT = {"add": "addition is exact", "sub": "subtraction is exact", "mul": "multiplication truncates toward zero",
        "div": "division truncates toward zero", "ratio": "a ratio truncates toward zero",
        "mul_int": "an integer times a decimal truncates toward zero", "int_mul": "an integer times a decimal truncates toward zero",
        "div_int": "dividing by an integer truncates toward zero"}
DIVIDES = ("div", "ratio", "div_int", "div_u256")


def binary(ctx, fn):
    """any arguments: a result that is returned is the right one"""
    probe(ctx)
    a, b = ctx.i128("a"), ctx.i128("b")
    r = ctx.call(X, fn, i128(a), i128(b))[1]
    if fn in DIVIDES:
        ctx.check(E.ne(b, 0), "division by zero is refused")
    ctx.check(E.eq(r, REF[fn](a, b)), WHAT[fn])


def binary_ok(ctx, fn):
    """operands of usual size are never refused"""
    probe(ctx)
    a, b = ctx.i128("a", -10 ** 19, 10 ** 19), ctx.i128("b", -10 ** 19, 10 ** 19)
    if fn in DIVIDES:
        ctx.assume(E.ne(b, 0))
    r = ctx.must_succeed(X, fn, i128(a), i128(b))[1]
    ctx.check(E.eq(r, REF[fn](a, b)), WHAT[fn])


def unary(ctx, fn):
    probe(ctx)
    if fn in MOD:
        a = ctx.i64("a")
        r = ctx.must_succeed(X, fn, i64(a))[1]
        ctx.check(E.eq(r, E.scale(P(a), MOD[fn])), "%s conversion is exact" % fn)
        return
    a = ctx.i128("a")
    r = ctx.call(X, fn, i128(a))
    if fn == "abs":
        ctx.check(E.eq(r[1], E.ite(E.ge(a, 0), a, E.neg(a))), "the absolute value is exact")
    else:
        ctx.check(iff(r[0] == "void", E.eq(a, 0)), "only zero has no inverse")
        if r[0] != "void":
            ctx.check(E.eq(r[1], tdiv(P(F * F), a)), "the inverse truncates toward zero")


def abs_diff(ctx):
    probe(ctx)
    a, b = ctx.i128("a"), ctx.i128("b")
    r = ctx.call(X, "abs_diff", i128(a), i128(b))[1]
    ctx.check(E.eq(r, E.ite(E.ge(a, b), E.sub(a, b), E.sub(b, a))), "the distance is exact")


def compare(ctx, wide):
    probe(ctx)
    a, b = (ctx.int("a", 0, U128), ctx.int("b", 0, U128)) if wide else (ctx.i128("a"), ctx.i128("b"))
    k = "u128" if wide else "i128"
    r = ctx.must_succeed(X, "cmp256" if wide else "cmp", (k, a), (k, b))[1]
    for v, c in zip(r, (E.lt(a, b), E.le(a, b), E.eq(a, b), E.gt(a, b))):
        ctx.check(iff(truth(v), c), "comparisons agree with the represented numbers")


def truth(v):
    return bool(v[1])


def consts(ctx):
    probe(ctx)
    a = ctx.i128("a")
    r = ctx.must_succeed(X, "consts", i128(a))[1]
    for v, n in zip(r, (F, 0, I128MAX, I128MIN)):
        ctx.check(E.eq(v[1], n), "one, zero and the bounds are what they say")
    ctx.check(iff(truth(r[4]), E.eq(a, 0)), "zero is recognised")
    ctx.check(E.eq(r[5][1], 18), "18 decimal places")


def atomics(ctx, wide, p):
    probe(ctx)
    k = "u128" if wide else "i128"
    a = ctx.int("a", 0, U128) if wide else ctx.i128("a")
    ref = E.scale(P(a), 10 ** (18 - p)) if p <= 18 else tdiv(a, 10 ** (p - 18))
    if wide:
        ctx.path.assume(E.le(ref, U128)) if p < 18 and not ctx.replay else None
        r = ctx.must_succeed(X, "atomics256", (k, a), ("i32", p))
        ctx.check(r[0] != "void", "a number of atoms is converted")
    else:
        if p < 18:
            if ctx.flag("fits"):
                ctx.assume(E.cand(E.le(ref, I128MAX), E.ge(ref, I128MIN)))
                r = ctx.must_succeed(X, "atomics", (k, a), ("i32", p))
            else:
                r = ctx.call(X, "atomics", (k, a), ("i32", p))
        else:
            r = ctx.must_succeed(X, "atomics", (k, a), ("i32", p))
    ctx.check(E.eq(r[1], ref), "a number of atoms converts exactly, cut after 18 digits")


def precision(ctx, wide, p):
    probe(ctx)
    k = "u128" if wide else "i128"
    a = ctx.int("a", 0, U128) if wide else ctx.i128("a")
    r = ctx.must_succeed(X, "precision256" if wide else "precision", (k, a), ("i32", p))[1]
    ctx.check(E.eq(r, tdiv(a, 10 ** (18 - p))), "precision is cut toward zero")


def power(ctx, wide, n):
    probe(ctx)
    k = "u128" if wide else "i128"
    hi = 10 ** 21
    a = ctx.int("a", 0, hi)
    r = ctx.call(X, "pow256" if wide else "pow", (k, a), u32(n))
    ctx.check(r[0] != "void", "a power within range is returned")
    r = r[1]
    if n == 0:
        ctx.check(E.eq(r, F), "the power of zero is one")
    elif n == 1:
        ctx.check(E.eq(r, a), "the power of one is the number")
    elif n == 2:
        ctx.check(E.eq(r, E.fdiv(E.mul(a, a), P(F))), "the square is the product")
    else:
        ex = a
        for _ in range(n - 1):
            ex = E.mul(ex, a)
        ctx.check(E.le(E.scale(r, F ** (n - 1)), ex), "a power is never rounded up")
        if n == 3:
            ctx.check(E.le(ex, E.add(E.scale(r, F * F), E.add(P(F * F), E.scale(a, F)))),
                      "a power loses less than a unit per multiplication, times the number")


def wide(ctx, fn):
    probe(ctx)
    a, b = ctx.int("a", 0, U128), ctx.int("b", 0, U128)
    r = ctx.call(X, fn, ("u128", a), ("u128", b))
    ref = {"add256": lambda: E.add(a, b), "sub256": lambda: E.sub(a, b), "mul256": lambda: E.fdiv(E.mul(a, b), P(F)),
           "div256": lambda: tdiv(E.scale(a, F), b), "ratio256": lambda: tdiv(E.scale(a, F), b),
           "div_u256": lambda: tdiv(a, b),
           "abs_diff256": lambda: E.ite(E.ge(a, b), E.sub(a, b), E.sub(b, a))}[fn]()
    if fn in ("div256", "ratio256", "div_u256"):
        ctx.check(E.ne(b, 0), "division by zero is refused")
    if r[0] == "void":
        ctx.check(E.gt(ref, U128), "only what exceeds 128 bits does not fit 128 bits")
    else:
        ctx.check(E.eq(r[1], ref), "%s is exact, or cut toward zero" % fn)


def wide_ok(ctx, fn):
    probe(ctx)
    a, b = ctx.int("a", 0, U128), ctx.int("b", 0, U128)
    if fn in ("div256", "ratio256", "div_u256"):
        ctx.assume(E.ne(b, 0))
    if fn == "sub256":
        ctx.assume(E.ge(a, b))
    ctx.must_succeed(X, fn, ("u128", a), ("u128", b))


def wide1(ctx, fn):
    probe(ctx)
    if fn == "inv256":
        a = ctx.int("a", 0, U128)
        r = ctx.must_succeed(X, fn, ("u128", a))
        ctx.check(iff(r[0] == "void", E.eq(a, 0)), "only zero has no inverse")
        if r[0] != "void":
            ctx.check(E.eq(r[1], tdiv(P(F * F), a)), "the inverse is cut toward zero")
        return
    a = ctx.u64("a")
    r = ctx.must_succeed(X, fn, u64(a))
    ctx.check(r[0] != "void" and E.eq(r[1], E.scale(P(a), MOD[fn[:-3]])), "%s conversion is exact" % fn)


def scenarios(tier):
    deep = tier != "quick"
    out = {"abs_diff": (abs_diff, {}), "consts": (consts, {}), "cmp": (compare, {"wide": False}), "cmp256": (compare, {"wide": True})}
    for fn in REF:
        out[fn] = (binary, {"fn": fn})
        out[fn + "_ok"] = (binary_ok, {"fn": fn})
    for fn in ("percent", "permille", "bps", "abs", "inv"):
        out[fn] = (unary, {"fn": fn})
    for fn in ("add256", "sub256", "mul256", "div256", "ratio256", "div_u256", "abs_diff256"):
        out[fn] = (wide, {"fn": fn})
        out[fn + "_ok"] = (wide_ok, {"fn": fn})
    for fn in ("percent256", "permille256", "bps256", "inv256"):
        out[fn] = (wide1, {"fn": fn})
    for w in (False, True):
        for p in range(0, 41):
            out["atomics%d_%d" % (w, p)] = (atomics, {"wide": w, "p": p})
            if p <= 18:
                out["precision%d_%d" % (w, p)] = (precision, {"wide": w, "p": p})
        for n in range(0, 6 if deep else 4):
            out["pow%d_%d" % (w, n)] = (power, {"wide": w, "n": n})
    return out
