from .tok import *

CONTRACTS = ["token"]
LEVEL = "model_checking"
BOUNDS = ("one operation from an arbitrary state: every holder's balance any value in 0..2^127-1 (or absent), every "
          "allowance any amount and expiry, all addresses symbolic and possibly equal, amount any i128")
OUTSIDE = "archival of persistent entries by the host; ledger sequence numbers of 2^31 and more"


def transfer(ctx):
    t = Tok(ctx)
    f, to, o = ctx.addr("from"), ctx.addr("to"), ctx.addr("other")
    differ(ctx, o, f, to)
    amt = ctx.i128("amount")
    bf, bt, bo = t.bal(f), t.bal(to), t.bal(o)
    ctx.call(T, "transfer", addr(f), addr(to), i128(amt))
    moved(ctx, t, f, to, o, amt, bf, bt, bo)


def moved(ctx, t, f, to, o, amt, bf, bt, bo):
    ctx.check(E.ge(amt, 0), "a negative amount is rejected")
    ctx.check(E.le(amt, bf), "an amount above the balance is rejected")
    same = E.eq(f, to)
    if ctx.branch(same):
        ctx.check(E.eq(t.bal(f), bf), "a transfer to oneself changes nothing")
    else:
        ctx.check(E.eq(t.bal(f), E.sub(bf, amt)), "the sender is debited exactly the amount")
        ctx.check(E.eq(t.bal(to), E.add(bt, amt)), "the receiver is credited exactly the amount")
    inv(ctx, t, f, to)
    ctx.check(E.eq(t.bal(o), bo), "nobody else's balance changes")


def inv(ctx, t, *xs):
    for x in xs:
        ctx.check(E.cand(E.ge(t.bal(x), 0), E.le(t.bal(x), I128MAX)), "balances stay within 0..2^127-1")


def lowered(ctx, t, f, s, o, amt, al, ao):
    a1, e1 = t.allow(f, s)
    ctx.check(E.ge(al[0], amt), "more than the allowance is rejected")
    ctx.check(E.cor(E.eq(amt, 0), E.eq(a1, E.sub(al[0], amt))), "the allowance falls by exactly the amount")
    ctx.check(E.cor(E.ne(amt, 0), E.eq(a1, al[0])), "a zero spend leaves the allowance")
    ctx.check(E.eq(e1, al[1]), "spending keeps the expiry")
    b = t.allow(*o)
    ctx.check(E.cand(E.eq(b[0], ao[0]), E.eq(b[1], ao[1])), "no other allowance changes")


def transfer_from(ctx):
    t = Tok(ctx)
    s, f, to, o = ctx.addr("spender"), ctx.addr("from"), ctx.addr("to"), ctx.addr("other")
    differ(ctx, o, f, to)
    of, os = ctx.addr("other_owner"), ctx.addr("other_spender")
    ctx.assume(E.cor(E.ne(of, f), E.ne(os, s)))
    amt = ctx.i128("amount")
    bf, bt, bo = t.bal(f), t.bal(to), t.bal(o)
    al, ao = t.allow(f, s), t.allow(of, os)
    ctx.call(T, "transfer_from", addr(s), addr(f), addr(to), i128(amt))
    moved(ctx, t, f, to, o, amt, bf, bt, bo)
    lowered(ctx, t, f, s, (of, os), amt, al, ao)


def mint(ctx):
    t = Tok(ctx)
    to, o = ctx.addr("to"), ctx.addr("other")
    differ(ctx, o, to)
    amt = ctx.i128("amount")
    bt, bo = t.bal(to), t.bal(o)
    ctx.call(T, "mint", addr(to), i128(amt))
    ctx.check(E.ge(amt, 0), "a negative amount is rejected")
    ctx.check(E.eq(t.bal(to), E.add(bt, amt)), "the recipient is credited exactly the amount")
    inv(ctx, t, to)
    ctx.check(E.eq(t.bal(o), bo), "nobody else's balance changes")


def burn(ctx):
    t = Tok(ctx)
    f, o = ctx.addr("from"), ctx.addr("other")
    differ(ctx, o, f)
    amt = ctx.i128("amount")
    bf, bo = t.bal(f), t.bal(o)
    ctx.call(T, "burn", addr(f), i128(amt))
    burned(ctx, t, f, o, amt, bf, bo)


def burned(ctx, t, f, o, amt, bf, bo):
    ctx.check(E.ge(amt, 0), "a negative amount is rejected")
    ctx.check(E.le(amt, bf), "an amount above the balance is rejected")
    ctx.check(E.eq(t.bal(f), E.sub(bf, amt)), "the holder is debited exactly the amount")
    inv(ctx, t, f)
    ctx.check(E.eq(t.bal(o), bo), "nobody else's balance changes")


def burn_from(ctx):
    t = Tok(ctx)
    s, f, o = ctx.addr("spender"), ctx.addr("from"), ctx.addr("other")
    differ(ctx, o, f)
    of, os = ctx.addr("other_owner"), ctx.addr("other_spender")
    ctx.assume(E.cor(E.ne(of, f), E.ne(os, s)))
    amt = ctx.i128("amount")
    bf, bo = t.bal(f), t.bal(o)
    al, ao = t.allow(f, s), t.allow(of, os)
    ctx.call(T, "burn_from", addr(s), addr(f), i128(amt))
    burned(ctx, t, f, o, amt, bf, bo)
    lowered(ctx, t, f, s, (of, os), amt, al, ao)


def approve(ctx):
    t = Tok(ctx)
    f, s, o = ctx.addr("from"), ctx.addr("spender"), ctx.addr("other")
    of, os = ctx.addr("other_owner"), ctx.addr("other_spender")
    ctx.assume(E.cor(E.ne(of, f), E.ne(os, s)))
    amt, exp = ctx.i128("amount"), ctx.u32("expiration")
    bo, ao = t.bal(o), t.allow(of, os)
    ctx.call(T, "approve", addr(f), addr(s), i128(amt), u32(exp))
    a, e = t.allow(f, s)
    ctx.check(E.ge(amt, 0), "a negative amount is rejected")
    ctx.check(E.eq(a, amt), "the allowance is set to exactly the amount")
    ctx.check(E.cor(E.eq(amt, 0), E.eq(e, exp)), "the allowance expires as stated")
    ctx.check(E.eq(t.bal(o), bo), "no balance changes")
    b = t.allow(of, os)
    ctx.check(E.cand(E.eq(b[0], ao[0]), E.eq(b[1], ao[1])), "no other allowance changes")


def set_admin(ctx):
    t = Tok(ctx)
    n, o, s = ctx.addr("new_admin"), ctx.addr("other"), ctx.addr("spender")
    bo, ao = t.bal(o), t.allow(o, s)
    ctx.call(T, "set_admin", addr(n))
    ctx.check(E.eq(t.getadmin(), n), "the administrator is the one given")
    ctx.check(E.eq(t.bal(o), bo), "no balance changes")
    b = t.allow(o, s)
    ctx.check(E.cand(E.eq(b[0], ao[0]), E.eq(b[1], ao[1])), "no allowance changes")


def queries(ctx):
    t = Tok(ctx)
    o, s = ctx.addr("owner"), ctx.addr("spender")
    q = ctx.choice("query", 3)
    bo, ao = t.bal(o), t.allow(o, s)
    us = t.usable(o, s)
    if q == 0:
        ctx.check(E.eq(ctx.call(T, "balance", addr(o))[1], bo), "the balance query tells the balance")
    elif q == 1:
        ctx.check(E.eq(ctx.call(T, "allowance", addr(o), addr(s))[1], us), "the allowance query tells what can be spent")
    else:
        ctx.check(E.eq(ctx.call(T, "decimals")[1], t.dec), "the decimals query tells the decimals")
    b = t.allow(o, s)
    ctx.check(E.eq(t.bal(o), bo), "a query changes nothing")
    ctx.check(E.cand(E.eq(b[0], ao[0]), E.eq(b[1], ao[1])), "a query changes no allowance")


def scenarios(tier):
    fs = [transfer, transfer_from, mint, burn, burn_from, approve, set_admin, queries]
    return {f.__name__: (f, {}) for f in fs}
