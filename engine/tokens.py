"""Environment models: a well-behaved SEP-41 token, and contracts answering by a script."""
from . import expr as E
from .host import VOID, num
from .path import Revert

I128 = (1 << 127) - 1


class Token:
    """Exact balances; unknown holders have arbitrary non-negative balances. transfer/burn demand the holder's
    authorization, mint the administrator's; insufficient funds and negative amounts trap."""
    kind = "token"

    def __init__(self, ctx, name, admin=None, decimals=7, maxbal=I128):
        self.ctx, self.name, self.admin, self.decimals, self.maxbal = ctx, name, admin, decimals, maxbal
        self.bal = []          # [addr, amount]
        self.init = []         # initial balances
        self.log = []          # (op, from, to, amount)
        self.world = ctx.w
        self.supply = None     # all balances together never exceed this

    def snapshot(self):
        return [list(b) for b in self.bal], list(self.log)

    def restore(self, s):
        self.bal, self.log = [list(b) for b in s[0]], list(s[1])

    def slot(self, a):
        for b in self.bal:
            if self.world.same(("addr", b[0]), ("addr", a)):
                return b
        i = len(self.init)
        v = self.ctx.path.fresh("%s_bal%d" % (self.name, i), 0, self.maxbal)
        # all balances together are a total supply that fits
        tot = v
        for _, x in self.init:
            tot = E.add(tot, x)
        self.ctx.path.assume(E.le(tot, self.maxbal))
        if self.supply is not None:
            self.ctx.path.assume(E.le(tot, self.supply))
        b = [a, v]
        self.init.append((a, v))
        self.bal.append(b)
        return b

    def balance(self, a):
        return self.slot(a)[1]

    def set(self, a, v):
        """fix an initial balance (before any call)"""
        self.init.append((a, v))
        self.bal.append([a, v])

    def move(self, frm, to, amt):
        w = self.world
        w.require(E.ge(amt, 0), "token: negative amount")
        b = self.slot(frm)
        w.require(E.le(amt, b[1]), "token: insufficient balance of %s" % self.name)
        b[1] = E.sub(b[1], amt)
        c = self.slot(to)
        c[1] = E.add(c[1], amt)
        if c[1].c is None and not any(l[0] == "mint" for l in self.log):
            # follows from: all balances together never exceed maxbal
            w.path._bound(c[1], 0, self.maxbal)
        self.log.append(("transfer", frm, to, amt))

    def call(self, w, fn, args):
        self.world = w
        a = [x[1] if len(x) > 1 else None for x in args]
        if fn == "balance":
            return ("i128", self.balance(a[0]))
        if fn == "decimals":
            return ("u32", self.decimals)
        if fn in ("name", "symbol"):
            return ("str", b"TOK")
        if fn == "transfer":
            w.require_auth(a[0])
            self.move(a[0], a[1], a[2])
            return VOID
        if fn == "mint":
            w.require_auth(self.admin)
            w.require(E.ge(a[1], 0), "token: negative amount")
            b = self.slot(a[0])
            r = E.add(b[1], a[1])
            w.path.assume(E.le(r, I128)) if w.path.trap_mode == "prove" else w.require(E.le(r, I128), "token: overflow")
            b[1] = r
            self.log.append(("mint", None, a[0], a[1]))
            return VOID
        if fn == "burn":
            w.require_auth(a[0])
            w.require(E.ge(a[1], 0), "token: negative amount")
            b = self.slot(a[0])
            w.require(E.le(a[1], b[1]), "token: insufficient balance of %s" % self.name)
            b[1] = E.sub(b[1], a[1])
            self.log.append(("burn", a[0], None, a[1]))
            return VOID
        raise Revert("token: no function %s" % fn)


class Script:
    """A contract whose answers the harness decides: fn(ctx, name, args) -> (V, [(token addr, fn, args)])"""
    kind = "script"

    def __init__(self, ctx, name, fn):
        self.ctx, self.name, self.fn = ctx, name, fn
        self.log = []

    def snapshot(self):
        return list(self.log)

    def restore(self, s):
        self.log = list(s)

    def call(self, w, fn, args):
        r = self.fn(self.ctx, fn, args)
        if r is None:
            self.log.append({"fn": fn, "fail": True})
            raise Revert("scripted failure")
        v, effects = r
        self.log.append({"fn": fn, "ret": v, "effects": effects})
        for to, f, a in effects:
            w.invoke(to, f, a)
        return v
