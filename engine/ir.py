"""Parser for the subset of textual LLVM IR that rustc emits for the contracts."""
import re
import pickle
import os

TOK = re.compile(r'''%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|c"[^"]*"|"[^"]*"|![-\w.]*|\#\d+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[{}\[\]()<>,=*:]''')


class Glob:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "@" + self.name


class Reg:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "%%%d" % self.i


class CExpr:
    """constant expression on a global: global + offset"""
    __slots__ = ("g", "off")

    def __init__(self, g, off):
        self.g, self.off = g, off


class ParseError(Exception):
    pass


def unq(s):
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


class Ty:
    """types: ('i',n) ('p',) ('v',) ('s',[..],packed) ('a',n,t) ('fn',)"""


def size_align(t):
    k = t[0]
    if k == "i":
        n = t[1]
        b = (n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p, min(p, 8)
    if k == "p":
        return 4, 4
    if k == "a":
        s, a = size_align(t[2])
        return s * t[1], a
    if k == "s":
        off, al = 0, 1
        for f in t[1]:
            s, a = size_align(f)
            if not t[2]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        if not t[2]:
            off = (off + al - 1) // al * al
        return off, al
    raise ParseError("sizeof %r" % (t,))


def field_off(t, i):
    off = 0
    for j, f in enumerate(t[1]):
        s, a = size_align(f)
        if not t[2]:
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += s
    raise ParseError("field")


class Cur:
    __slots__ = ("t", "i", "fn", "mod")

    def __init__(self, toks, fn, mod):
        self.t, self.i, self.fn, self.mod = toks, 0, fn, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError("expected %r got %r in %r" % (x, y, self.t))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            t = ("i", int(x[1:]))
        elif x == "ptr":
            t = ("p",)
        elif x == "void":
            t = ("v",)
        elif x == "{":
            fs = []
            if not self.eat("}"):
                while True:
                    fs.append(self.type())
                    if self.eat("}"):
                        break
                    self.expect(",")
            t = ("s", tuple(fs), False)
        elif x == "<":
            if self.eat("{"):
                fs = []
                if not self.eat("}"):
                    while True:
                        fs.append(self.type())
                        if self.eat("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = ("s", tuple(fs), True)
            else:
                raise ParseError("vector type")
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("a", n, e)
        elif x.startswith("%"):
            t = self.mod.type(x)
        elif x in ("float", "double"):
            t = ("f", 32 if x == "float" else 64)
        elif x in ("metadata", "label", "token"):
            t = (x,)
        else:
            raise ParseError("type %r in %r" % (x, self.t))
        return t

    ATTRS = {"noundef", "zeroext", "signext", "nonnull", "noalias", "nocapture", "readonly", "writeonly",
             "immarg", "returned", "dereferenceable", "align", "sret", "inreg", "byval", "nofree",
             "dereferenceable_or_null", "range", "noreturn", "captures", "writable", "dead_on_unwind",
             "allocalign", "allocptr", "initializes"}

    def attrs(self):
        while self.peek() in self.ATTRS:
            a = self.next()
            if a == "align":
                if self.eat("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif self.peek() == "(":
                d = 0
                while True:
                    x = self.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break

    def value(self, t):
        x = self.next()
        if x[0] == "%":
            return self.fn.reg(x)
        k = t[0]
        if x[0] == "@":
            return self.mod.glob(unq(x))
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x in ("null", "undef", "poison", "zeroinitializer", "none"):
            return zero(t)
        if x[0] == "-" or x[0].isdigit():
            n = int(x)
            if k == "i":
                return n & ((1 << t[1]) - 1)
            return n
        if x == "{" or (x == "<" and self.peek() == "{"):
            packed = x == "<"
            if packed:
                self.next()
            vs = []
            if not self.eat("}"):
                while True:
                    ft = self.type()
                    vs.append(self.value(ft))
                    if self.eat("}"):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return tuple(vs)
        if x == "[":
            vs = []
            if not self.eat("]"):
                while True:
                    ft = self.type()
                    vs.append(self.value(ft))
                    if self.eat("]"):
                        break
                    self.expect(",")
            return tuple(vs)
        if x.startswith('c"'):
            return unescape(x[2:-1])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            st = self.type()
            self.expect(",")
            pt = self.type()
            base = self.value(pt)
            off = 0
            first = True
            cur = st
            while self.eat(","):
                it = self.type()
                iv = self.value(it)
                iv = iv - (1 << it[1]) if iv >> (it[1] - 1) else iv
                if first:
                    off += iv * size_align(st)[0]
                    first = False
                elif cur[0] == "s":
                    off += field_off(cur, iv)
                    cur = cur[1][iv]
                else:
                    off += iv * size_align(cur[2])[0]
                    cur = cur[2]
            self.expect(")")
            return cadd(base, off)
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if x in ("sub", "add"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            ft = self.type()
            a = self.value(ft)
            self.expect(",")
            ft = self.type()
            b = self.value(ft)
            self.expect(")")
            if isinstance(a, int) and isinstance(b, int):
                return (a + b if x == "add" else a - b) & ((1 << ft[1]) - 1)
        raise ParseError("value %r in %s" % (x, " ".join(self.t)))


def cadd(b, off):
    if off == 0:
        return b
    if isinstance(b, int):
        return b + off
    if isinstance(b, Glob):
        return CExpr(b, off)
    return CExpr(b.g, b.off + off)


def zero(t):
    if t[0] == "s":
        return tuple(zero(f) for f in t[1])
    if t[0] == "a":
        return tuple(zero(t[2]) for _ in range(t[1])) if t[1] <= 4096 else b"\0" * size_align(t)[0]
    return 0


class Fn:
    def __init__(self, name, params, ret, body, mod):
        self.name, self.params, self.ret, self.body, self.mod = name, params, ret, body, mod
        self.regs = {}
        self.blocks = None
        self.demangled = demangle(name)

    def reg(self, x):
        r = self.regs.get(x)
        if r is None:
            r = Reg(len(self.regs))
            self.regs[x] = r
        return r

    def compile(self):
        """body lines -> blocks {label: (phis, instrs)}; label ids are ints"""
        names = []
        for n, t in self.params:
            names.append(self.reg(n).i)
        self.pregs = names
        blocks = []
        index = {}
        cur = None
        lines = self.body
        i = 0
        pend = []
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            if not l.startswith(" ") and ":" in l:
                lab = l.split(":", 1)[0]
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = []
                index[lab] = len(blocks)
                blocks.append(cur)
                continue
            if s.startswith("switch") and s.endswith("["):
                while not lines[i].strip().startswith("]"):
                    s += " " + lines[i].strip()
                    i += 1
                s += " ]"
                i += 1
            cur.append(s)
        self.bindex = index
        self.blocks = []
        for b in blocks:
            phis, ins = [], []
            for s in b:
                x = self.instr(s)
                if x is None:
                    continue
                if x[0] == "phi":
                    phis.append(x)
                else:
                    ins.append(x)
            self.blocks.append((phis, ins))
        self.nregs = len(self.regs)
        # trap-only blocks
        trap = [None] * len(self.blocks)

        def is_trap(i, depth=0):
            if trap[i] is not None:
                return trap[i]
            trap[i] = False
            last = self.blocks[i][1][-1]
            if last[0] == "unreachable":
                r = True
            elif last[0] == "jmp" and depth < 50:
                r = is_trap(last[1], depth + 1)
            else:
                r = False
            trap[i] = r
            return r
        for i in range(len(self.blocks)):
            is_trap(i)
        self.trap = trap
        self.body = None

    def lab(self, x):
        return self.bindex[unq(x)]

    def instr(self, s):
        toks = TOK.findall(s)
        # strip trailing metadata / attributes
        c = Cur(toks, self, self.mod)
        dest = None
        if len(toks) > 1 and toks[0][0] == "%" and toks[1] == "=":
            dest = self.reg(toks[0]).i
            c.i = 2
        op = c.next()
        if op in ("tail", "musttail", "notail"):
            op = c.next()
        if op == "call":
            return self.call(c, dest)
        if op == "br":
            if c.eat("label"):
                return ("jmp", self.lab(c.next()))
            c.expect("i1")
            v = c.value(("i", 1))
            c.expect(",")
            c.expect("label")
            a = self.lab(c.next())
            c.expect(",")
            c.expect("label")
            b = self.lab(c.next())
            return ("br", v, a, b)
        if op == "ret":
            t = c.type()
            if t[0] == "v":
                return ("ret", 0)
            return ("ret", c.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "switch":
            t = c.type()
            v = c.value(t)
            c.expect(",")
            c.expect("label")
            d = self.lab(c.next())
            c.expect("[")
            cases = []
            while not c.eat("]"):
                ct = c.type()
                cv = c.value(ct)
                c.expect(",")
                c.expect("label")
                cases.append((cv, self.lab(c.next())))
            return ("switch", v, t[1], d, cases)
        if op == "alloca":
            t = c.type()
            n = 1
            al = size_align(t)[1]
            while c.eat(","):
                if c.eat("align"):
                    al = int(c.next())
                else:
                    nt = c.type()
                    n = c.value(nt)
            return ("alloca", dest, size_align(t)[0] * n or 16, al)
        if op == "load":
            while c.peek() in ("volatile", "atomic"):
                c.next()
            t = c.type()
            c.expect(",")
            p = c.value(c.type())
            return ("load", dest, t, size_align(t)[0], p)
        if op == "store":
            while c.peek() in ("volatile", "atomic"):
                c.next()
            t = c.type()
            v = c.value(t)
            c.expect(",")
            p = c.value(c.type())
            return ("store", t, size_align(t)[0], v, p)
        if op == "getelementptr":
            while c.peek() in ("inbounds", "nuw", "nusw"):
                c.next()
            st = c.type()
            c.expect(",")
            base = c.value(c.type())
            first = True
            cur = st
            const = 0
            dyn = []
            while c.eat(","):
                if c.peek() and c.peek().startswith("!"):
                    break
                it = c.type()
                iv = c.value(it)
                if first:
                    sz = size_align(st)[0]
                    first = False
                elif cur[0] == "s":
                    const += field_off(cur, iv)
                    cur = cur[1][iv]
                    continue
                else:
                    sz = size_align(cur[2])[0]
                    cur = cur[2]
                if isinstance(iv, int):
                    iv = iv - (1 << it[1]) if iv >> (it[1] - 1) else iv
                    const += iv * sz
                else:
                    dyn.append((iv, it[1], sz))
            return ("gep", dest, base, const, tuple(dyn))
        if op == "icmp":
            while c.peek() in ("samesign",):
                c.next()
            pred = c.next()
            t = c.type()
            a = c.value(t)
            c.expect(",")
            b = c.value(t)
            return ("icmp", dest, pred, 32 if t[0] == "p" else t[1], a, b)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while c.peek() in ("nuw", "nsw", "exact", "disjoint"):
                c.next()
            t = c.type()
            a = c.value(t)
            c.expect(",")
            b = c.value(t)
            return ("bin", dest, op, t[1], a, b)
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
            while c.peek() in ("nneg", "nuw", "nsw"):
                c.next()
            t = c.type()
            v = c.value(t)
            c.expect("to")
            t2 = c.type()
            w1 = 32 if t[0] == "p" else t[1]
            w2 = 32 if t2[0] == "p" else t2[1]
            return ("cast", dest, op, w1, w2, v)
        if op == "extractvalue":
            t = c.type()
            v = c.value(t)
            idx = []
            while c.eat(","):
                idx.append(int(c.next()))
            return ("extract", dest, v, tuple(idx))
        if op == "insertvalue":
            t = c.type()
            v = c.value(t)
            c.expect(",")
            et = c.type()
            e = c.value(et)
            idx = []
            while c.eat(","):
                if c.peek().startswith("!"):
                    break
                idx.append(int(c.next()))
            return ("insert", dest, v, e, tuple(idx))
        if op == "phi":
            t = c.type()
            inc = {}
            while True:
                c.expect("[")
                v = c.value(t)
                c.expect(",")
                inc[self.lab(c.next())] = v
                c.expect("]")
                if not c.eat(","):
                    break
                if c.peek() and c.peek().startswith("!"):
                    break
            return ("phi", dest, inc)
        if op == "select":
            ct = c.type()
            cv = c.value(ct)
            c.expect(",")
            t = c.type()
            a = c.value(t)
            c.expect(",")
            t = c.type()
            b = c.value(t)
            return ("select", dest, cv, a, b, t[1] if t[0] == "i" else 0)
        if op == "freeze":
            t = c.type()
            return ("mov", dest, c.value(t))
        if op == "fence":
            return None
        raise ParseError("instr %s" % s)

    def call(self, c, dest):
        while c.peek() in ("fastcc", "ccc", "coldcc"):
            c.next()
        c.attrs()
        rt = c.type()
        if c.peek() == "(":       # function type
            d = 0
            while True:
                x = c.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        if c.peek() == "asm":
            return ("asm", dest)
        tgt = c.next()
        callee = unq(tgt) if tgt[0] == "@" else self.reg(tgt)
        c.expect("(")
        args = []
        if not c.eat(")"):
            while True:
                t = c.type()
                if t[0] == "metadata":
                    # skip to matching comma/paren
                    d = 0
                    while True:
                        x = c.peek()
                        if d == 0 and x in (",", ")"):
                            break
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                        c.next()
                    args.append(0)
                else:
                    c.attrs()
                    args.append(c.value(t))
                if c.eat(")"):
                    break
                c.expect(",")
        if isinstance(callee, str) and callee.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias")):
            return None
        return ("call", dest, callee, tuple(args), rt)


def demangle(n):
    if not n.startswith("_ZN"):
        return n
    i = 3
    out = []
    while i < len(n) and n[i].isdigit():
        j = i
        while n[j].isdigit():
            j += 1
        k = int(n[i:j])
        out.append(n[j:j + k])
        i = j + k
    s = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$LP$", "("),
                 ("$RP$", ")"), ("$BP$", "*"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]"),
                 ("$u27$", "'"), ("$u3b$", ";"), ("..", "::")):
        s = s.replace(a, b)
    s = re.sub(r"::h[0-9a-f]{16}$", "", s)
    return s


class Module:
    def __init__(self, text):
        self.fns = {}
        self.globs = {}
        self.types = {}
        self.decls = {}
        self._g = {}
        self.parse(text)

    def type(self, x):
        t = self.types[x]
        if isinstance(t, str):
            t = self.types[x] = Cur(TOK.findall(t), None, self).type()
        return t

    def glob(self, name):
        g = self._g.get(name)
        if g is None:
            g = self._g[name] = Glob(name)
        return g

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        gl = []
        while i < n:
            l = lines[i]
            i += 1
            if l.startswith("@"):
                gl.append(l)
            elif l.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                self.define(l, body)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                nm = m.group(1).strip('"')
                self.decls[nm] = demangle(nm)
            elif l.startswith("%") and " = type " in l:
                nm, t = l.split(" = type ", 1)
                self.types[nm] = t
        for l in gl:
            m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
            nm = m.group(1).strip('"')
            rest = m.group(2)
            toks = TOK.findall(rest)
            c = Cur(toks, None, self)
            while c.peek() not in ("constant", "global", "alias"):
                x = c.next()
            kind = c.next()
            if kind == "alias":
                t = c.type()
                c.expect(",")
                c.type()
                self.globs[nm] = ("alias", c.value(t))
                continue
            t = c.type()
            if "external" in rest.split("=")[0]:
                continue
            v = c.value(t)
            self.globs[nm] = (t, v)

    def define(self, l, body):
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        nm = m.group(1).strip('"')
        head = l[:m.start()]
        toks = TOK.findall(l[m.end() - 1:])
        c = Cur(toks, None, self)
        c.expect("(")
        params = []
        if not c.eat(")"):
            while True:
                if c.eat("..."):
                    c.expect(")")
                    break
                t = c.type()
                c.attrs()
                pn = c.next()
                params.append((pn, t))
                if c.eat(")"):
                    break
                c.expect(",")
        r = head.split()[-1]
        ret = ("i", int(r[1:])) if re.fullmatch(r"i\d+", r) else ("?",)
        self.fns[nm] = Fn(nm, params, ret, body, self)
