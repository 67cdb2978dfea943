"""Reference meaning of the subset of Nature used by the corpus: an own parser and an own evaluator over z3 terms.
It shares no code with /repo. Values are (type, value); scalars are ints or z3 bit-vectors, aggregates Python lists."""
import re, z3
from tv import *

INT = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0),
       "int": (64, 1), "uint": (64, 0)}
FLT = {"f32": 32, "f64": 64, "float": 64}
ALIAS = {"int": "i64", "uint": "u64", "float": "f64"}
TOK = re.compile(r"[ \t\r]*(?:(//[^\n]*)|(\n)|(\d+\.\d+(?:e[+-]?\d+)?|0x[0-9a-fA-F]+|0b[01]+|0o[0-7]+|\d+)|('(?:[^'\\]|\\.)*')|([A-Za-z_]\w*)|(<<=|>>=|\.\.|->|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%&|^~!<>=(){}\[\],;:.?]))")
PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}


def tokens(t):
    out, i = [], 0
    t = t.rstrip()
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            if not t[i:].strip():
                break
            raise Unsupported("token at %r" % t[i:i + 20])
        i = m.end()
        if m.group(1):
            continue
        if m.group(2):
            out.append("\n")
        elif m.group(3):
            out.append(("n", m.group(3)))
        elif m.group(4):
            out.append(("s", m.group(4)[1:-1]))
        elif m.group(5):
            out.append(m.group(5))
        else:
            out.append(m.group(6))
    out.append("\n")
    out.append("EOF")
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0
        self.structs, self.fns, self.globals, self.enums = {}, {}, {}, {}

    def nl(self):
        while self.t[self.i] in ("\n", ";"):
            self.i += 1

    def peek(self, k=0):
        return self.t[self.i + k]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.next() != x:
            raise Unsupported("expected %r found %r near %r" % (x, self.t[self.i - 1], self.t[max(0, self.i - 8):self.i + 4]))

    def program(self):
        self.nl()
        while self.peek() != "EOF":
            x = self.peek()
            if x == "import":
                while self.peek() != "\n":
                    self.i += 1
            elif x == "type":
                self.typedef()
            elif x == "fn":
                self.fn()
            else:
                ty = self.type()
                n = self.next()
                self.eat("=")
                self.globals[n] = (ty, self.expr())
            self.nl()
        return self

    def typedef(self):
        self.eat("type")
        n = self.next()
        self.eat("=")
        k = self.next()
        if k == "enum":
            if self.peek() == ":":
                self.next()
                ty = self.type()
            else:
                ty = "i64"
            self.eat("{")
            vals, cur = {}, -1
            while True:
                self.nl()
                if self.peek() == "}":
                    self.next()
                    break
                f = self.next()
                if self.peek() == "=":
                    self.next()
                    cur = int(self.next()[1], 0)
                else:
                    cur += 1
                vals[f] = cur
                if self.peek() == ",":
                    self.next()
            self.enums[n] = (ty, vals)
            return
        if k != "struct":
            raise Unsupported("type " + str(k))
        self.eat("{")
        fs = []
        self.nl()
        while self.peek() != "}":
            ty = self.type()
            f = self.next()
            d = None
            if self.peek() == "=":
                self.next()
                d = self.expr()
            fs.append((f, ty, d))
            self.nl()
            if self.peek() == ",":
                self.next()
                self.nl()
        self.eat("}")
        self.structs[n] = fs

    def type(self):
        x = self.next()
        if x == "[":
            t = self.type()
            if self.peek() == ";":
                self.next()
                n = int(self.next()[1], 0)
                self.eat("]")
                return ("arr", t, n)
            self.eat("]")
            return ("vec", t)
        if x == "(":
            ts = [self.type()]
            while self.peek() == ",":
                self.next()
                ts.append(self.type())
            self.eat(")")
            return ("tup", ts)
        if x in ("ref", "ptr"):
            self.eat("<")
            t = self.type()
            self.eat(">")
            return ("ptr", t)
        if x in self.enums:
            return self.enums[x][0]
        if x in self.structs:
            return ("st", x)
        x = ALIAS.get(x, x)
        if x in INT or x in FLT or x in ("bool", "void"):
            return x
        raise Unsupported("type %r" % (x,))

    def fn(self):
        self.eat("fn")
        n = self.next()
        if self.peek() == ".":
            self.next()
            n = n + "." + self.next()
        self.eat("(")
        ps = []
        if "." in n:
            ps.append((("ptr", ("st", n.split(".")[0])), "self"))
        while self.peek() != ")":
            if self.peek() == "self":
                self.next()
            else:
                t = self.type()
                ps.append((t, self.next()))
            if self.peek() == ",":
                self.next()
        self.eat(")")
        rt, thr = "void", False
        if self.peek() == ":":
            self.next()
            rt = self.type()
            if self.peek() == "!":
                self.next()
                thr = True
        self.fns[n] = (ps, rt, self.block(), thr)

    def block(self):
        self.nl()
        self.eat("{")
        out = []
        self.nl()
        while self.peek() != "}":
            out.append(self.stmt())
            self.nl()
        self.eat("}")
        return out

    def istype(self):
        x = self.peek()
        if x == "[":
            # [T;N] name
            return self.peek(1) in INT or self.peek(1) in FLT or self.peek(1) in self.structs or self.peek(1) in ("bool", "[")
        if x in ("ref", "ptr"):
            return True
        if x == "(":
            # (T, T) name
            return self.peek(1) in INT or self.peek(1) in FLT or self.peek(1) in ("bool",) or (self.peek(1) in self.structs and self.peek(2) == ",")
        return isinstance(x, str) and (x in INT or x in FLT or x == "bool" or x in self.structs or x in self.enums) and isinstance(self.peek(1), str) and re.match(r"^[A-Za-z_]", self.peek(1))

    def stmt(self):
        x = self.peek()
        if x == "return":
            self.next()
            if self.peek() in ("\n", "}"):
                return ("ret", None)
            return ("ret", self.expr())
        if x in ("break", "continue"):
            self.next()
            return (x,)
        if x == "if":
            return self.if_()
        if x == "for":
            self.next()
            if self.istype() or self.peek() == "var":
                init = self.stmt()
                self.eat(";")
                c = self.expr(nost=True)
                self.eat(";")
                step = self.stmt()
                return ("for", init, c, step, self.block())
            if isinstance(self.peek(), str) and self.peek(1) == "in":
                v = self.next()
                self.next()
                lo = self.expr(nost=True)
                self.eat("..")
                hi = self.expr(nost=True)
                return ("range", v, lo, hi, self.block())
            c = self.expr(nost=True)
            return ("for", None, c, None, self.block())
        if x == "match":
            return self.match(True)
        if x == "var":
            self.next()
            if self.peek() == "(":
                self.next()
                ns = [self.next()]
                while self.peek() == ",":
                    self.next()
                    ns.append(self.next())
                self.eat(")")
                self.eat("=")
                return ("vartup", ns, self.expr())
            n = self.next()
            self.eat("=")
            return ("let", None, n, self.expr())
        if self.istype():
            t = self.type()
            n = self.next()
            self.eat("=")
            return ("let", t, n, self.expr())
        e = self.expr()
        o = self.peek()
        if o == "=":
            self.next()
            return ("set", e, self.expr())
        if isinstance(o, str) and o.endswith("=") and o[:-1] in PREC:
            self.next()
            return ("set", e, ("b", o[:-1], e, self.expr()))
        return ("expr", e)

    def if_(self):
        self.eat("if")
        c = self.expr(nost=True)
        a = self.block()
        b = []
        if self.peek() == "else":
            self.next()
            b = [self.if_()] if self.peek() == "if" else self.block()
        return ("if", c, a, b)

    def match(self, stmt):
        self.eat("match")
        s = None
        if self.peek() != "{":
            s = self.expr(nost=True)
        self.eat("{")
        arms = []
        self.nl()
        while self.peek() != "}":
            pats = [self.expr(noor=True)]
            while self.peek() == "|":
                self.next()
                pats.append(self.expr(noor=True))
            self.eat("->")
            if self.peek() == "{":
                arms.append((pats, self.block()))
            else:
                arms.append((pats, [("val", self.expr())]))
            self.nl()
        self.eat("}")
        return ("match", s, arms)

    def expr(self, nost=False, p=0, noor=False):
        if p == 0:
            c = self.binary(nost, 1, noor)
            if self.peek() == "?":
                self.next()
                a = self.expr(nost)
                self.eat(":")
                b = self.expr(nost)
                return ("tern", c, a, b)
            return c

    def binary(self, nost, p, noor=False):
        l = self.cast(nost)
        while self.peek() in PREC and isinstance(self.peek(), str) and PREC[self.peek()] >= p and not (noor and self.peek() == "|"):
            o = self.next()
            r = self.binary(nost, PREC[o] + 1, noor)
            l = ("b", o, l, r)
        return l

    def cast(self, nost):
        e = self.unary(nost)
        while self.peek() == "as":
            self.next()
            e = ("as", e, self.type())
        return e

    def unary(self, nost):
        x = self.peek()
        if x in ("-", "!", "~", "&", "*"):
            self.next()
            return ("u", x, self.unary(nost))
        return self.postfix(nost)

    def postfix(self, nost):
        e = self.primary(nost)
        while True:
            x = self.peek()
            if x == "[":
                self.next()
                i = self.expr()
                self.eat("]")
                e = ("idx", e, i)
            elif x == ".":
                self.next()
                e = ("fld", e, self.next())
            elif x == "(":
                self.next()
                a = self.args(")")
                e = ("call", e, a)
            else:
                return e

    def args(self, end):
        a = []
        self.nl()
        while self.peek() != end:
            a.append(self.expr())
            self.nl()
            if self.peek() == ",":
                self.next()
                self.nl()
        self.next()
        return a

    def primary(self, nost):
        x = self.next()
        if isinstance(x, tuple):
            if x[0] == "s":
                return ("str", x[1])
            return ("f", float(x[1])) if "." in x[1] else ("n", int(x[1].replace("0o", "0o"), 0))
        if x == "(":
            self.nl()
            e = self.expr()
            if self.peek() == ",":
                es = [e]
                while self.peek() == ",":
                    self.next()
                    es.append(self.expr())
                self.eat(")")
                return ("tup", es)
            self.eat(")")
            return e
        if x == "[":
            return ("lst", self.args("]"))
        if x in ("true", "false"):
            return ("bool", x == "true")
        if x == "match":
            self.i -= 1
            return self.match(False)
        if x == "new":
            self.eat("(") if False else None
        if isinstance(x, str) and re.match(r"^[A-Za-z_]", x):
            if x in self.structs and self.peek() == "{" and not nost:
                self.next()
                fs = {}
                self.nl()
                while self.peek() != "}":
                    f = self.next()
                    self.eat(":")
                    fs[f] = self.expr()
                    self.nl()
                    if self.peek() == ",":
                        self.next()
                        self.nl()
                self.eat("}")
                return ("slit", x, fs)
            return ("v", x)
        raise Unsupported("expression at %r" % (x,))


# ---------------------------------------------------------------- evaluation
def width(t):
    return INT[t][0] if t in INT else FLT[t] if t in FLT else 8 if t == "bool" else None


class Box:
    """a variable"""

    def __init__(self, t, v):
        self.t, self.v = t, v


class Frame:
    def __init__(self):
        self.vars = [{}]
        self.ret = None
        self.live = True     # guard: not yet returned
        self.brk = []        # per loop: [broken, continued]


def merge(g, t, new, old, P):
    """leafwise if g then new else old"""
    if g is True:
        return new
    if g is False:
        return old
    if isinstance(new, list):
        return [merge(g, x, a, b, P) for x, a, b in zip(P.leaf_types(t), new, old)]
    if isinstance(new, Box):
        if old is new:
            return new
        raise Unsupported("merge of pointers")
    return ite(g, new, old, width(t))


def clone(v):
    return [clone(x) for x in v] if isinstance(v, list) else v


class Eval:
    def __init__(self, prog, max_iter=64):
        self.p = prog
        self.assume, self.panic, self.max_iter = [], [], max_iter
        self.depth, self.queries = 0, 0
        self.glob = {}
        self.pre = []
        for n, (t, e) in prog.globals.items():
            fr = Frame()
            self.glob[n] = Box(t, self.as_type(self.ev(e, fr, True, t), t)[1])

    def leaf_types(self, t):
        if t[0] == "arr":
            return [t[1]] * t[2]
        if t[0] == "st":
            return [f[1] for f in self.p.structs[t[1]]]
        if t[0] == "tup":
            return t[1]
        raise Unsupported("aggregate " + str(t))

    def zero(self, t):
        if isinstance(t, tuple):
            if t[0] == "st":
                fr = Frame()
                return [self.as_type(self.ev(d, fr, True, ft), ft)[1] if d is not None else self.zero(ft) for f, ft, d in self.p.structs[t[1]]]
            return [self.zero(x) for x in self.leaf_types(t)]
        return 0

    def feasible(self, g):
        if isinstance(g, bool):
            return g
        self.queries += 1
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*self.pre)
        s.add(*self.assume)
        s.add(g)
        return s.check() != z3.unsat

    def req(self, g, c):
        """c must hold when g: outside the property otherwise"""
        x = bor(bnot(g), c)
        if x is not True:
            self.assume.append(z3.BoolVal(False) if x is False else x)

    # -- static types of expressions, to place literals
    def ty(self, e, fr):
        k = e[0]
        if k in ("n", "f"):
            return None
        if k == "bool":
            return "bool"
        if k == "v":
            b = self.look(e[1], fr)
            return b.t
        if k == "b":
            if e[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                return "bool"
            if e[1] in ("<<", ">>"):
                return self.ty(e[2], fr)
            return self.ty(e[2], fr) or self.ty(e[3], fr)
        if k == "u":
            if e[1] == "!":
                return "bool"
            if e[1] == "&":
                return ("ptr", self.ty(e[2], fr))
            if e[1] == "*":
                return self.ty(e[2], fr)[1]
            return self.ty(e[2], fr)
        if k == "as":
            return e[2]
        if k == "tern":
            return self.ty(e[2], fr) or self.ty(e[3], fr)
        if k == "call":
            f = self.callee(e[1], fr)
            return self.p.fns[f][1]
        if k == "idx":
            t = self.ty(e[1], fr)
            return t[1][e[2][1]] if t[0] == "tup" else t[1]
        if k == "fld":
            if e[1][0] == "v" and e[1][1] in self.p.enums:
                return self.p.enums[e[1][1]][0]
            t = self.ty(e[1], fr)
            if t[0] == "ptr":
                t = t[1]
            return [ft for f, ft, d in self.p.structs[t[1]] if f == e[2]][0]
        if k == "slit":
            return ("st", e[1])
        if k == "tup":
            return ("tup", [self.ty(x, fr) for x in e[1]])
        if k == "match":
            for pats, body in e[2]:
                if body and body[-1][0] == "val":
                    t = self.ty(body[-1][1], fr)
                    if t:
                        return t
            return None
        if k == "lst":
            return None
        raise Unsupported("type of " + k)

    def callee(self, e, fr):
        if e[0] == "v":
            return e[1]
        if e[0] == "fld":
            t = self.ty(e[1], fr)
            if t[0] == "ptr":
                t = t[1]
            return t[1] + "." + e[2]
        raise Unsupported("callee")

    def look(self, n, fr):
        for d in reversed(fr.vars):
            if n in d:
                return d[n]
        if n in self.glob:
            return self.glob[n]
        raise Unsupported("unknown variable " + str(n))

    def as_type(self, tv, t):
        """literal placement: an untyped value takes the type t"""
        ty, v = tv
        if ty == "lit":
            if t in FLT:
                return t, fbits(float(v), FLT[t])
            if t in INT:
                return t, mask(v, INT[t][0])
            raise Unsupported("literal as " + str(t))
        if ty == "flit":
            return t, fbits(v, FLT[t])
        return ty, v

    def ev(self, e, fr, g, want=None):
        k = e[0]
        if k == "n":
            return self.as_type(("lit", e[1]), want if want in INT or want in FLT else "i64")
        if k == "f":
            return self.as_type(("flit", e[1]), want if want in FLT else "f64")
        if k == "bool":
            return "bool", int(e[1])
        if k == "v":
            b = self.look(e[1], fr)
            return b.t, b.v
        if k == "slit":
            out = []
            for f, ft, d in self.p.structs[e[1]]:
                if f in e[2]:
                    out.append(clone(self.ev(e[2][f], fr, g, ft)[1]))
                elif d is not None:
                    out.append(self.ev(d, fr, g, ft)[1])
                else:
                    out.append(self.zero(ft))
            return ("st", e[1]), out
        if k == "lst":
            if not want or want[0] != "arr":
                raise Unsupported("list")
            vs = [clone(self.ev(x, fr, g, want[1])[1]) for x in e[1]]
            while len(vs) < want[2]:
                vs.append(self.zero(want[1]))
            return want, vs
        if k == "tup":
            ws = want[1] if want and want[0] == "tup" else [None] * len(e[1])
            xs = [self.ev(x, fr, g, w) for x, w in zip(e[1], ws)]
            return ("tup", [x[0] for x in xs]), [clone(x[1]) for x in xs]
        if k == "as":
            it = self.ty(e[1], fr)
            return e[2], self.convert(self.ev(e[1], fr, g, it), e[2], g)
        if k == "tern":
            t = self.ty(e, fr) or want
            c = self.tobool(self.ev(e[1], fr, g, "bool"))
            a = self.ev(e[2], fr, band(g, c), t)
            b = self.ev(e[3], fr, band(g, bnot(c)), t)
            return a[0], merge(c, a[0], a[1], b[1], self)
        if k == "u":
            return self.unary(e, fr, g, want)
        if k == "b":
            return self.binary(e, fr, g, want)
        if k == "idx":
            t, v = self.ev(e[1], fr, g)
            if t[0] == "tup":
                return t[1][e[2][1]], v[e[2][1]]
            i = self.index(t, e[2], fr, g)
            r = v[t[2] - 1]
            for j in range(t[2] - 2, -1, -1):
                r = merge(eq(i, j, 64), t[1], v[j], r, self)
            return t[1], r
        if k == "fld":
            if e[1][0] == "v" and e[1][1] in self.p.enums:
                et, vals = self.p.enums[e[1][1]]
                return et, mask(vals[e[2]], INT[et][0])
            t, v = self.ev(e[1], fr, g)
            if t[0] == "ptr":
                t, v = t[1], self.deref(v)
            fs = self.p.structs[t[1]]
            j = [f[0] for f in fs].index(e[2])
            return fs[j][1], v[j]
        if k == "call":
            return self.call(e, fr, g)
        if k == "match":
            return self.match(e, fr, g, want)
        raise Unsupported("expr " + k)

    def index(self, t, e, fr, g):
        it, i = self.ev(e, fr, g, self.ty(e, fr) or "i64")
        w, s = INT[it]
        i = sext(i, w, 64) if s else zext(i, w, 64)
        inr = ult(i, t[2], 64)
        bad = band(g, bnot(inr))
        if bad is not False:
            self.panic.append(bad)
            # nothing after a panic is observable
        return i

    def deref(self, p):
        if isinstance(p, tuple) and p[0] == "&":
            return p[1]()
        raise Unsupported("deref")

    def tobool(self, tv):
        v = tv[1]
        if isc(v):
            return v != 0
        if v.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
            a, b = v.arg(1).as_long(), v.arg(2).as_long()
            if (a, b) == (1, 0):
                return v.arg(0)
            if (a, b) == (0, 1):
                return bnot(v.arg(0))
        return sb(v != 0)

    def frombool(self, c):
        return "bool", bit(c, 8)

    def unary(self, e, fr, g, want):
        o = e[1]
        if o == "&":
            b = e[2]
            get, put = self.lval(b, fr, g)
            return ("ptr", self.ty(b, fr)), ("&", get, put)
        if o == "*":
            t, v = self.ev(e[2], fr, g)
            return t[1], self.deref(v)
        if o == "-" and e[2][0] == "n":
            return self.as_type(("lit", -e[2][1]), want if want in INT or want in FLT else "i64")
        t, v = self.ev(e[2], fr, g, self.ty(e[2], fr) or want)
        if o == "!":
            return self.frombool(bnot(self.tobool((t, v))))
        if o == "~":
            return t, not_(v, width(t))
        if t in FLT:
            w = FLT[t]
            return t, xor(v, 1 << (w - 1), w)
        return t, neg(v, width(t))

    def binary(self, e, fr, g, want):
        o = e[1]
        if o in ("&&", "||"):
            a = self.tobool(self.ev(e[2], fr, g, "bool"))
            g2 = band(g, a if o == "&&" else bnot(a))
            b = self.tobool(self.ev(e[3], fr, g2, "bool"))
            return self.frombool(band(a, b) if o == "&&" else bor(a, b))
        if o in ("<<", ">>"):
            t, a = self.ev(e[2], fr, g, self.ty(e[2], fr) or want)
            w, s = INT[t]
            tn, n = self.ev(e[3], fr, g, self.ty(e[3], fr) or t)
            wn, sn = INT[tn]
            self.req(g, ult(n, w, wn) if wn > 3 else True)
            n = low(n, w) if wn > w else zext(n, wn, w)
            return t, shl(a, n, w) if o == "<<" else ashr(a, n, w) if s else lshr(a, n, w)
        t = self.ty(e[2], fr) or self.ty(e[3], fr)
        cmpo = o in ("==", "!=", "<", ">", "<=", ">=")
        if t is None:
            t = want if not cmpo and (want in INT or want in FLT) else ("f64" if "f" in (e[2][0], e[3][0]) else "i64")
        ta, a = self.ev(e[2], fr, g, t)
        tb, b = self.ev(e[3], fr, g, t)
        if ta != tb:
            raise Unsupported("operand types %s %s" % (ta, tb))
        if cmpo:
            return self.frombool(self.compare(o, t, a, b))
        w = width(t)
        if t in FLT:
            return t, fop({"+": "add", "-": "sub", "*": "mul", "/": "div"}[o], a, b, w)
        s = INT[t][1]
        if o in "/%":
            self.req(g, bnot(eq(b, 0, w)))
            if s:
                self.req(g, bnot(band(eq(a, 1 << (w - 1), w), eq(b, mask(-1, w), w))))
            f = (sdiv if s else udiv) if o == "/" else (srem if s else urem)
            r = f(a, b, w)
            return t, 0 if r is None else r
        f = {"+": add, "-": sub, "*": mul, "&": and_, "|": or_, "^": xor}[o]
        return t, f(a, b, w)

    def compare(self, o, t, a, b):
        w = width(t)
        if t in FLT:
            if o == "==":
                return feq(a, b, w)
            if o == "!=":
                return bnot(feq(a, b, w))
            if o == "<":
                return flt(a, b, w)
            if o == ">":
                return flt(b, a, w)
            if o == "<=":
                return bor(flt(a, b, w), feq(a, b, w))
            return bor(flt(b, a, w), feq(a, b, w))
        lt = slt if t in INT and INT[t][1] else ult
        return {"==": lambda: eq(a, b, w), "!=": lambda: bnot(eq(a, b, w)), "<": lambda: lt(a, b, w), ">": lambda: lt(b, a, w),
                "<=": lambda: bnot(lt(b, a, w)), ">=": lambda: bnot(lt(a, b, w))}[o]()

    def convert(self, tv, t, g):
        f, v = tv
        if f == t:
            return v
        if f in INT and t in INT:
            w, s = INT[f]
            w2 = INT[t][0]
            return low(v, w2) if w2 <= w else sext(v, w, w2) if s else zext(v, w, w2)
        if f in FLT and t in FLT:
            return fcvt(v, FLT[f], FLT[t])
        if f in INT and t in FLT:
            return (s2f if INT[f][1] else u2f)(v, INT[f][0], FLT[t])
        if f in FLT and t in INT:
            w, s = INT[t]
            self.req(g, fin_range(v, FLT[f], w, bool(s)))
            return (f2s if s else f2u)(v, FLT[f], w)
        if f == "bool" and t in INT:
            return zext(v, 8, INT[t][0]) if INT[t][0] > 8 else v
        raise Unsupported("conversion %s %s" % (f, t))

    def call(self, e, fr, g):
        f = self.callee(e[1], fr)
        if f not in self.p.fns:
            raise Unsupported("call of " + f)
        ps, rt, body, thr = self.p.fns[f]
        args = list(e[2])
        nf = Frame()
        vals = []
        if "." in f:
            t = self.ty(e[1][1], fr)
            if t[0] == "ptr":
                vals.append(self.ev(e[1][1], fr, g)[1])
            else:
                get, put = self.lval(e[1][1], fr, g)
                vals.append(("&", get, put))
        for (pt, pn), a in zip(ps[len(vals):], args):
            vals.append(clone(self.ev(a, fr, g, pt)[1]))
        for (pt, pn), v in zip(ps, vals):
            nf.vars[0][pn] = Box(pt, v)
        return rt, self.run(f, nf, g)

    def run(self, f, fr, g):
        ps, rt, body, thr = self.p.fns[f]
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        fr.ret = self.zero(rt) if rt != "void" else 0
        fr.rt = rt
        fr.live = True
        if self.depth == 1 or self.feasible(g):
            self.block(body, fr, g)
        self.depth -= 1
        return fr.ret

    def guard(self, fr, g):
        x = band(g, fr.live)
        for b in fr.brk:
            x = band(x, band(bnot(b[0]), bnot(b[1])))
        return sb(x)

    def block(self, body, fr, g):
        fr.vars.append({})
        for st in body:
            x = self.guard(fr, g)
            if x is False:
                break
            self.stmt(st, fr, x)
        fr.vars.pop()

    def lval(self, e, fr, g):
        """getter and setter of a place; the place is fixed now"""
        k = e[0]
        if k == "v":
            b = self.look(e[1], fr)

            def put(v, gg, b=b):
                b.v = merge(gg, b.t, v, b.v, self)
            return (lambda: b.v), put
        if k == "fld":
            t = self.ty(e[1], fr)
            if t[0] == "ptr":
                p = self.ev(e[1], fr, g)[1]
                get, put0 = p[1], p[2]
                t = t[1]
            else:
                get, put0 = self.lval(e[1], fr, g)
            j = [f[0] for f in self.p.structs[t[1]]].index(e[2])

            def put(v, gg):
                n = list(get())
                n[j] = v
                put0(n, gg)
            return (lambda: get()[j]), put
        if k == "idx":
            t = self.ty(e[1], fr)
            get, put0 = self.lval(e[1], fr, g)
            if t[0] == "tup":
                j = e[2][1]

                def put(v, gg):
                    n = list(get())
                    n[j] = v
                    put0(n, gg)
                return (lambda: get()[j]), put
            i = self.index(t, e[2], fr, g)

            def put(v, gg):
                n = [merge(eq(i, j, 64), t[1], v, old, self) for j, old in enumerate(get())]
                put0(n, gg)

            def rd():
                v = get()
                r = v[-1]
                for j in range(len(v) - 2, -1, -1):
                    r = merge(eq(i, j, 64), t[1], v[j], r, self)
                return r
            return rd, put
        if k == "u" and e[1] == "*":
            p = self.ev(e[2], fr, g)[1]
            return p[1], p[2]
        if k == "tup":
            raise Unsupported("tuple place")
        raise Unsupported("place " + k)

    def stmt(self, st, fr, g):
        k = st[0]
        if k == "let":
            t = st[1] or self.ty(st[3], fr) or ("f64" if st[3][0] == "f" else "i64")
            vt, v = self.ev(st[3], fr, g, t)
            fr.vars[-1][st[2]] = Box(t, clone(v))
        elif k == "vartup":
            t, v = self.ev(st[2], fr, g)
            for n, x, tt in zip(st[1], v, t[1]):
                fr.vars[-1][n] = Box(tt, clone(x))
        elif k == "set":
            if st[1][0] == "tup":
                t = ("tup", [self.ty(x, fr) for x in st[1][1]])
                v = self.ev(st[2], fr, g, t)[1]
                for x, y in zip(st[1][1], v):
                    self.lval(x, fr, g)[1](clone(y), g)
                return
            t = self.ty(st[1], fr)
            if st[2][0] == "b" and st[2][2] is st[1]:  # op=
                pass
            v = self.ev(st[2], fr, g, t)[1]
            get, put = self.lval(st[1], fr, g)
            put(clone(v), self.guard(fr, g))
        elif k == "expr":
            self.ev(st[1], fr, g)
        elif k == "ret":
            if st[1] is not None:
                v = self.ev(st[1], fr, g, fr.rt)[1]
                fr.ret = merge(g, fr.rt, clone(v), fr.ret, self) if not isinstance(v, tuple) else v
            fr.live = band(fr.live, bnot(g))
        elif k == "if":
            c = self.tobool(self.ev(st[1], fr, g, "bool"))
            a = band(g, c)
            if a is not False:
                self.block(st[2], fr, a)
            b = band(g, bnot(c))
            if b is not False:
                self.block(st[3], fr, b)
        elif k in ("for", "range"):
            fr.vars.append({})
            fr.brk.append([False, False])
            if k == "range":
                t = self.ty(st[2], fr) or self.ty(st[3], fr) or "i64"
                lo = self.ev(st[2], fr, g, t)[1]
                hi = self.ev(st[3], fr, g, t)[1]
                box = Box(t, lo)
                fr.vars[-1][st[1]] = box
            elif st[1] is not None:
                self.stmt(st[1], fr, g)
            n = 0
            gl = g
            while True:
                x = self.guard(fr, gl)
                if x is False:
                    break
                if k == "range":
                    c = self.compare("<", t, box.v, hi)
                else:
                    c = self.tobool(self.ev(st[2], fr, x, "bool"))
                gl = band(gl, c)
                x = self.guard(fr, gl)
                if not self.feasible(x):
                    break
                n += 1
                if n > self.max_iter:
                    raise Unsupported("loop bound")
                self.block(st[4], fr, x)
                fr.brk[-1][1] = False
                x = self.guard(fr, gl)
                if k == "range":
                    box.v = merge(x, t, add(box.v, 1, width(t)), box.v, self)
                elif st[3] is not None:
                    if x is not False:
                        self.stmt(st[3], fr, x)
            fr.brk.pop()
            fr.vars.pop()
        elif k == "break":
            fr.brk[-1][0] = bor(fr.brk[-1][0], g)
        elif k == "continue":
            fr.brk[-1][1] = bor(fr.brk[-1][1], g)
        elif k == "match":
            self.match(st, fr, g, None)
        elif k == "val":
            self.ev(st[1], fr, g)
        else:
            raise Unsupported("stmt " + k)

    def match(self, e, fr, g, want):
        t = v = None
        if e[1] is not None:
            t, v = self.ev(e[1], fr, g)
        rest = g
        rt = self.ty(e, fr) or want
        res = None
        out = []
        for pats, body in e[2]:
            c = False
            for p in pats:
                if p == ("v", "_"):
                    c = True
                elif v is None:
                    c = bor(c, self.tobool(self.ev(p, fr, rest, "bool")))
                else:
                    pv = self.ev(p, fr, rest, t)[1]
                    c = bor(c, self.compare("==", t, v, pv))
            x = band(rest, c)
            rest = band(rest, bnot(c))
            if x is False:
                continue
            if body and body[-1][0] == "val":
                self.block(body[:-1], fr, x)
                tt, vv = self.ev(body[-1][1], fr, self.guard(fr, x), rt)
                out.append((x, tt, vv))
            else:
                self.block(body, fr, x)
        for x, tt, vv in reversed(out):
            res = vv if res is None else merge(x, tt, vv, res, self)
            rt = tt
        return rt, res


def fbits(v, w):
    import struct
    return struct.unpack("<I", struct.pack("<f", v))[0] if w == 32 else struct.unpack("<Q", struct.pack("<d", v))[0]
