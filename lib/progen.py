"""Programs for the translation validation, written by a fixed rule from a number: locals of all integer types under
register pressure, nested branches and bounded loops, calls with many arguments, globals, structs and arrays. What is
decided symbolically are all inputs of each program; which programs there are is fixed by the range of numbers."""

LIMITS = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "int": (64, 1), "u64": (64, 0)}


class Rnd:
    def __init__(self, seed):
        self.s = (seed * 2862933555777941757 + 3037000493) & (2**64 - 1)
        for _ in range(4):
            self.n(2)

    def n(self, k):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        return (self.s >> 33) % k

    def pick(self, l):
        return l[self.n(len(l))]


HEAD = """int g0 = 1
i32 g1 = 2
u8 g2 = 3

type rec = struct{
    int a
    i32 b
    u8 c
    i64 d
}

fn h2(int a, int b):int {
    return a * 3 - b
}

fn h8(int a, int b, int c, int d, int e, int f, int g, int h):int {
    return a - b * 2 + c * 3 - d * 4 + e * 5 - f * 6 + g * 7 - h * 8
}

fn hg(int a):int {
    g0 = g0 + a
    return g0 ^ a
}

fn hr(rec r, int k):rec {
    r.a = r.a + k
    r.d = r.d - k
    return r
}

"""


class Gen:
    def __init__(self, seed, types, globals_=True):
        self.r = Rnd(seed)
        self.types = types
        self.vars = []       # (type, name, writable)
        self.n = 0
        self.branches = 0
        self.calls = 0
        self.out = []
        self.glob = globals_
        self.recs = []
        self.arrs = []

    def new(self, t):
        self.n += 1
        return "x%d" % self.n

    def lit(self, t):
        w, s = LIMITS[t]
        hi = (1 << (w - s)) - 1
        return str(self.r.pick([1, 2, 3, 5, 7, 10, 100, 127 if hi >= 127 else 3, min(hi, 128), min(hi, 255), min(hi, 1000), min(hi, 65535), min(hi, 2147483647), min(hi, 2147483648), hi]))

    def atom(self, t, vs=None):
        c = [n for (vt, n, _) in self.vars if vt == t]
        k = self.r.n(10)
        if c and k < 7:
            return self.r.pick(c)
        if k == 7 and self.glob and t in ("int", "i32", "u8"):
            return {"int": "g0", "i32": "g1", "u8": "g2"}[t]
        if k == 8 and self.recs and t in ("int", "i32", "u8"):
            return self.r.pick(self.recs) + "." + {"int": self.r.pick("ad"), "i32": "b", "u8": "c"}[t]
        if k == 9 and self.arrs and t == self.arrs[0][1]:
            a = self.r.pick(self.arrs)
            i = [n for (vt, n, _) in self.vars if vt == "int"]
            return "%s[%s]" % (a[0], "%s & %d" % (self.r.pick(i), a[2] - 1) if i and self.r.n(2) else str(self.r.n(a[2])))
        o = [(vt, n) for (vt, n, _) in self.vars if vt != t]
        if o:
            vt, n = self.r.pick(o)
            return "(%s as %s)" % (n, t)
        return self.r.pick(c) if c else None

    def expr(self, t, d=0):
        a = self.atom(t)
        if a is None:
            return self.lit(t)
        k = self.r.n(14)
        if d >= 3 or k == 0:
            return a
        if k < 6:
            return "(%s %s %s)" % (self.expr(t, d + 1), self.r.pick("+-+-&|^"), self.expr(t, d + 2))
        if k < 8:
            return "(%s %s %s)" % (a, self.r.pick("+-*&|^"), self.lit(t))
        if k == 8:
            return "(%s * %s)" % (a, self.r.pick(["2", "4", "8", "3", "5", "9", a]))
        if k == 9:
            return "(%s %s %d)" % (a, self.r.pick(["<<", ">>"]), self.r.n(LIMITS[t][0]))
        if k == 10:
            return "(%s * %s %s %s)" % (a, self.r.pick("1248"), self.r.pick("+-"), self.r.pick(["1", "7", "100"]))
        if k == 11:
            return "(~%s)" % a
        if k == 12:
            return "(%s ? %s : %s)" % (self.cond(), self.expr(t, d + 2), a) if self.branch() else a
        return "(%s + (%s as %s))" % (a, self.expr(self.r.pick(self.types), d + 1), t)

    def branch(self):
        if self.branches >= 4:
            return False
        self.branches += 1
        return True

    def cond(self):
        t = self.r.pick(self.types)
        a = self.atom(t) or self.expr(t, 3)
        c = "%s %s %s" % (a, self.r.pick(["<", "<=", ">", ">=", "==", "!="]), self.r.pick([self.lit(t), self.atom(t) or self.lit(t)]))
        if self.r.n(4) == 0 and self.branch():
            t = self.r.pick(self.types)
            c = "%s %s %s < %s" % (c, self.r.pick(["&&", "||"]), self.atom(t) or "1", self.lit(t)) if self.atom(t) else c
        return c

    def stmts(self, k, ind, depth):
        n0 = len(self.vars), len(self.recs), len(self.arrs)
        for _ in range(k):
            self.stmt(ind, depth)
        del self.vars[n0[0]:]
        del self.recs[n0[1]:]
        del self.arrs[n0[2]:]

    def stmt(self, ind, depth):
        p = "    " * ind
        k = self.r.n(20)
        w = [(t, n) for (t, n, wr) in self.vars if wr]
        if k < 6 or not w:
            t = self.r.pick(self.types)
            e = self.expr(t)
            n = self.new(t)
            self.out.append("%s%s %s = %s" % (p, t, n, e))
            self.vars.append((t, n, True))
        elif k < 11:
            t, n = self.r.pick(w)
            self.out.append("%s%s %s %s" % (p, n, self.r.pick(["=", "=", "+=", "-=", "^="]), self.expr(t)))
        elif k == 11 and self.glob:
            t, n = self.r.pick([("int", "g0"), ("i32", "g1"), ("u8", "g2")])
            if t in self.types:
                self.out.append("%s%s = %s" % (p, n, self.expr(t)))
        elif k == 12 and self.calls < 3:
            self.calls += 1
            n = self.new("int")
            self.out.append("%sint %s = h8(%s)" % (p, n, ", ".join(self.expr("int", 2) for _ in range(8))))
            self.vars.append(("int", n, True))
        elif k == 13 and self.calls < 3:
            self.calls += 1
            n = self.new("int")
            self.out.append("%sint %s = %s" % (p, n, "hg(%s)" % self.expr("int", 2) if self.glob and self.r.n(2) else "h2(%s, %s)" % (self.expr("int", 2), self.expr("int", 2))))
            self.vars.append(("int", n, True))
        elif k in (14, 15) and depth < 2 and self.branch():
            self.out.append("%sif %s {" % (p, self.cond()))
            self.stmts(1 + self.r.n(3), ind + 1, depth + 1)
            if self.r.n(2):
                self.out.append("%s} else {" % p)
                self.stmts(1 + self.r.n(3), ind + 1, depth + 1)
            self.out.append("%s}" % p)
        elif k == 16 and depth < 1:
            n = self.new("int")
            self.out.append("%sfor int %s = 0; %s < %d; %s += 1 {" % (p, n, n, 2 + self.r.n(2), n))
            self.vars.append(("int", n, False))
            b = self.branches
            self.branches = max(b, 3)
            self.stmts(2 + self.r.n(3), ind + 1, depth + 1)
            self.branches = b + 2 * (self.branches - max(b, 3))
            self.vars = [v for v in self.vars if v[1] != n]
            self.out.append("%s}" % p)
        elif k == 17 and depth == 0 and len(self.recs) < 2:
            n = "r%d" % self.n
            self.n += 1
            self.out.append("%srec %s = rec{a: %s, b: %s, c: %s, d: %s}" % (p, n, self.expr("int", 2), self.expr("i32", 2), self.expr("u8", 2) if "u8" in self.types else "9", self.expr("int", 2)))
            self.recs.append(n)
        elif k == 18 and self.recs:
            n = self.r.pick(self.recs)
            j = self.r.n(4)
            if j == 0 and self.calls < 3:
                self.calls += 1
                self.out.append("%s%s = hr(%s, %s)" % (p, n, self.r.pick(self.recs), self.expr("int", 2)))
            elif j == 1 and len(self.recs) > 1:
                self.out.append("%s%s = %s" % (p, n, self.r.pick(self.recs)))
            else:
                f, t = self.r.pick([("a", "int"), ("b", "i32"), ("d", "int")] + ([("c", "u8")] if "u8" in self.types else []))
                self.out.append("%s%s.%s = %s" % (p, n, f, self.expr(t, 1)))
        else:
            t, n = self.r.pick(w)
            self.out.append("%s%s = %s" % (p, n, self.expr(t)))

    def fn(self, name, size):
        ps = []
        for i in range(2 + self.r.n(5)):
            t = self.r.pick(self.types)
            ps.append("%s p%d" % (t, i))
            self.vars.append((t, "p%d" % i, self.r.n(2) == 0))
        for _ in range(size):
            self.stmt(1, 0)
        rt = self.r.pick(self.types)
        e = [n for (t, n, _) in self.vars]
        terms = ["(%s as int)" % n for n in e] + ["(%s.b as int)" % n for n in self.recs] + ["%s.a" % n for n in self.recs] + ["%s.d" % n for n in self.recs] + ["(%s.c as int)" % n for n in self.recs]
        acc = terms[0]
        for i, x in enumerate(terms[1:]):
            acc = "%s %s %s" % (acc, "+-^"[i % 3] if i % 3 != 2 else "+", x)
        self.out.append("    return %s" % acc)
        return "fn %s(%s):int {\n%s\n}\n" % (name, ", ".join(ps), "\n".join(self.out))


# numbers whose program the register allocator does not survive (see KNOWN_FINDINGS.txt)
ABORT = [3, 27, 32, 41, 96, 114, 118, 130, 146, 158, 163, 167, 170, 177, 230, 267, 271, 278, 292, 306, 350, 361, 363, 381]
# numbers whose program the solver needs more than a few seconds for
SLOW = [10, 11, 26, 34, 48, 67, 68, 74, 103, 107, 108, 121, 123, 125, 132, 133, 135, 140, 144, 154, 168, 176, 185, 186, 191, 200, 202, 206, 213, 220, 222, 243, 255, 264, 266, 268, 275, 282, 285, 291,
        304, 327, 332, 333, 346, 349, 352, 355, 356, 360, 367, 369, 372, 391, 392, 398]
ALL = ["i8", "u8", "i16", "u16", "i32", "u32", "int", "u64", "int", "i32"]


def corpus(seeds, types=ALL, size=10):
    return HEAD + "\n".join(Gen(i, types).fn("c_p%d" % i, size + i % 7) for i in seeds)


def seeds(lo, hi):
    return [i for i in range(lo, hi) if i not in ABORT and i not in SLOW]


if __name__ == "__main__":
    import sys
    from natmain import with_main
    print(with_main(corpus([i for i in range(int(sys.argv[1]), int(sys.argv[2])) if i not in ABORT])))
