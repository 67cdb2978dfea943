"""The programs whose translation is validated. Each corpus is Nature source text; functions c_* are the ones decided."""
import os, re
import progen
T = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
W = {t: int(t[1:]) for t in T}
ARITH = [("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/"), ("rem", "%"), ("and", "&"), ("or", "|"), ("xor", "^"), ("shl", "<<"), ("shr", ">>")]
CMP = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]


class Out:
    def __init__(self):
        self.o = []

    def f(self, n, ps, rt, body):
        self.o.append("fn c_%s(%s):%s {\n%s\n}\n" % (n, ", ".join(ps), rt, "\n".join("    " + l for l in body.split("\n"))))

    def raw(self, t):
        self.o.append(t)

    def text(self):
        return "\n".join(self.o)


def lim(t):
    w = W[t]
    return ((1 << (w - 1)) - 1) if t[0] == "i" else (1 << w) - 1


def ints():
    o = Out()
    for t in T:
        for n, op in ARITH:
            o.f("%s_%s_vv" % (n, t), [t + " a", t + " b"], t, "return a %s b" % op)
            o.f("%s_%s_vc" % (n, t), [t + " a"], t, "return a %s 3" % op)
            o.f("%s_%s_cv" % (n, t), [t + " a"], t, "%s x = 5\nreturn x %s a" % (t, op))
            if n not in ("shl", "shr"):
                o.f("%s_%s_kv" % (n, t), [t + " a"], t, "%s x = 100\nreturn x %s a" % (t, op))
                o.f("%s_%s_max" % (n, t), [t + " a"], t, "return a %s %d" % (op, lim(t)))
                o.f("%s_%s_p2" % (n, t), [t + " a"], t, "return a %s 64" % op)
                if t[0] == "i":
                    o.f("%s_%s_m" % (n, t), [t + " a"], t, "return a %s -7" % op)
                o.f("%s_%s_one" % (n, t), [t + " a"], t, "return a %s 1" % op)
            else:
                o.f("%s_%s_hi" % (n, t), [t + " a"], t, "return a %s %d" % (op, W[t] - 1))
                o.f("%s_%s_z" % (n, t), [t + " a"], t, "return a %s 0" % op)
            o.f("%s_%s_set" % (n, t), [t + " a", t + " b"], t, "%s x = a\nx %s= b\nreturn x" % (t, op))
            o.f("%s_%s_self" % (n, t), [t + " a"], t, "return a %s a" % op)
        for n, op in CMP:
            o.f("%s_%s_vv" % (n, t), [t + " a", t + " b"], "bool", "return a %s b" % op)
            o.f("%s_%s_vc" % (n, t), [t + " a"], "bool", "return a %s 7" % op)
            o.f("%s_%s_cv" % (n, t), [t + " a"], "bool", "%s x = 9\nreturn x %s a" % (t, op))
            o.f("%s_%s_max" % (n, t), [t + " a"], "bool", "return a %s %d" % (op, lim(t)))
            if t[0] == "i":
                o.f("%s_%s_m" % (n, t), [t + " a"], "bool", "return a %s -3" % op)
            o.f("%s_%s_br" % (n, t), [t + " a", t + " b"], "int", "if a %s b {\n    return 11\n}\nreturn 22" % op)
            o.f("%s_%s_brc" % (n, t), [t + " a"], "int", "if a %s 20 {\n    return 11\n}\nreturn 22" % op)
            o.f("%s_%s_nbr" % (n, t), [t + " a", t + " b"], "int", "if !(a %s b) {\n    return 11\n}\nreturn 22" % op)
        o.f("neg_%s" % t, [t + " a"], t, "return -a")
        o.f("not_%s" % t, [t + " a"], t, "return ~a")
        o.f("mix_%s" % t, [t + " a", t + " b", t + " c"], t, "return (a + b) * c - (a ^ b) + (c & 15) - (b | 3)")
        o.f("mix2_%s" % t, [t + " a", t + " b", t + " c"], t, "return ((a + b) >> 2) + ((b - c) << 3) - ((a * c) >> 1)")
        o.f("dm_%s" % t, [t + " a", t + " b", t + " c"], t, "return (a + b) / (c | 1) + (b - a) % (c | 3)")
        o.f("cm_%s" % t, [t + " a", t + " b", t + " c"], "bool", "return (a + b) < (c - a) || (a * b) >= c && a != b")
    o.f("prec1", ["int a", "int b", "int c"], "int", "return a + b * c - a / 3 % 2 << 1")
    o.f("prec2", ["int a", "int b", "int c"], "int", "return a | b & c ^ a << 2")
    o.f("prec3", ["int a", "int b", "int c"], "bool", "return a & 3 == b & 1 || a + 1 > b - 1 && c << 1 != a".replace("a & 3 == b & 1", "(a & 3) == (b & 1)"))
    o.f("prec4", ["int a", "int b"], "int", "return -a + ~b - -b * ~a")
    o.f("prec5", ["int a", "int b", "int c"], "int", "return a - b - c + (a - (b - c))")
    o.f("prec6", ["int a", "int b", "int c"], "int", "return a ^ b | c & a - b")
    o.f("prec7", ["bool a", "bool b", "bool c"], "bool", "return a || b && !c")
    o.f("prec8", ["int a", "u8 b"], "int", "return a * b as int + b as int")
    # constants of all sizes
    for i, k in enumerate([0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789abcdef, 0x7fffffffffffffff]):
        o.f("k_add_%d" % i, ["int a"], "int", "return a + %d" % k)
        o.f("k_sub_%d" % i, ["int a"], "int", "return a - %d" % k)
        o.f("k_mul_%d" % i, ["int a"], "int", "return a * %d" % k)
        o.f("k_and_%d" % i, ["int a"], "int", "return a & %d" % k)
        o.f("k_xor_%d" % i, ["u64 a"], "u64", "return a ^ %d" % k)
        o.f("k_cmp_%d" % i, ["int a"], "bool", "return a < %d" % k)
        o.f("k_neg_%d" % i, ["int a"], "int", "return a + -%d" % k)
        o.f("k_ret_%d" % i, ["int a"], "int", "return %d" % k)
        o.f("k_nret_%d" % i, ["int a"], "int", "return -%d" % k)
        o.f("k_div_%d" % i, ["int a"], "int", "return a / %d" % k)
        o.f("k_br_%d" % i, ["int a"], "int", "if a == %d {\n    return 1\n}\nreturn 0" % k)
        if k < 2**32:
            o.f("k_u32_%d" % i, ["u32 a"], "bool", "return a > %d" % k)
            o.f("k_u32x_%d" % i, ["u32 a"], "u32", "return (a ^ %d) + %d" % (k, k))
    for t in T:
        for c in (0, 1, lim(t), -1 if t[0] == "i" else 2, -lim(t) - 1 if t[0] == "i" else 3):
            o.f("cret_%s_%s" % (t, str(c).replace("-", "m")), ["int z"], t, "return %s" % c)
    # two operations in a row with constants: what an instruction selector may fuse
    for t, ks in (("int", [1, 127, 128, -128, -129, 2147483647, 2147483648, -2147483648, -2147483649]), ("u64", [1, 255, 2147483647, 2147483648, 4294967295]), ("i32", [1, 127, -128, 2147483647, -2147483648]),
                  ("u32", [1, 128, 4294967295]), ("i16", [1, -128, 32767]), ("u8", [1, 128, 255])):
        for i, (x, y) in enumerate((x, y) for x in ("* 1", "* 2", "* 3", "* 4", "* 8", "* 16", "<< 1", "<< 3", ">> 2") for y in "+-"):
            for k in ks:
                o.f("fuse_%s_%d_%s" % (t, i, str(k).replace("-", "m")), [t + " a"], t, "return a %s %s %s" % (x, y, k) if "<" not in x and ">" not in x else "return (a %s) %s %s" % (x, y, k))
        for i, e in enumerate(["a * 4 + b", "b + a * 4", "a * 8 - b", "b - a * 2", "a * 2 + b * 4", "(a + 5) * 4", "(a - 3) * 8 + b", "a * 4 + 5 + a", "a * 4 - a * 2 + 7", "(a * 4 + 5) ^ (a * 4)", "a + b + 7 - a",
                               "(a & 15) * 8 + 3", "(a ^ b) * 2 - 9", "a * b + 5", "(a | 1) * 4 + (b | 2) * 8", "a - b * 4 - 1"]):
            o.f("fusev_%s_%d" % (t, i), [t + " a", t + " b"], t, "return " + e)
        for i, b in enumerate(["{t} x = a * 4\n{t} y = x + 5\nreturn x ^ y", "{t} x = a * 2 + 1\nif b > 3 {{\n    return x\n}}\nreturn x * 2 + 1", "{t} x = a * 8\nif b > 9 {{\n    x = x + 3\n}}\nreturn x - b",
                               "{t} x = a * 4\n{t} y = x - 5\nif b == 2 {{\n    y = y + x\n}}\nreturn y"]):
            o.f("fuseb_%s_%d" % (t, i), [t + " a", t + " b"], t, b.format(t=t))
    # constant expressions, folded or not
    for i, e in enumerate(["1 + 2 * 3", "(7 - 10) / 2", "(0 - 7) % 3", "1 << 40", "(0 - 1) >> 3", "0xff & 0x0f0 | 3", "100 / 7 * 7", "~5", "-(3 - 9)", "5 ^ 12", "1 << 63 - 1", "9223372036854775807 + 1",
                           "255 * 255 * 255", "17 % 5 - 17 / 5"]):
        o.f("cexpr_%d" % i, ["int a"], "int", "return %s" % e)
        o.f("cexprv_%d" % i, ["int a"], "int", "int x = %s\nreturn a + x" % e)
    for t in ("i8", "u8", "i16", "u16", "i32", "u32"):
        o.f("cfold_%s" % t, ["int a"], t, "%s x = 100\n%s y = 3\nreturn x * y + x" % (t, t))
        o.f("cfoldc_%s" % t, ["int a"], "bool", "%s x = 100\n%s y = 100\nreturn x + y > 50" % (t, t))
        o.f("cfoldd_%s" % t, ["int a"], t, "%s x = 120\n%s y = 50\nreturn (x + y) / 2" % (t, t))
        o.f("cfolds_%s" % t, ["int a"], t, "%s x = 120\nreturn (x << 2) >> 1" % t)
        o.f("cfoldn_%s" % t, ["int a"], "int", "%s x = 120\n%s y = x + 60\nreturn y as int" % (t, t))
        o.f("cfoldm_%s" % t, ["int a"], t, "%s x = 7\n%s y = x - 9\nreturn y / 2 + y %% 3" % (t, t))
    return o.text()


def conv():
    o = Out()
    A = T + ["f32", "f64"]
    for a in T:
        for b in T:
            o.f("cv_%s_%s" % (a, b), [a + " x"], b, "return x as %s" % b)
            o.f("cve_%s_%s" % (a, b), [a + " x", a + " y"], b, "return (x + y) as %s" % b)
            o.f("cvm_%s_%s" % (a, b), [a + " x", a + " y"], "int", "%s t = (x * y - x) as %s\nreturn t as int" % (b, b))
            o.f("cvi_%s_%s" % (a, b), [a + " x"], "int", "return (x as %s) as int" % b)
            o.f("cvp_%s_%s" % (a, b), [a + " x", b + " y"], b, "return x as %s + y" % b)
            o.f("cvb_%s_%s" % (a, b), [a + " x", b + " y"], "int", "if x as %s > y {\n    return 1\n}\nreturn 2" % b)
    for a in T:
        o.f("wide_%s" % a, [a + " x", a + " y"], "int", "%s s = x + y\n%s d = x - y\nreturn (s as int) * 3 + (d as int)" % (a, a))
        o.f("shw_%s" % a, [a + " x"], "int", "%s s = x << 2\nreturn s as int" % a)
        o.f("ngw_%s" % a, [a + " x"], "int", "%s s = -x\nreturn s as int" % a)
        o.f("ntw_%s" % a, [a + " x"], "int", "%s s = ~x\nreturn s as int" % a)
        o.f("dvw_%s" % a, [a + " x", a + " y"], "int", "%s s = (x + y) / 3\nreturn s as int" % a)
        o.f("mlw_%s" % a, [a + " x", a + " y"], "int", "%s s = x * y\n%s r = s >> 1\nreturn r as int" % (a, a))
        o.f("cpw_%s" % a, [a + " x", a + " y"], "bool", "%s s = x + y\nreturn s < x" % a)
        o.f("eqw_%s" % a, [a + " x"], "bool", "%s s = x + 1\nreturn s == 0" % a)
        o.f("ixw_%s" % a, [a + " x"], "u64", "return (x as u64) << 1")
    return o.text()


def floats():
    o = Out()
    for t in ("f32", "f64"):
        for n, op in ARITH[:4]:
            o.f("%s_%s" % (n, t), [t + " a", t + " b"], t, "return a %s b" % op)
            o.f("%s_%s_c" % (n, t), [t + " a"], t, "return a %s 2.5" % op)
            o.f("%s_%s_k" % (n, t), [t + " a"], t, "return 0.1 %s a" % op)
            o.f("%s_%s_set" % (n, t), [t + " a", t + " b"], t, "%s x = a\nx %s= b\nreturn x" % (t, op))
        for n, op in CMP:
            o.f("%s_%s" % (n, t), [t + " a", t + " b"], "bool", "return a %s b" % op)
            o.f("%s_%s_c" % (n, t), [t + " a"], "bool", "return a %s 1.5" % op)
            o.f("%s_%s_br" % (n, t), [t + " a", t + " b"], "int", "if a %s b {\n    return 1\n}\nreturn 2" % op)
            o.f("%s_%s_nbr" % (n, t), [t + " a", t + " b"], "int", "if !(a %s b) {\n    return 1\n}\nreturn 2" % op)
        o.f("neg_%s" % t, [t + " a"], t, "return -a")
        o.f("mix_%s" % t, [t + " a", t + " b", t + " c"], t, "return a * b + c - a / b")
        o.f("sel_%s" % t, [t + " a", t + " b"], t, "if a > b {\n    return a\n}\nreturn b")
        o.f("lp_%s" % t, [t + " a", t + " b"], t, "%s s = 0.0\nfor int i = 0; i < 3; i += 1 {\n    s = s * a + b\n}\nreturn s" % t)
        for i in T:
            o.f("i2f_%s_%s" % (i, t), [i + " a"], t, "return a as %s" % t)
            if i == "u64":
                # values of 2^63 and more separately
                o.f("f2i_%s_%s" % (i, t), [t + " a"], i, "if a < 9223372036854775808.0 {\n    return a as %s\n}\nreturn 1" % i)
                o.f("f2ibig_%s_%s" % (i, t), [t + " a"], i, "if a >= 9223372036854775808.0 {\n    return a as %s\n}\nreturn 1" % i)
            else:
                o.f("f2i_%s_%s" % (i, t), [t + " a"], i, "return a as %s" % i)
            if i != "u64":
                o.f("i2fu_%s_%s" % (i, t), [i + " a", i + " b"], "int", "%s x = a as %s\n%s y = b as %s\nif x > y {\n    return a as int\n}\nreturn (b as int) + 1" % (t, t, t, t))
            o.f("i2fk_%s_%s" % (i, t), [i + " a"], i, "%s x = a as %s\nif x > 3.0 {\n    return a\n}\nreturn a + 1" % (t, t))
        o.f("many_%s" % t, ["%s a%d" % (t, i) for i in range(8)], t, "return a0 - a1 * a2 + a3 / a4 - a5 + a6 * a7")
    o.f("f2d", ["f32 a"], "f64", "return a as f64")
    o.f("d2f", ["f64 a"], "f32", "return a as f32")
    o.f("mixif", ["int a", "f64 b", "int c", "f64 d"], "f64", "return (a as f64) * b - (c as f64) / d")
    o.f("mixif2", ["f32 b", "int a", "f32 d", "u8 c"], "f32", "f32 r = b - d\nif a > 3 {\n    r = d - b\n}\nreturn r * (c as f32)")
    return o.text()


# long functions, many live values, many arguments, deep nesting, large frames
def seq(n):
    return "fn c_seq%d(int a, int b):int {\n    int x = a\n%s\n    return x\n}\n"%(n,"\n".join("    x = x %s %s"%("+^-"[i%3],"ab"[i%2]) for i in range(n)))


def joins(n):
    b="\n".join("    x = x %s a"%("+-"[i%2]) if i%40 else "    if a > %d {\n        x = x ^ b\n    } else {\n        x = x + 3\n    }"%i for i in range(n))
    return "fn c_joins%d(int a, int b):int {\n    int x = a\n%s\n    return x\n}\n"%(n,b)


def live(n):
    s="fn c_live%d(int a, int b):int {\n"%n
    for i in range(n): s+="    int y%d = a %s %d\n"%(i,"+-^"[i%3],i)
    s+="    int r = b\n"
    for i in range(n): s+="    r = r %s y%d\n"%("-+^"[i%3],i)
    return s+"    return r\n}\n"


def livef(n):
    s="fn c_livef%d(f64 a, f64 b):f64 {\n"%n
    for i in range(n): s+="    f64 y%d = a + b\n    f64 z%d = y%d - a\n"%(i,i,i)
    s+="    f64 r = b\n"
    for i in range(n): s+="    r = r + z%d\n"%i
    return s+"    return r\n}\n"


def args(n):
    s="fn h_args%d(%s):int {\n    int r = 0\n"%(n,", ".join("%s a%d"%(("int","u8","i32","int")[i%4],i) for i in range(n)))
    for i in range(n): s+="    r = r * 3 + (a%d as int)\n"%i
    s+="    return r\n}\nfn c_args%d(int a, u8 b, i32 c):int {\n    return h_args%d(%s)\n}\n"%(n,n,", ".join(("a + %d"%i,"b","c","a ^ %d"%i)[i%4] for i in range(n)))
    return s


def nest(n):
    s="fn c_nest%d(int a, int b):int {\n    int r = b\n"%n
    for i in range(n): s+="    "*(i+1)+"if a > %d {\n"%(i*3)+"    "*(i+2)+"r = r + %d\n"%(i+1)
    for i in reversed(range(n)): s+="    "*(i+1)+"}\n"
    return s+"    return r\n}\n"


def arms(n):
    s="fn c_arms%d(int a):int {\n    int r = 0\n    match a {\n"%n
    for i in range(n): s+="        %d -> {\n            r = %d\n        }\n"%(i*7,i*i+1)
    return s+"        _ -> {\n            r = 0 - 1\n        }\n    }\n    return r\n}\n"


def frame(n):
    s="type big%d = struct{\n    int a\n    [u8;%d] pad\n    int z\n    i16 q\n}\n"%(n,n)
    s+="fn c_frame%d(int a, int b, i16 c):int {\n    big%d s = big%d{a: 1}\n    s.a = a\n    s.z = b\n    s.q = c\n    s.pad[%d] = 7\n    int x = a - b\n    big%d t = s\n    s.z = 5\n    return t.z * 3 + t.a + (t.q as int) + (t.pad[%d] as int) + x + s.z\n}\n"%(n,n,n,n-1,n,n-1)
    return s


def farms(n):
    s="fn c_elif%d(int a):int {\n    if a == 0 {\n        return 5\n    }"%n
    for i in range(1,n): s+=" else if a == %d {\n        return %d\n    }"%(i*11,i*3)
    return s+"\n    return -9\n}\n"


SHAPES = ["u8 u8 u8", "u8", "u8 u16", "u16 u8 u8 u8", "u32 u8", "u8 u32 u8", "int u8", "u8 int", "int u8 u8 u8", "int u16 u8", "int int", "int int u8", "u8 int u8 int", "i32 i32 i32", "i32 i32 i32 i32", "i16 i16 i16",
          "i16 i32 int i8", "int int int", "int int int u8", "int int int int i16", "u8 u8 u8 u8 u8", "u8 u8 u8 u8 u8 u8 u8", "u8 u8 u8 u8 u8 u8 u8 u8 u8", "bool int bool", "u16 u16 u16 u16 u16", "i32 u8 i32 u8 i32",
          "f64", "f32", "f32 f32", "f32 f32 f32", "f32 f32 f32 f32", "f64 f64", "f64 f64 f64", "f64 int", "int f64", "f32 int", "int f32", "f32 u8", "u8 f32", "f32 f32 int", "int f32 f32", "f32 i32 f32 i32", "f64 u8 f32", "i32 f32",
          "int f64 int", "f32 f64 f32"]


def structs():
    """structs of many layouts made, copied, changed, passed in and out"""
    o = []
    for i, sh in enumerate(SHAPES):
        ts = sh.split()
        fs = ["f%d" % j for j in range(len(ts))]
        o.append("type s%d = struct{\n%s\n}\n" % (i, "\n".join("    %s %s" % x for x in zip(ts, fs))))
        lt, lf = ts[-1], fs[-1]
        o.append("fn id%d(s%d x):s%d {\n    return x\n}\n" % (i, i, i))
        o.append("fn last%d(int k, s%d x, %s v):s%d {\n    s%d y = x\n    y.%s = v\n    x.%s = v\n    if k > 5 {\n        return x\n    }\n    return y\n}\n" % (i, i, lt, i, i, lf, fs[0] if ts[0] == lt else lf))
        o.append("fn two%d(s%d x, s%d y, int k):s%d {\n    if k > 5 {\n        return y\n    }\n    return x\n}\n" % (i, i, i, i))
        ps = ", ".join("%s %s" % x for x in zip(ts, fs))
        mk = "    s%d a = s%d{%s}\n" % (i, i, ", ".join("%s: %s" % (f, f) for f in fs))
        for t in sorted(set(ts)):
            for tag, body, ex in (("a", "    s{i} b = a\n    b.{lf} = v\n    s{i} c = id{i}(b)\n    a = id{i}(a)\n", "abc"),
                                  ("b", "    s{i} b = last{i}(k, a, v)\n    s{i} c = two{i}(a, b, k)\n    b = two{i}(b, c, k + 1)\n", "abc"),
                                  ("c", "    [s{i};2] w = [a, a]\n    w[1].{lf} = v\n    s{i} b = w[1]\n    s{i} c = w[0]\n    w[0] = b\n    w[0].{lf} = {lf}\n", "bc")):
                sel = [(n, f) for n in ex for tt, f in zip(ts, fs) if tt == t]
                if t in ("f32", "f64"):
                    e = sel[0][0] + "." + sel[0][1]
                    chain = "".join("    if k == %d {\n        return %s.%s\n    }\n" % (n, x[0], x[1]) for n, x in enumerate(sel[1:]))
                    o.append("fn c_s%d%s_%s(%s, %s v, int k):%s {\n%s%s%s    return %s\n}\n" % (i, tag, t, ps, lt, t, mk, body.format(i=i, lf=lf), chain, e))
                else:
                    e = " + ".join("%s(%s.%s as int) * %d" % ("", x[0], x[1], 2 * n + 1) for n, x in enumerate(sel)) if t != "bool" else " + ".join("(%s.%s ? %d : 1)" % (x[0], x[1], n * 3 + 2) for n, x in enumerate(sel[:4]))
                    o.append("fn c_s%d%s_%s(%s, %s v, int k):int {\n%s%s    return %s\n}\n" % (i, tag, t, ps, lt, mk, body.format(i=i, lf=lf), e))
    return "\n".join(o)


def scale():
    return (seq(140) + seq(300) + joins(140) + joins(290) + live(40) + live(150) + livef(40) + args(20) + args(40) + nest(20) + arms(60) + farms(40)
            + "".join(frame(n) for n in (100, 120, 250, 4000)))


CORPORA = {"ints": ints, "conv": conv, "floats": floats, "scale": scale, "structs": structs,
           "progs": lambda: progen.corpus(progen.seeds(0, 200) + [274]), "progs_all": lambda: progen.corpus(progen.seeds(0, 400)), "aborts": lambda: progen.corpus([3, 27, 230])}


def get(name):
    if name in CORPORA:
        return CORPORA[name]()
    return open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus", name + ".n")).read()


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from natmain import with_main
    print(with_main(get(sys.argv[1])))
