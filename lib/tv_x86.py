"""x86-64 on top of tv.py (AT&T syntax as printed by llvm-objdump)"""
import re, z3
from tv import *

R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
REG = {}
for _r in R64:
    REG[_r] = (_r, 64, 0)
for _n in "ax cx dx bx sp bp si di".split():
    REG["e" + _n] = ("r" + _n, 32, 0)
    REG[_n] = ("r" + _n, 16, 0)
for _n in "al cl dl bl".split():
    REG[_n] = ("r" + _n[0] + "x", 8, 0)
    REG[_n[0] + "h"] = ("r" + _n[0] + "x", 8, 8)
for _n in "spl bpl sil dil".split():
    REG[_n] = ("r" + _n[:2], 8, 0)
for _i in range(8, 16):
    REG["r%dd" % _i] = ("r%d" % _i, 32, 0)
    REG["r%dw" % _i] = ("r%d" % _i, 16, 0)
    REG["r%db" % _i] = ("r%d" % _i, 8, 0)
SUF = {"b": 8, "w": 16, "l": 32, "q": 64}
ARGS = "rdi rsi rdx rcx r8 r9".split()
CALLER = "rax rcx rdx rsi rdi r8 r9 r10 r11".split()
CC = {"e": "z", "z": "z", "ne": "!z", "nz": "!z", "l": "l", "nge": "l", "ge": "!l", "nl": "!l", "le": "le", "ng": "le", "g": "!le", "nle": "!le",
      "b": "c", "nae": "c", "c": "c", "ae": "!c", "nb": "!c", "nc": "!c", "be": "be", "na": "be", "a": "!be", "nbe": "!be", "s": "s", "ns": "!s",
      "p": "p", "np": "!p", "o": "o", "no": "!o"}


def split_ops(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class X86(Machine):
    name = "amd64"

    def __init__(self, obj, models=None):
        Machine.__init__(self, obj, models)
        self.cache = {}

    # ------------------------------------------------ conventions
    def start(self, fn, ints, floats):
        s = self.new_state()
        for r in R64:
            s.r[r] = self.fresh(r, 64)
        for i in range(16):
            s.f[i] = (self.fresh("xmm%d" % i, 64), self.fresh("xmmh%d" % i, 64))
        s.r["rsp"] = SP0 - 8
        stack = []
        for i, v in enumerate(ints):
            if i < 6:
                s.r[ARGS[i]] = v
            else:
                stack.append(v)
        for i, (v, w) in enumerate(floats):
            if i >= 8:
                raise Unsupported("more than 8 float parameters")
            s.f[i] = (cat(self.fresh("fhi", 32), 32, v, 32) if w == 32 else v, self.fresh("xmmh", 64))
        s.mem.store(SP0 - 8, RET, 8)
        for i, v in enumerate(stack):
            s.mem.store(SP0 + 8 * i, v, 8)
        s.pc = self.o.sym[fn]
        s.flags = None
        self.rbp0 = s.r["rbp"]
        return s

    def widen(self, t, v):
        """the unused upper bits of an argument register are arbitrary"""
        w = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "bool": 8}.get(t, 64)
        return v if w == 64 else cat(self.fresh("up", 64 - w), 64 - w, v, w)

    def iarg(self, s, n):
        return s.r[ARGS[n]]

    def iret(self, s, w=64):
        return low(s.r["rax"], w)

    def fret(self, s, w=64):
        return low(s.f[0][0], w)

    def set_ret(self, s, v):
        s.r["rax"] = v

    def clobber(self, s):
        """what a C function may change"""
        for r in CALLER:
            s.r[r] = self.fresh(r, 64)
        for i in range(16):
            s.f[i] = (self.fresh("xmm", 64), self.fresh("xmmh", 64))
        s.flags = None
        s.mem.drop_below(STACK_LO, s.r["rsp"])

    def ret_addr(self, s):
        return s.mem.load(s.r["rsp"], 8)

    def do_return(self, s, ret):
        s.r["rsp"] = add(s.r["rsp"], 8)
        s.pc = ret

    def check_exit(self, s):
        if s.r["rsp"] != SP0:
            return "stack pointer not restored"
        b = s.r["rbp"]
        if not (isc(b) and isc(self.rbp0) and b == self.rbp0) and not (not isc(b) and not isc(self.rbp0) and b.eq(self.rbp0)):
            return "frame pointer not restored"
        return None

    # ------------------------------------------------ operands
    def parse(self, pc, ins):
        if pc in self.cache:
            return self.cache[pc]
        mn, ops, nxt, sec = ins
        rel = None
        for a in range(pc, nxt):
            if a in self.o.rel:
                rel = (a,) + self.o.rel[a][0]
        out = []
        for t in split_ops(ops):
            if t.startswith("*"):
                t = t[1:]
            if t.startswith("$"):
                out.append(("i", int(t[1:], 0)))
            elif t.startswith("%"):
                n = t[1:]
                if n.startswith("xmm"):
                    out.append(("x", int(n[3:])))
                else:
                    out.append(("r",) + REG[n])
            elif "(" in t:
                m = re.match(r"^(-?(?:0x)?[0-9a-f]*)\((.*)\)$", t)
                disp = int(m.group(1), 0) if m.group(1) else 0
                p = [x.strip() for x in m.group(2).split(",")]
                base = p[0][1:] if p[0] else None
                idx = p[1][1:] if len(p) > 1 and p[1] else None
                sc = int(p[2], 0) if len(p) > 2 else 1
                if base == "rip":
                    if rel is not None:
                        out.append(("m", None, None, 1, rel[2] + rel[3] + (nxt - rel[0])))
                    else:
                        out.append(("m", None, None, 1, nxt + disp))
                else:
                    out.append(("m", base, idx, sc, disp))
            else:
                v = int(t, 0)
                if mn.startswith(("j", "call")):
                    if rel is not None:
                        v = rel[2] + rel[3] + 4
                    else:
                        v += sec
                    out.append(("t", v))
                else:
                    out.append(("m", None, None, 1, v))
        self.cache[pc] = out
        return out

    def ea(self, s, o):
        a = o[4] & M64
        if o[1]:
            a = add(s.r[o[1]], a)
        if o[2]:
            a = add(a, mul(s.r[o[2]], o[3]))
        return norm(a, 64)

    def get(self, s, o, w):
        k = o[0]
        if k == "i":
            return mask(o[1], w)
        if k == "r":
            return ext(s.r[o[1]], o[3] + w - 1, o[3])
        if k == "x":
            return low(s.f[o[1]][0], w)
        if k == "m":
            a = self.ea(s, o)
            if not isc(a):
                raise Fork(a)
            return s.mem.load(a, w // 8)
        raise Unsupported("operand")

    def put(self, s, o, v, w):
        k = o[0]
        if k == "r":
            if w == 64:
                s.r[o[1]] = v
            elif w == 32:
                s.r[o[1]] = zext(v, 32, 64)
            else:
                old, lo = s.r[o[1]], o[3]
                if lo == 0:
                    s.r[o[1]] = cat(ext(old, 63, w), 64 - w, v, w)
                else:
                    s.r[o[1]] = cat(ext(old, 63, 16), 48, cat(v, 8, ext(old, 7, 0), 8), 16)
        elif k == "m":
            a = self.ea(s, o)
            if not isc(a):
                raise Fork(a)
            s.mem.store(a, v, w // 8)
        else:
            raise Unsupported("destination")

    def cond(self, s, cc):
        c = CC[cc]
        if c.startswith("!"):
            return bnot(self.cond0(s, c[1:]))
        return self.cond0(s, c)

    def cond0(self, s, c):
        fl = s.flags
        if fl is None:
            raise Crash("flags used after being clobbered")
        k = fl[0]
        if k == "sub":
            _, a, b, w = fl
            if c == "z":
                return eq(a, b, w)
            if c == "l":
                return slt(a, b, w)
            if c == "le":
                return bnot(slt(b, a, w))
            if c == "c":
                return ult(a, b, w)
            if c == "be":
                return bnot(ult(b, a, w))
            if c == "s":
                return slt(sub(a, b, w), 0, w)
        if k == "res":  # logical result: CF = OF = 0
            _, r, w = fl
            if c == "z":
                return eq(r, 0, w)
            if c in ("s", "l"):
                return slt(r, 0, w)
            if c == "le":
                return bor(eq(r, 0, w), slt(r, 0, w))
            if c in ("c", "o"):
                return False
            if c == "be":
                return eq(r, 0, w)
        if k == "cf" and c == "c":
            return eq(fl[1], 1, 1)
        if k == "zs":  # only ZF and SF known
            _, r, w = fl
            if c == "z":
                return eq(r, 0, w)
            if c == "s":
                return slt(r, 0, w)
        if k == "fc":
            _, a, b, w = fl
            u = funord(a, b, w)
            if c == "p":
                return u
            if c == "z":
                return bor(u, feq(a, b, w))
            if c == "c":
                return bor(u, flt(a, b, w))
            if c == "be":
                return bor(bor(u, flt(a, b, w)), feq(a, b, w))
            if c in ("l", "s", "o"):  # SF = OF = 0
                return False
            if c == "le":
                return bor(u, feq(a, b, w))
        raise Unsupported("condition %s after %s" % (c, k))

    # ------------------------------------------------ instructions
    def step(self, s, ins):
        try:
            return self.step1(s, ins)
        except Fork as f:
            outs = self.concretize(s, f.e)
            res = []
            for n, v in outs:
                pin(n, f.e, v)
                self.force = (f.e, v)
                r = self.step2(n, ins, f.e, v)
                res.extend([n] if r is None else r)
            return res

    def step2(self, s, ins, e, v):
        old = self.ea
        try:
            self.ea = lambda st, o: v if not isc(x := old(st, o)) and x.eq(e) else x
            return self.step1(s, ins)
        finally:
            self.ea = old

    def step1(self, s, ins):
        mn, _, nxt, sec = ins
        pc = s.pc
        ops = self.parse(pc, ins)
        base = mn
        if mn in ("nop", "nopw", "nopl", "endbr64"):
            s.pc = nxt
            return None
        if mn.startswith("j") and mn != "jmp" and mn != "jmpq":
            return self.branch(s, self.cond(s, mn[1:]), ops[0][1], nxt)
        if mn in ("jmp", "jmpq"):
            if ops[0][0] == "t":
                s.pc = ops[0][1]
            else:
                t = norm(self.get(s, ops[0], 64), 64)
                if not isc(t):
                    raise Crash("indirect jump to a symbolic address")
                s.pc = t
            return None
        if mn in ("call", "callq"):
            if ops[0][0] == "t":
                t = ops[0][1]
            else:
                t = norm(self.get(s, ops[0], 64), 64)
                if not isc(t):
                    raise Crash("call of a symbolic address")
            s.r["rsp"] = sub(s.r["rsp"], 8)
            s.mem.store(s.r["rsp"], nxt, 8)
            if s.r["rsp"] % 16 != 8 and t in self.o.ext.values():
                s.events.append("misaligned stack at a call")
            s.pc = t
            return None
        if mn in ("ret", "retq"):
            t = s.mem.load(s.r["rsp"], 8)
            if not isc(t):
                raise Crash("return address overwritten")
            s.r["rsp"] = add(s.r["rsp"], 8)
            s.pc = t
            return None
        if mn in ("push", "pushq"):
            v = self.get(s, ops[0], 64)
            s.r["rsp"] = sub(s.r["rsp"], 8)
            s.mem.store(s.r["rsp"], v, 8)
        elif mn in ("pop", "popq"):
            v = s.mem.load(s.r["rsp"], 8)
            s.r["rsp"] = add(s.r["rsp"], 8)
            self.put(s, ops[0], v, 64)
        elif mn in ("ud2", "int3", "hlt"):
            raise Crash(mn)
        elif mn in ("cqto", "cqo"):
            s.r["rdx"] = ashr(s.r["rax"], 63)
        elif mn in ("cltd", "cdq"):
            s.r["rdx"] = zext(ashr(low(s.r["rax"], 32), 31, 32), 32, 64)
        elif mn in ("cwtd", "cwd"):
            self.put(s, ("r", "rdx", 16, 0), ashr(low(s.r["rax"], 16), 15, 16), 16)
        elif mn in ("cltq", "cdqe"):
            s.r["rax"] = sext(low(s.r["rax"], 32), 32, 64)
        elif mn in ("cbtw", "cbw"):
            self.put(s, ("r", "rax", 16, 0), sext(low(s.r["rax"], 8), 8, 16), 16)
        elif re.match(r"^mov[sz][bwl][wlq]$", mn) and mn not in ("movsd",):
            a, b = SUF[mn[4]], SUF[mn[5]]
            v = self.get(s, ops[0], a)
            self.put(s, ops[1], sext(v, a, b) if mn[3] == "s" else zext(v, a, b), b)
        elif mn in ("movq", "movd") and any(o[0] == "x" for o in ops):
            w = 64 if mn == "movq" else 32
            v = self.get(s, ops[0], w)
            if ops[1][0] == "x":
                s.f[ops[1][1]] = (zext(v, w, 64), 0)
            else:
                self.put(s, ops[1], v, w)
        elif re.match(r"^mov(abs)?[bwlq]?$", mn):
            w = SUF.get(mn[-1]) if mn[-1] in SUF and mn not in ("movab",) else self.width(ops)
            if mn.startswith("movabs"):
                w = 64
            # a 64-bit constant that is the address of a symbol
            src = ops[0]
            rel = self.relof(pc, nxt)
            if src[0] == "i" and rel is not None:
                v = (rel[2] + rel[3]) & M64
            else:
                v = self.get(s, src, w)
            self.put(s, ops[1], v, w)
        elif mn in ("leaq", "leal", "leaw", "lea"):
            w = SUF.get(mn[-1], 64)
            self.put(s, ops[1], low(self.ea_sym(s, ops[0]), w), w)
        elif re.match(r"^xchg[bwlq]$", mn):
            w = SUF[mn[-1]]
            a, b = self.get(s, ops[0], w), self.get(s, ops[1], w)
            self.put(s, ops[0], b, w)
            self.put(s, ops[1], a, w)
        elif re.match(r"^(add|sub|and|or|xor|cmp|test)[bwlq]$", mn):
            k, w = mn[:-1], SUF[mn[-1]]
            b, a = self.get(s, ops[0], w), self.get(s, ops[1], w)
            if k == "cmp":
                s.flags = ("sub", a, b, w)
            elif k == "test":
                s.flags = ("res", and_(a, b, w), w)
            else:
                r = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor}[k](a, b, w)
                if k == "xor" and ops[0] == ops[1]:
                    r = 0
                self.put(s, ops[1], r, w)
                s.flags = ("sub", a, b, w) if k == "sub" else ("zs", r, w) if k == "add" else ("res", r, w)
        elif re.match(r"^(inc|dec|neg|not)[bwlq]$", mn):
            k, w = mn[:-1], SUF[mn[-1]]
            a = self.get(s, ops[0], w)
            r = add(a, 1, w) if k == "inc" else sub(a, 1, w) if k == "dec" else neg(a, w) if k == "neg" else not_(a, w)
            self.put(s, ops[0], r, w)
            if k != "not":
                s.flags = ("zs", r, w)
        elif re.match(r"^(shl|sal|shr|sar)[bwlq]$", mn):
            k, w = mn[:-1], SUF[mn[-1]]
            if len(ops) == 1:
                n, d = 1, ops[0]
            else:
                n, d = self.get(s, ops[0], 8), ops[1]
            n = and_(n, 63 if w == 64 else 31, 8)
            nn = zext(n, 8, w) if w > 8 else n
            a = self.get(s, d, w)
            r = shl(a, nn, w) if k in ("shl", "sal") else lshr(a, nn, w) if k == "shr" else ashr(a, nn, w)
            self.put(s, d, r, w)
            # the carry is the last bit shifted out
            s.flags = ("cf", ext(a, n - 1, n - 1)) if k in ("shr", "sar") and isc(n) and 0 < n < w else None
        elif re.match(r"^imul[bwlq]$", mn) and len(ops) > 1:
            w = SUF[mn[-1]]
            if len(ops) == 2:
                self.put(s, ops[1], mul(self.get(s, ops[1], w), self.get(s, ops[0], w), w), w)
            else:
                self.put(s, ops[2], mul(self.get(s, ops[1], w), self.get(s, ops[0], w), w), w)
            s.flags = None
        elif re.match(r"^i?mul[bwlq]$", mn):
            sg, w = mn[0] == "i", SUF[mn[-1]]
            x = sext if sg else zext
            p = mul(x(self.get(s, ("r", "rax", w, 0), w), w, 2 * w), x(self.get(s, ops[0], w), w, 2 * w), 2 * w)
            if w == 8:
                self.put(s, ("r", "rax", 16, 0), p, 16)
            else:
                self.put(s, ("r", "rax", w, 0), low(p, w), w)
                self.put(s, ("r", "rdx", w, 0), ext(p, 2 * w - 1, w), w)
            s.flags = None
        elif re.match(r"^i?div[bwlq]$", mn):
            return self.div(s, mn[0] == "i", SUF[mn[-1]], ops[0], nxt)
        elif mn.startswith("set") and mn[3:] in CC:
            self.put(s, ops[0], bit(self.cond(s, mn[3:]), 8), 8)
        elif mn.startswith("cmov"):
            t = mn[4:]
            w = self.width(ops)
            if t not in CC:
                w, t = SUF[t[-1]], t[:-1]
            v = ite(self.cond(s, t), self.get(s, ops[0], w), self.get(s, ops[1], w), w)
            self.put(s, ops[1], v, w)
        elif mn in ("movss", "movsd", "movaps", "movapd", "movups", "movupd", "movdqa", "movdqu"):
            self.fmov(s, mn, ops)
        elif re.match(r"^(add|sub|mul|div)s[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            b, a = self.get(s, ops[0], w), self.get(s, ops[1], w)
            self.setf(s, ops[1][1], fop(mn[:3], a, b, w), w)
        elif mn in ("ucomiss", "ucomisd", "comiss", "comisd"):
            w = 32 if mn[-1] == "s" else 64
            s.flags = ("fc", self.get(s, ops[1], w), self.get(s, ops[0], w), w)
        elif mn in ("xorps", "xorpd", "pxor", "andps", "andpd", "orps", "orpd"):
            i = ops[1][1]
            f = xor if "xor" in mn else and_ if "and" in mn else or_
            if ops[0][0] == "x":
                if ops[0] == ops[1] and f is xor:
                    s.f[i] = (0, 0)
                else:
                    q = s.f[ops[0][1]]
                    s.f[i] = (f(s.f[i][0], q[0]), f(s.f[i][1], q[1]))
            else:
                a = self.ea(s, ops[0])
                if a % 16:
                    raise Crash("misaligned packed operand")
                s.f[i] = (f(s.f[i][0], s.mem.load(a, 8)), f(s.f[i][1], s.mem.load(a + 8, 8)))
        elif re.match(r"^cvtsi2s[sd][lq]?$", mn):
            wf = 32 if mn[7] == "s" else 64
            wi = SUF[mn[8]] if len(mn) > 8 else self.width(ops)
            self.setf(s, ops[1][1], s2f(self.get(s, ops[0], wi), wi, wf), wf)
        elif re.match(r"^cvttss2si[lq]?$|^cvttsd2si[lq]?$", mn):
            wf = 32 if mn[5] == "s" else 64
            wi = SUF[mn[-1]] if mn[-1] in "lq" else ops[1][2]
            a = self.get(s, ops[0], wf)
            okr = fin_range(a, wf, wi, True)
            self.put(s, ops[1], norm(ite(okr, f2s(a, wf, wi), 1 << (wi - 1), wi), wi), wi)
        elif mn in ("cvtss2sd", "cvtsd2ss"):
            a, b = (32, 64) if mn == "cvtss2sd" else (64, 32)
            self.setf(s, ops[1][1], fcvt(self.get(s, ops[0], a), a, b), b)
        elif mn in ("sqrtsd",):
            raise Unsupported(mn)
        elif mn.startswith("rep"):
            raise Unsupported(mn)
        else:
            raise Unsupported("instruction %s %s" % (mn, ins[1]))
        s.pc = nxt
        return None

    def relof(self, pc, nxt):
        for a in range(pc, nxt):
            if a in self.o.rel:
                return (a,) + self.o.rel[a][0]

    def ea_sym(self, s, o):
        a = o[4] & M64
        if o[1]:
            a = add(s.r[o[1]], a)
        if o[2]:
            a = add(a, mul(s.r[o[2]], o[3]))
        return norm(a, 64)

    def width(self, ops):
        for o in reversed(ops):
            if o[0] == "r":
                return o[2]
        raise Unsupported("width")

    def setf(self, s, i, v, w):
        lo, hi = s.f[i]
        s.f[i] = (v if w == 64 else cat(ext(lo, 63, 32), 32, v, 32), hi)

    def fmov(self, s, mn, ops):
        if mn in ("movss", "movsd"):
            w = 32 if mn == "movss" else 64
            v = self.get(s, ops[0], w)
            if ops[1][0] == "x":
                if ops[0][0] == "m":
                    s.f[ops[1][1]] = (zext(v, w, 64), 0)
                else:
                    self.setf(s, ops[1][1], v, w)
            else:
                self.put(s, ops[1], v, w)
            return
        if ops[0][0] == "x" and ops[1][0] == "x":
            s.f[ops[1][1]] = s.f[ops[0][1]]
            return
        m = ops[0] if ops[0][0] == "m" else ops[1]
        a = self.ea(s, m)
        if not isc(a):
            raise Fork(a)
        if mn in ("movaps", "movapd", "movdqa") and a % 16:
            raise Crash("misaligned " + mn)
        if ops[1][0] == "x":
            s.f[ops[1][1]] = (s.mem.load(a, 8), s.mem.load(a + 8, 8))
        else:
            lo, hi = s.f[ops[0][1]]
            s.mem.store(a, lo, 8)
            s.mem.store(a + 8, hi, 8)

    def div(self, s, sg, w, o, nxt):
        d = self.get(s, o, w)
        if w == 8:
            n = low(s.r["rax"], 16)
            lo, hi = low(n, 8), ext(n, 15, 8)
        else:
            lo, hi = self.get(s, ("r", "rax", w, 0), w), self.get(s, ("r", "rdx", w, 0), w)
        # the high half is the extension of the low half in every sane use; then the division is w bits wide
        want = ashr(lo, w - 1, w) if sg else 0
        ish = eq(hi, want, w)
        if ish is not True and not self.concrete:
            sol = z3.Solver()
            sol.add(*s.pcs)
            sol.add(z3.Not(ish) if ish is not False else z3.BoolVal(True))
            self.queries += 1
            if sol.check() == z3.unsat:
                ish = True
        if ish is True:
            q = (sdiv if sg else udiv)(lo, d, w)
            r = (srem if sg else urem)(lo, d, w)
            zero = eq(d, 0, w)
            ov = band(eq(lo, 1 << (w - 1), w), eq(d, mask(-1, w), w)) if sg else False
        else:
            W = 2 * w
            nn = cat(hi, w, lo, w)
            dd = sext(d, w, W) if sg else zext(d, w, W)
            q2 = (sdiv if sg else udiv)(nn, dd, W)
            r2 = (srem if sg else urem)(nn, dd, W)
            zero = eq(d, 0, w)
            q, r = (low(q2, w), low(r2, w)) if q2 is not None else (None, None)
            ov = False if q2 is None else bnot(eq(q2, sext(q, w, W) if sg else zext(q, w, W), W))
        trap = bor(zero, ov)
        if trap is True:
            s.events.append("division trap")
            raise Crash("division trap")
        if trap is not False:
            t = s.fork()
            t.pcs.append(trap)
            if self.sat(t):
                raise Crash("division trap reachable")
        if w == 8:
            self.put(s, ("r", "rax", 16, 0), cat(r, 8, q, 8), 16)
        else:
            self.put(s, ("r", "rax", w, 0), q, w)
            self.put(s, ("r", "rdx", w, 0), r, w)
        s.flags = None
        s.pc = nxt
        return None


class Fork(Exception):
    def __init__(self, e):
        self.e = e


def pin(s, e, v):
    pass
