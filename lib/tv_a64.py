"""AArch64 on top of tv.py (syntax as printed by llvm-objdump)"""
import re, z3
from tv import *

CCS = "eq ne hs lo mi pl vs vc hi ls ge lt gt le al nv cs cc".split()


def split_ops(t):
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "[{":
            d += 1
        elif ch in "]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Fork(Exception):
    def __init__(self, e):
        self.e = e


class A64(Machine):
    name = "arm64"

    def __init__(self, obj, models=None):
        Machine.__init__(self, obj, models)
        self.cache = {}

    # ------------------------------------------------ conventions
    def start(self, fn, ints, floats):
        s = self.new_state()
        for i in range(31):
            s.r["x%d" % i] = self.fresh("x%d" % i, 64)
        for i in range(32):
            s.f[i] = self.fresh("d%d" % i, 64)
        s.r["sp"] = SP0
        stack = []
        for i, v in enumerate(ints):
            if i < 8:
                s.r["x%d" % i] = v
            else:
                stack.append(v)
        for i, (v, w) in enumerate(floats):
            if i >= 8:
                raise Unsupported("more than 8 float parameters")
            s.f[i] = cat(self.fresh("fhi", 32), 32, v, 32) if w == 32 else v
        for i, v in enumerate(stack):
            s.mem.store(SP0 + 8 * i, v, 8)
        s.r["x30"] = RET
        s.pc = self.o.sym[fn]
        self.fp0 = s.r["x29"]
        return s

    def widen(self, t, v):
        """an argument register holds the value extended to 32 bits by its type, as AAPCS callers of this compiler leave it; the rest is arbitrary"""
        w = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "bool": 8}.get(t, 64)
        if w == 64:
            return v
        v32 = v if w == 32 else sext(v, w, 32) if t[0] == "i" else zext(v, w, 32)
        return cat(self.fresh("up", 32), 32, v32, 32)

    def iarg(self, s, n):
        return s.r["x%d" % n]

    def iret(self, s, w=64):
        return low(s.r["x0"], w)

    def fret(self, s, w=64):
        return low(s.f[0], w)

    def set_ret(self, s, v):
        s.r["x0"] = v

    def clobber(self, s):
        for i in range(19):
            s.r["x%d" % i] = self.fresh("x", 64)
        for i in list(range(8)) + list(range(16, 32)):
            s.f[i] = self.fresh("d", 64)
        s.flags = None
        s.mem.drop_below(STACK_LO, s.r["sp"])

    def ret_addr(self, s):
        return s.r["x30"]

    def do_return(self, s, ret):
        s.pc = ret

    def check_exit(self, s):
        if s.r["sp"] != SP0:
            return "stack pointer not restored"
        b, o = s.r["x29"], self.fp0
        if not (b.eq(o) if not isc(b) and not isc(o) else isc(b) and isc(o) and b == o):
            return "frame pointer not restored"

    # ------------------------------------------------ operands
    def parse(self, pc, ins):
        if pc in self.cache:
            return self.cache[pc]
        mn, ops, nxt, sec = ins
        rel = self.o.rel.get(pc)
        out = []
        for t in split_ops(ops):
            m = re.match(r"^([wx])(\d+|zr)$", t)
            if m:
                out.append(("r", "zr" if m.group(2) == "zr" else "x" + m.group(2), 32 if m.group(1) == "w" else 64))
            elif t in ("sp", "wsp"):
                out.append(("r", "sp", 64))
            elif re.match(r"^[bhsdq]\d+$", t):
                out.append(("f", int(t[1:]), {"b": 8, "h": 16, "s": 32, "d": 64, "q": 128}[t[0]]))
            elif t.startswith("#"):
                out.append(("F", float(t[1:])) if "." in t else ("i", int(t[1:], 0)))
            elif t.startswith("["):
                wb = t.endswith("!")
                p = [x.strip() for x in t.rstrip("!")[1:-1].split(",")]
                disp, idx, sh, ex = 0, None, 0, None
                if len(p) > 1:
                    if p[1].startswith("#"):
                        disp = int(p[1][1:], 0)
                    else:
                        idx = p[1]
                        if len(p) > 2:
                            q = p[2].split()
                            ex = q[0]
                            sh = int(q[1][1:], 0) if len(q) > 1 else 0
                out.append(("m", p[0], disp, idx, ex, sh, wb))
            elif t in CCS:
                out.append(("c", t))
            elif re.match(r"^(lsl|lsr|asr|ror|uxtb|uxth|uxtw|uxtx|sxtb|sxth|sxtw|sxtx)\b", t):
                q = t.split()
                out.append(("s", q[0], int(q[1][1:], 0) if len(q) > 1 else 0))
            elif re.match(r"^0x[0-9a-f]+$", t):
                out.append(("t", int(t, 16) + sec))
            else:
                raise Unsupported("operand %s of %s" % (t, mn))
        if rel:
            ty, a, ad, nm = rel[0]
            v = a + ad
            if ty in (282, 283, 280, 279):
                out[-1] = ("t", v)
            elif ty == 275:
                out[-1] = ("t", v & ~0xfff)
            elif ty == 277:
                out[-1] = ("i", v & 0xfff)
            elif ty in (278, 284, 285, 286, 299):
                o = out[-1]
                out[-1] = ("m", o[1], v & 0xfff) + o[3:]
            else:
                raise Unsupported("relocation %d" % ty)
        elif mn == "adrp":
            out[-1] = ("t", out[-1][1] & ~0xfff)
        self.cache[pc] = out
        return out

    def reg(self, s, n, w):
        if n == "zr":
            return 0
        return low(s.r[n], w)

    def get(self, s, o, w=None):
        if o[0] == "r":
            return self.reg(s, o[1], o[2])
        if o[0] == "i":
            return mask(o[1], w or 64)
        if o[0] == "f":
            return low(s.f[o[1]], o[2])
        raise Unsupported("operand kind " + o[0])

    def put(self, s, o, v):
        if o[0] == "r":
            if o[1] != "zr":
                s.r[o[1]] = zext(v, 32, 64) if o[2] == 32 else v
        elif o[0] == "f":
            s.f[o[1]] = zext(v, o[2], 64) if o[2] < 64 else v
        else:
            raise Unsupported("destination")

    def ea(self, s, o):
        b = s.r[o[1]] if o[1] != "sp" else s.r["sp"]
        if o[3]:
            n, w = ("x" + o[3][1:]) if o[3][1:] != "zr" else "zr", 32 if o[3][0] == "w" else 64
            v = self.reg(s, n, w)
            if w == 32:
                v = sext(v, 32, 64) if o[4] == "sxtw" else zext(v, 32, 64)
            b = add(b, shl(v, o[5]))
        return norm(add(b, mask(o[2], 64)), 64)

    def addr(self, s, o):
        a = self.ea(s, o)
        if not isc(a):
            raise Fork(a)
        return a

    def cond(self, s, cc):
        inv = {"ne": "eq", "lo": "hs", "cc": "hs", "pl": "mi", "vc": "vs", "ls": "hi", "lt": "ge", "le": "gt"}
        if cc == "cs":
            cc = "hs"
        if cc in inv:
            return bnot(self.cond(s, inv[cc]))
        if cc in ("al", "nv"):
            return True
        if s.flags is None:
            raise Crash("condition on undefined flags")
        k, a, b, w = s.flags
        if k == "sub":
            return {"eq": lambda: eq(a, b, w), "hs": lambda: bnot(ult(a, b, w)), "mi": lambda: slt(sub(a, b, w), 0, w), "hi": lambda: ult(b, a, w),
                    "ge": lambda: bnot(slt(a, b, w)), "gt": lambda: slt(b, a, w), "vs": lambda: bnot(eq(bit2(slt(a, b, w)), bit2(slt(sub(a, b, w), 0, w)), 1))}[cc]()
        if k == "logic":
            return {"eq": lambda: eq(a, 0, w), "mi": lambda: slt(a, 0, w), "ge": lambda: bnot(slt(a, 0, w)), "gt": lambda: slt(0, a, w), "hs": lambda: False, "vs": lambda: False, "hi": lambda: False}[cc]()
        if k == "f":
            un = funord(a, b, w)
            # after fcmp: less N, equal Z C, greater C, unordered C V
            return {"eq": lambda: feq(a, b, w), "hs": lambda: bnot(flt(a, b, w)), "mi": lambda: flt(a, b, w), "vs": lambda: un,
                    "hi": lambda: bor(flt(b, a, w), un), "ge": lambda: bor(flt(b, a, w), feq(a, b, w)), "gt": lambda: flt(b, a, w)}[cc]()
        raise Unsupported("flags")

    # ------------------------------------------------ one instruction
    def step(self, s, ins):
        try:
            return self.step1(s, ins)
        except Fork as f:
            outs = self.concretize(s, f.e)
            r = []
            for n, v in outs:
                n.x = dict(n.x)
                n.x["pin"] = (f.e, v)
                r.append(n)
            # with the address pinned by the path condition, substitute it in the registers
            for n, v in outs:
                for k in list(n.r):
                    if not isc(n.r[k]):
                        n.r[k] = norm(z3.substitute(n.r[k], (f.e, z3.BitVecVal(v, 64))), 64)
                self.pins(n, f.e, v)
            return r

    def pins(self, n, e, v):
        """make the effective address of the current instruction a constant on this path"""
        n.x["addr"] = (n.pc, v)

    def step1(self, s, ins):
        mn, ops, nxt, sec = ins
        o = self.parse(s.pc, ins)
        pc = s.pc
        g = self.get
        pinned = s.x.get("addr")
        if pinned and pinned[0] == pc:
            s.x = {k: v for k, v in s.x.items() if k not in ("addr", "pin")}
            pin = pinned[1]
        else:
            pin = None

        def mem(i):
            return pin if pin is not None else self.addr(s, o[i])

        def op2(i, w):
            """operand i with an optional shift or extension after it"""
            v = g(s, o[i], w)
            if len(o) > i + 1 and o[i + 1][0] == "s":
                k, n = o[i + 1][1:]
                if k in ("lsl",):
                    return shl(v, n, w)
                if k == "lsr":
                    return lshr(v, n, w)
                if k == "asr":
                    return ashr(v, n, w)
                fw = {"b": 8, "h": 16, "w": 32, "x": 64}[k[3]]
                e = (sext if k[0] == "s" else zext)(low(v, min(fw, o[i][2])), min(fw, o[i][2]), w)
                return shl(e, n, w)
            return v
        base = mn[:-1] if mn in ("adds", "subs", "ands") else mn
        if base in ("add", "sub", "and", "orr", "eor", "bic", "orn", "eon"):
            w = o[0][2]
            a, b = g(s, o[1], w), op2(2, w)
            if base in ("bic", "orn", "eon"):
                b = not_(b, w)
            r = {"add": add, "sub": sub, "and": and_, "orr": or_, "eor": xor, "bic": and_, "orn": or_, "eon": xor}[base](a, b, w)
            self.put(s, o[0], norm(r, w) if o[0][1] == "sp" else r)
            if base != mn:
                s.flags = ("sub", a, b, w) if base == "sub" else ("logic", r, 0, w) if base == "and" else None
        elif mn == "mov" or mn == "movz":
            w = o[0][2]
            v = g(s, o[1], w)
            if len(o) > 2:
                v = shl(v, o[2][2], w)
            self.put(s, o[0], v)
        elif mn == "movn":
            w = o[0][2]
            v = o[1][1] << (o[2][2] if len(o) > 2 else 0)
            self.put(s, o[0], mask(~v, w))
        elif mn == "movk":
            w = o[0][2]
            sh = o[2][2] if len(o) > 2 else 0
            v = g(s, o[0], w)
            self.put(s, o[0], or_(and_(v, mask(~(0xffff << sh), w), w), o[1][1] << sh, w))
        elif mn in ("mvn", "neg"):
            w = o[0][2]
            v = op2(1, w)
            self.put(s, o[0], not_(v, w) if mn == "mvn" else neg(v, w))
        elif mn in ("mul", "madd", "msub", "mneg"):
            w = o[0][2]
            p = mul(g(s, o[1], w), g(s, o[2], w), w)
            if mn == "madd":
                p = add(g(s, o[3], w), p, w)
            elif mn == "msub":
                p = sub(g(s, o[3], w), p, w)
            elif mn == "mneg":
                p = neg(p, w)
            self.put(s, o[0], p)
        elif mn in ("sdiv", "udiv"):
            w = o[0][2]
            a, b = g(s, o[1], w), g(s, o[2], w)
            if isc(b) and b == 0:
                r = 0
            else:
                r = (sdiv if mn == "sdiv" else udiv)(a, b, w)
                if not isc(b):
                    r = ite(eq(b, 0, w), 0, r, w)
            self.put(s, o[0], r)
        elif mn in ("lsl", "lsr", "asr", "lslv", "lsrv", "asrv"):
            w = o[0][2]
            n = g(s, o[2], w)
            n = and_(n, w - 1, w)
            self.put(s, o[0], {"lsl": shl, "lsr": lshr, "asr": ashr}[mn[:3]](g(s, o[1], w), n, w))
        elif mn in ("sxtb", "sxth", "sxtw", "uxtb", "uxth", "uxtw"):
            w, f = o[0][2], {"b": 8, "h": 16, "w": 32}[mn[3]]
            v = low(self.reg(s, o[1][1], 64), f)
            self.put(s, o[0], (sext if mn[0] == "s" else zext)(v, f, w))
        elif mn in ("ubfx", "sbfx"):
            w = o[0][2]
            lsb, n = o[2][1], o[3][1]
            v = ext(g(s, o[1], w), lsb + n - 1, lsb)
            self.put(s, o[0], (sext if mn[0] == "s" else zext)(v, n, w))
        elif mn in ("cmp", "cmn", "tst"):
            w = o[0][2]
            a, b = g(s, o[0], w), op2(1, w)
            if mn == "cmp":
                s.flags = ("sub", a, b, w)
            elif mn == "tst":
                s.flags = ("logic", and_(a, b, w), 0, w)
            else:
                # cmn a, b compares a with -b; -b overflows only for the least value
                if not isc(b) or mask(b, w) == 1 << (w - 1) or b == 0:
                    raise Unsupported("cmn")
                s.flags = ("sub", a, neg(b, w), w)
        elif mn in ("cset", "csetm"):
            c = self.cond(s, o[1][1])
            self.put(s, o[0], ite(c, 1 if mn == "cset" else mask(-1, o[0][2]), 0, o[0][2]))
        elif mn in ("csel", "csinc", "csneg", "csinv"):
            w = o[0][2]
            b = g(s, o[2], w)
            b = {"csel": lambda: b, "csinc": lambda: add(b, 1, w), "csneg": lambda: neg(b, w), "csinv": lambda: not_(b, w)}[mn]()
            self.put(s, o[0], ite(self.cond(s, o[3][1]), g(s, o[1], w), b, w))
        elif mn == "adrp" or mn == "adr":
            self.put(s, o[0], o[1][1])
        elif mn in ("ldr", "ldur", "ldrb", "ldrh", "ldrsb", "ldrsh", "ldrsw", "ldurb", "ldurh", "ldursb", "ldursh", "ldursw"):
            if o[1][0] != "m":
                raise Unsupported("literal load")
            a = mem(1)
            if len(o) > 2:  # post-index
                raise Unsupported("post-index") if o[2][0] != "i" else None
            k = mn.replace("ldur", "ldr")[3:]
            n = {"": o[0][2] // 8, "b": 1, "h": 2, "sb": 1, "sh": 2, "sw": 4}[k]
            if len(o) > 2:
                a = self.ea(s, o[1][:2] + (0, None, None, 0, False))
            v = s.mem.load(a, n)
            w = o[0][2]
            if k.startswith("s"):
                v = sext(v, 8 * n, w)
            elif 8 * n < w:
                v = zext(v, 8 * n, w)
            self.put(s, o[0], v)
            self.wback(s, o[1], o[2][1] if len(o) > 2 else None)
        elif mn in ("str", "stur", "strb", "strh", "sturb", "sturh"):
            a = mem(1)
            k = mn.replace("stur", "str")[3:]
            n = {"": o[0][2] // 8, "b": 1, "h": 2}[k]
            s.mem.store(a, low(g(s, o[0]), 8 * n), n)
            self.wback(s, o[1], o[2][1] if len(o) > 2 else None)
        elif mn in ("ldp", "stp"):
            a = mem(2)
            n = o[0][2] // 8
            if mn == "ldp":
                x, y = s.mem.load(a, n), s.mem.load(a + n, n)
                self.put(s, o[0], x)
                self.put(s, o[1], y)
            else:
                s.mem.store(a, g(s, o[0]), n)
                s.mem.store(a + n, g(s, o[1]), n)
            self.wback(s, o[2], o[3][1] if len(o) > 3 else None)
        elif mn == "b":
            s.pc = o[0][1]
            return None
        elif mn.startswith("b."):
            return self.branch(s, self.cond(s, mn[2:]), o[0][1], nxt)
        elif mn in ("cbz", "cbnz"):
            c = eq(g(s, o[0]), 0, o[0][2])
            return self.branch(s, c if mn == "cbz" else bnot(c), o[1][1], nxt)
        elif mn in ("tbz", "tbnz"):
            c = eq(ext(g(s, o[0]), o[1][1], o[1][1]), 0, 1)
            return self.branch(s, c if mn == "tbz" else bnot(c), o[2][1], nxt)
        elif mn == "bl":
            s.r["x30"] = nxt
            s.pc = o[0][1]
            return None
        elif mn in ("blr", "br"):
            t = norm(g(s, o[0]), 64)
            if not isc(t):
                raise Crash("jump to a computed address")
            if mn == "blr":
                s.r["x30"] = nxt
            s.pc = t
            return None
        elif mn == "ret":
            t = norm(s.r["x30"], 64)
            if not isc(t):
                raise Crash("return to an address that is not the caller's")
            s.pc = t
            return None
        elif mn == "nop":
            pass
        # ---------------------------------------- floating point
        elif mn == "fmov":
            w = o[0][2]
            if o[1][0] == "F":
                import struct
                self.put(s, o[0], struct.unpack("<Q" if w == 64 else "<I", struct.pack("<d" if w == 64 else "<f", o[1][1]))[0])
            else:
                if o[1][0] == "r" and o[1][1] == "zr":
                    v = 0
                else:
                    v = g(s, o[1])
                self.put(s, o[0], v)
        elif mn in ("fadd", "fsub", "fmul", "fdiv"):
            w = o[0][2]
            self.put(s, o[0], fop(mn[1:], g(s, o[1]), g(s, o[2]), w))
        elif mn == "fneg":
            w = o[0][2]
            self.put(s, o[0], xor(g(s, o[1]), 1 << (w - 1), w))
        elif mn == "fcmp" or mn == "fcmpe":
            w = o[0][2]
            s.flags = ("f", g(s, o[0]), 0 if o[1][0] in ("F", "i") else g(s, o[1]), w)
        elif mn in ("fmadd", "fmsub", "fnmsub", "fnmadd"):
            w = o[0][2]
            a, b, c = g(s, o[1]), g(s, o[2]), g(s, o[3])
            sb_ = 1 << (w - 1)
            if mn in ("fmsub", "fnmadd"):
                a = xor(a, sb_, w)
            if mn in ("fnmadd", "fnmsub"):
                c = xor(c, sb_, w)
            self.put(s, o[0], fromfp(z3.fpFMA(RNE, tofp(a, w), tofp(b, w), tofp(c, w)), w))
        elif mn == "fcvt":
            self.put(s, o[0], fcvt(g(s, o[1]), o[1][2], o[0][2]))
        elif mn in ("scvtf", "ucvtf"):
            self.put(s, o[0], (s2f if mn[0] == "s" else u2f)(g(s, o[1]), o[1][2], o[0][2]))
        elif mn in ("fcvtzs", "fcvtzu"):
            wf, wi = o[1][2], o[0][2]
            v, sg = g(s, o[1]), mn[-1] == "s"
            x = tofp(v, wf)
            t = (f2s if sg else f2u)(v, wf, wi)
            lo, hi = (1 << (wi - 1), (1 << (wi - 1)) - 1) if sg else (0, (1 << wi) - 1)
            inr = fin_range(v, wf, wi, sg)
            nanc = sb(z3.fpIsNaN(x))
            neg_ = flt(v, 0, wf)
            self.put(s, o[0], norm(ite(inr, t, ite(nanc, 0, ite(neg_, lo, hi, wi), wi), wi), wi))
        else:
            raise Unsupported("instruction %s %s" % (mn, ops))
        s.pc = nxt
        return None

    def wback(self, s, o, post):
        if post is not None:
            s.r[o[1]] = norm(add(s.r[o[1]], mask(post, 64)), 64)
        elif o[6]:
            s.r[o[1]] = norm(add(s.r[o[1]], mask(o[2], 64)), 64)


def bit2(c):
    return bit(c)
