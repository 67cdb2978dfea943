"""RV64GC on top of tv.py (syntax as printed by llvm-objdump)"""
import re, z3
from tv import *
from tv_a64 import Fork

IR = "zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6".split()
FR = ["ft%d" % i for i in range(12)] + ["fs%d" % i for i in range(12)] + ["fa%d" % i for i in range(8)]
CALLER = "ra t0 t1 t2 t3 t4 t5 t6 a0 a1 a2 a3 a4 a5 a6 a7".split()
BOX = 0xffffffff


class RV(Machine):
    name = "riscv64"

    def __init__(self, obj, models=None):
        Machine.__init__(self, obj, models)
        self.cache = {}

    # ------------------------------------------------ conventions
    def start(self, fn, ints, floats):
        s = self.new_state()
        for r in IR[1:]:
            s.r[r] = self.fresh(r, 64)
        for r in FR:
            s.f[r] = self.fresh(r, 64)
        s.r["sp"] = SP0
        stack = []
        for i, v in enumerate(ints):
            if i < 8:
                s.r["a%d" % i] = v
            else:
                stack.append(v)
        for i, (v, w) in enumerate(floats):
            if i >= 8:
                raise Unsupported("more than 8 float parameters")
            s.f["fa%d" % i] = cat(BOX, 32, v, 32) if w == 32 else v
        for i, v in enumerate(stack):
            s.mem.store(SP0 + 8 * i, v, 8)
        s.r["ra"] = RET
        s.pc = self.o.sym[fn]
        self.fp0 = s.r["s0"]
        return s

    def widen(self, t, v):
        """psABI: extended by the type to 32 bits, then sign-extended to 64"""
        w = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "bool": 8}.get(t, 64)
        if w == 64:
            return v
        v32 = v if w == 32 else sext(v, w, 32) if t[0] == "i" else zext(v, w, 32)
        return sext(v32, 32, 64)

    def iarg(self, s, n):
        return s.r["a%d" % n]

    def iret(self, s, w=64):
        return low(s.r["a0"], w)

    def fret(self, s, w=64):
        return low(s.f["fa0"], w)

    def set_ret(self, s, v):
        s.r["a0"] = v

    def clobber(self, s):
        for r in CALLER:
            s.r[r] = self.fresh(r, 64)
        for r in FR:
            if not r.startswith("fs"):
                s.f[r] = self.fresh(r, 64)
        s.mem.drop_below(STACK_LO, s.r["sp"])

    def ret_addr(self, s):
        return s.r["ra"]

    def do_return(self, s, ret):
        s.pc = ret

    def check_exit(self, s):
        if s.r["sp"] != SP0:
            return "stack pointer not restored"
        b, o = s.r["s0"], self.fp0
        if not (b.eq(o) if not isc(b) and not isc(o) else isc(b) and isc(o) and b == o):
            return "frame pointer not restored"

    # ------------------------------------------------ operands
    def parse(self, pc, ins):
        if pc in self.cache:
            return self.cache[pc]
        mn, ops, nxt, sec = ins
        out = []
        for t in [x.strip() for x in ops.split(",") if x.strip()]:
            if t in IR:
                out.append(("r", t))
            elif t in FR:
                out.append(("f", t))
            elif re.match(r"^-?(0x[0-9a-f]+|\d+)$", t):
                out.append(("i", int(t, 0)))
            elif re.match(r"^-?(0x[0-9a-f]+|\d+)?\(\w+\)$", t):
                m = re.match(r"^(-?(?:0x[0-9a-f]+|\d+)?)\((\w+)\)$", t)
                out.append(("m", m.group(2), int(m.group(1), 0) if m.group(1) else 0))
            elif t in ("rtz", "rne", "rdn", "rup", "rmm", "dyn"):
                out.append(("R", t))
            else:
                raise Unsupported("operand %s of %s" % (t, mn))
        self.cache[pc] = out
        return out

    def get(self, s, o):
        if o[0] == "r":
            return 0 if o[1] == "zero" else s.r[o[1]]
        if o[0] == "i":
            return mask(o[1], 64)
        raise Unsupported("operand")

    def put(self, s, o, v):
        if o[1] != "zero":
            s.r[o[1]] = norm(v, 64) if o[1] == "sp" else v

    def addr(self, s, o):
        a = norm(add(self.get(s, ("r", o[1])), mask(o[2], 64)), 64)
        if not isc(a):
            raise Fork(a)
        return a

    def fg(self, s, o, w):
        v = s.f[o[1]]
        if w == 64:
            return v
        # an f32 that is not NaN-boxed reads as NaN
        hi = ext(v, 63, 32)
        return ite(eq(hi, BOX, 32), low(v, 32), 0x7fc00000, 32)

    def fp(self, s, o, v, w):
        s.f[o[1]] = v if w == 64 else cat(BOX, 32, v, 32)

    def step(self, s, ins):
        try:
            return self.step1(s, ins)
        except Fork as f:
            outs = self.concretize(s, f.e)
            for n, v in outs:
                n.x = dict(n.x)
                n.x["addr"] = (n.pc, v)
            return [n for n, v in outs]

    def step1(self, s, ins):
        mn, ops, nxt, sec = ins
        o = self.parse(s.pc, ins)
        pc, g = s.pc, self.get
        if mn.startswith("c."):
            mn = mn[2:]
            if mn == "addi" and len(o) == 2:
                o = [o[0], o[0], o[1]]
        pin = s.x.get("addr")
        if pin and pin[0] == pc:
            s.x = {k: v for k, v in s.x.items() if k != "addr"}
            pin = pin[1]
        else:
            pin = None

        def mem(i):
            return pin if pin is not None else self.addr(s, o[i])
        A3 = {"add": add, "sub": sub, "and": and_, "or": or_, "xor": xor, "mul": mul, "addi": add, "andi": and_, "ori": or_, "xori": xor}
        if mn in A3:
            self.put(s, o[0], A3[mn](g(s, o[1]), g(s, o[2])))
        elif mn in ("addw", "addiw", "subw", "mulw"):
            f = {"a": add, "s": sub, "m": mul}[mn[0]]
            self.put(s, o[0], sext(f(low(g(s, o[1]), 32), low(g(s, o[2]), 32), 32), 32, 64))
        elif mn in ("sll", "srl", "sra", "slli", "srli", "srai"):
            f = {"sll": shl, "srl": lshr, "sra": ashr}[mn[:3]]
            self.put(s, o[0], f(g(s, o[1]), and_(g(s, o[2]), 63)))
        elif mn in ("sllw", "srlw", "sraw", "slliw", "srliw", "sraiw"):
            f = {"sll": shl, "srl": lshr, "sra": ashr}[mn[:3]]
            self.put(s, o[0], sext(f(low(g(s, o[1]), 32), and_(low(g(s, o[2]), 32), 31, 32), 32), 32, 64))
        elif mn in ("slt", "slti"):
            self.put(s, o[0], bit(slt(g(s, o[1]), g(s, o[2]), 64), 64))
        elif mn in ("sltu", "sltiu"):
            self.put(s, o[0], bit(ult(g(s, o[1]), g(s, o[2]), 64), 64))
        elif mn in ("seqz", "snez", "sltz", "sgtz"):
            v = g(s, o[1])
            c = {"seqz": lambda: eq(v, 0, 64), "snez": lambda: bnot(eq(v, 0, 64)), "sltz": lambda: slt(v, 0, 64), "sgtz": lambda: slt(0, v, 64)}[mn]()
            self.put(s, o[0], bit(c, 64))
        elif mn in ("div", "divu", "rem", "remu", "divw", "divuw", "remw", "remuw"):
            w = 32 if mn.endswith("w") else 64
            k = mn[:-1] if w == 32 else mn
            a, b = low(g(s, o[1]), w), low(g(s, o[2]), w)
            z = mask(-1, w) if k.startswith("div") else a
            if isc(b) and b == 0:
                r = z
            else:
                r = {"div": sdiv, "divu": udiv, "rem": srem, "remu": urem}[k](a, b, w)
                if not isc(b):
                    r = ite(eq(b, 0, w), z, r, w)
            self.put(s, o[0], sext(r, w, 64) if w == 32 else r)
        elif mn in ("mv", "li"):
            self.put(s, o[0], g(s, o[1]))
        elif mn == "lui":
            self.put(s, o[0], sext(mask(o[1][1] << 12, 32), 32, 64))
        elif mn == "auipc":
            rel = self.o.rel.get(pc)
            if rel:
                ty, a, ad, nm = rel[0]
                if ty not in (18, 19):
                    raise Unsupported("relocation %d" % ty)
                self.put(s, o[0], a + ad)
            else:
                self.put(s, o[0], add(pc, sext(mask(o[1][1] << 12, 32), 32, 64)))
        elif mn in ("neg", "not", "sext.w", "negw", "zext.b"):
            v = g(s, o[1])
            self.put(s, o[0], {"neg": lambda: neg(v), "not": lambda: not_(v), "sext.w": lambda: sext(low(v, 32), 32, 64), "negw": lambda: sext(neg(low(v, 32), 32), 32, 64),
                               "zext.b": lambda: zext(low(v, 8), 8, 64)}[mn]())
        elif mn in ("lb", "lh", "lw", "ld", "lbu", "lhu", "lwu"):
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[mn[1]]
            v = s.mem.load(mem(1), n)
            self.put(s, o[0], v if n == 8 else zext(v, 8 * n, 64) if mn.endswith("u") else sext(v, 8 * n, 64))
        elif mn in ("sb", "sh", "sw", "sd"):
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[mn[1]]
            s.mem.store(mem(1), low(g(s, o[0]), 8 * n), n)
        elif mn in ("flw", "fld"):
            n = 4 if mn == "flw" else 8
            self.fp(s, o[0], s.mem.load(mem(1), n), 8 * n)
        elif mn in ("fsw", "fsd"):
            n = 4 if mn == "fsw" else 8
            s.mem.store(mem(1), low(s.f[o[0][1]], 8 * n), n)
        elif mn == "j":
            s.pc = o[0][1] + sec
            return None
        elif mn in ("beq", "bne", "blt", "bge", "bltu", "bgeu", "bgt", "ble", "bgtu", "bleu"):
            a, b = g(s, o[0]), g(s, o[1])
            c = {"beq": lambda: eq(a, b, 64), "bne": lambda: bnot(eq(a, b, 64)), "blt": lambda: slt(a, b, 64), "bge": lambda: bnot(slt(a, b, 64)), "bltu": lambda: ult(a, b, 64),
                 "bgeu": lambda: bnot(ult(a, b, 64)), "bgt": lambda: slt(b, a, 64), "ble": lambda: bnot(slt(b, a, 64)), "bgtu": lambda: ult(b, a, 64), "bleu": lambda: bnot(ult(b, a, 64))}[mn]()
            return self.branch(s, c, o[2][1] + sec, nxt)
        elif mn in ("beqz", "bnez", "bltz", "bgez", "bgtz", "blez"):
            a = g(s, o[0])
            c = {"beqz": lambda: eq(a, 0, 64), "bnez": lambda: bnot(eq(a, 0, 64)), "bltz": lambda: slt(a, 0, 64), "bgez": lambda: bnot(slt(a, 0, 64)),
                 "bgtz": lambda: slt(0, a, 64), "blez": lambda: bnot(slt(0, a, 64))}[mn]()
            return self.branch(s, c, o[1][1] + sec, nxt)
        elif mn in ("jalr", "jr", "ret", "jal"):
            if mn == "jal":
                s.r["ra"] = nxt
                s.pc = o[-1][1] + sec
                return None
            if mn == "ret":
                t, link = s.r["ra"], None
            elif mn == "jr":
                t, link = g(s, o[0]), None
            elif len(o) == 1:
                t, link = (g(s, o[0]) if o[0][0] == "r" else add(g(s, ("r", o[0][1])), mask(o[0][2], 64))), "ra"
            else:
                t = add(g(s, ("r", o[1][1])), mask(o[1][2] if o[1][0] == "m" else 0, 64))
                link = o[0][1]
            t = norm(t, 64)
            if not isc(t):
                raise Crash("jump to a computed address")
            if link and link != "zero":
                s.r[link] = nxt
            s.pc = t
            return None
        elif mn in ("nop", "fence"):
            pass
        # ---------------------------------------- floating point
        elif re.match(r"^f(add|sub|mul|div)\.[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            self.fp(s, o[0], fop(mn[1:4], self.fg(s, o[1], w), self.fg(s, o[2], w), w), w)
        elif re.match(r"^f(lt|le|eq|gt|ge)\.[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            a, b = self.fg(s, o[1], w), self.fg(s, o[2], w)
            c = {"lt": lambda: flt(a, b, w), "le": lambda: bor(flt(a, b, w), feq(a, b, w)), "eq": lambda: feq(a, b, w), "gt": lambda: flt(b, a, w), "ge": lambda: bor(flt(b, a, w), feq(a, b, w))}[mn[1:3]]()
            self.put(s, o[0], bit(c, 64))
        elif re.match(r"^f(mv|neg|abs)\.[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            v = self.fg(s, o[1], w)
            if mn[1] == "n":
                v = xor(v, 1 << (w - 1), w)
            elif mn[1] == "a":
                v = and_(v, mask(~(1 << (w - 1)), w), w)
            self.fp(s, o[0], v, w)
        elif re.match(r"^fsgnj[nx]?\.[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            a, b = self.fg(s, o[1], w), self.fg(s, o[2], w)
            sb_ = 1 << (w - 1)
            sg = and_(b, sb_, w)
            if mn[5] == "n":
                sg = xor(sg, sb_, w)
            elif mn[5] == "x":
                sg = xor(sg, and_(a, sb_, w), w)
            self.fp(s, o[0], or_(and_(a, sb_ - 1, w), sg, w), w)
        elif mn in ("fmv.x.w", "fmv.x.d", "fmv.w.x", "fmv.d.x"):
            if mn[4] == "x":
                v = s.f[o[1][1]]
                self.put(s, o[0], sext(low(v, 32), 32, 64) if mn[-1] == "w" else v)
            else:
                w = 32 if mn[4] == "w" else 64
                self.fp(s, o[0], low(g(s, o[1]), w), w)
        elif mn in ("fcvt.s.d", "fcvt.d.s"):
            a, b = (64, 32) if mn == "fcvt.s.d" else (32, 64)
            self.fp(s, o[0], fcvt(self.fg(s, o[1], a), a, b), b)
        elif re.match(r"^fcvt\.[sd]\.(w|wu|l|lu)$", mn):
            w = 32 if mn[5] == "s" else 64
            k = mn[7:]
            wi = 32 if k[0] == "w" else 64
            self.fp(s, o[0], (u2f if k.endswith("u") else s2f)(low(g(s, o[1]), wi), wi, w), w)
        elif re.match(r"^fcvt\.(w|wu|l|lu)\.[sd]$", mn):
            _, k, t = mn.split(".")
            if len(o) < 3 or o[2][1] != "rtz":
                raise Unsupported("rounding mode of " + mn)
            wf, wi, sg = 32 if t == "s" else 64, 32 if k[0] == "w" else 64, not k.endswith("u")
            v = self.fg(s, o[1], wf)
            x = tofp(v, wf)
            lo, hi = (1 << (wi - 1), (1 << (wi - 1)) - 1) if sg else (0, (1 << wi) - 1)
            r = ite(fin_range(v, wf, wi, sg), (f2s if sg else f2u)(v, wf, wi), ite(sb(z3.fpIsNaN(x)), hi, ite(flt(v, 0, wf), lo, hi, wi), wi), wi)
            r = norm(r, wi)
            self.put(s, o[0], sext(r, 32, 64) if wi == 32 else r)
        elif re.match(r"^fn?m(add|sub)\.[sd]$", mn):
            w = 32 if mn[-1] == "s" else 64
            a, b, c = (self.fg(s, o[i], w) for i in (1, 2, 3))
            sb_ = 1 << (w - 1)
            if mn.startswith("fn"):
                a = xor(a, sb_, w)
            if ("sub" in mn) != mn.startswith("fn"):
                c = xor(c, sb_, w)
            self.fp(s, o[0], fromfp(z3.fpFMA(RNE, tofp(a, w), tofp(b, w), tofp(c, w)), w), w)
        else:
            raise Unsupported("instruction %s %s" % (mn, ops))
        s.pc = nxt
        return None
