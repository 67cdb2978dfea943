"""Symbolic execution of the machine code that /repo's compiler emits, over z3 bit-vectors.

A value is either a Python int (constant) or a z3 bit-vector; its width is passed explicitly. With only ints the same
code is a concrete interpreter, which is how a counterexample is replayed for targets that cannot run here."""
import os, re, struct, subprocess, z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    pass


class Crash(Exception):
    """the code does something no Nature program may do (wild access, trap, jump out of the function)"""


# ---------------------------------------------------------------- values
def isc(x):
    return isinstance(x, int)


def bv(x, w):
    return z3.BitVecVal(x, w) if isc(x) else x


def mask(x, w):
    return x & ((1 << w) - 1)


def sgn(x, w):
    x = mask(x, w)
    return x - (1 << w) if x >> (w - 1) else x


def norm(e, w):
    """constant-fold"""
    if isc(e):
        return mask(e, w)
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def add(a, b, w=64):
    if isc(a) and isc(b):
        return mask(a + b, w)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return bv(a, w) + bv(b, w)


def sub(a, b, w=64):
    if isc(a) and isc(b):
        return mask(a - b, w)
    if isc(b) and b == 0:
        return a
    return bv(a, w) - bv(b, w)


def mul(a, b, w=64):
    if isc(a) and isc(b):
        return mask(a * b, w)
    return bv(a, w) * bv(b, w)


def and_(a, b, w=64):
    if isc(a) and isc(b):
        return a & b
    return bv(a, w) & bv(b, w)


def or_(a, b, w=64):
    if isc(a) and isc(b):
        return a | b
    return bv(a, w) | bv(b, w)


def xor(a, b, w=64):
    if isc(a) and isc(b):
        return a ^ b
    if not isc(a) and not isc(b) and a.eq(b):
        return 0
    return bv(a, w) ^ bv(b, w)


def not_(a, w=64):
    return mask(~a, w) if isc(a) else ~a


def neg(a, w=64):
    return mask(-a, w) if isc(a) else -a


def shl(a, n, w=64):
    """n already reduced by the caller; n >= w gives 0"""
    if isc(a) and isc(n):
        return mask(a << n, w) if n < w else 0
    return bv(a, w) << bv(n, w)


def lshr(a, n, w=64):
    if isc(a) and isc(n):
        return mask(a, w) >> n if n < w else 0
    return z3.LShR(bv(a, w), bv(n, w))


def ashr(a, n, w=64):
    if isc(a) and isc(n):
        return mask(sgn(a, w) >> min(n, w - 1), w)
    return bv(a, w) >> bv(n, w)


def ext(a, hi, lo):
    """bits hi..lo"""
    if isc(a):
        return (a >> lo) & ((1 << (hi - lo + 1)) - 1)
    if lo == 0 and hi == a.size() - 1:
        return a
    e = z3.simplify(z3.Extract(hi, lo, a))
    return e.as_long() if z3.is_bv_value(e) else e


def low(a, w):
    return ext(a, w - 1, 0)


def zext(a, frm, to):
    if isc(a):
        return mask(a, frm)
    return z3.ZeroExt(to - frm, a) if to > frm else a


def sext(a, frm, to):
    if isc(a):
        return mask(sgn(a, frm), to)
    return z3.SignExt(to - frm, a) if to > frm else a


def cat(hi, hw, lo, lw):
    if isc(hi) and isc(lo):
        return (hi << lw) | lo
    return z3.Concat(bv(hi, hw), bv(lo, lw))


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


# conditions are Python bools or z3 Bools
def eq(a, b, w):
    if isc(a) and isc(b):
        return mask(a, w) == mask(b, w)
    return sb(bv(a, w) == bv(b, w))


def ult(a, b, w):
    if isc(a) and isc(b):
        return mask(a, w) < mask(b, w)
    return sb(z3.ULT(bv(a, w), bv(b, w)))


def slt(a, b, w):
    if isc(a) and isc(b):
        return sgn(a, w) < sgn(b, w)
    return sb(bv(a, w) < bv(b, w))


def sb(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c


def bnot(c):
    return (not c) if isinstance(c, bool) else sb(z3.Not(c))


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def bor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def bit(c, w=1):
    if isinstance(c, bool):
        return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def sdiv(a, b, w):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return None
        q = abs(x) // abs(y)
        return mask(-q if (x < 0) != (y < 0) else q, w)
    return bv(a, w) / bv(b, w)


def srem(a, b, w):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return None
        r = abs(x) % abs(y)
        return mask(-r if x < 0 else r, w)
    return z3.SRem(bv(a, w), bv(b, w))


def udiv(a, b, w):
    if isc(a) and isc(b):
        return None if b == 0 else a // b
    return z3.UDiv(bv(a, w), bv(b, w))


def urem(a, b, w):
    if isc(a) and isc(b):
        return None if b == 0 else a % b
    return z3.URem(bv(a, w), bv(b, w))


# ---------------------------------------------------------------- floating point (bit patterns in and out)
F = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
RTZ = z3.RTZ()


def tofp(x, w):
    return z3.fpBVToFP(bv(x, w), F[w])


def fromfp(f, w):
    # every NaN gets one bit pattern: which NaN an operation returns is not part of the semantics
    e = z3.If(z3.fpIsNaN(f), z3.BitVecVal(0x7fc00000 if w == 32 else 0x7ff8000000000000, w), z3.fpToIEEEBV(f))
    return norm(e, w)


ABSTRACT = [False]  # arithmetic as uninterpreted functions: enough to prove equality of equal computations


def fop(op, a, b, w):
    if ABSTRACT[0] and not (isc(a) and isc(b)):
        f = z3.Function("f%s%d" % (op, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f(bv(a, w), bv(b, w))
    x, y = tofp(a, w), tofp(b, w)
    r = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}[op](RNE, x, y)
    return fromfp(r, w)


def flt(a, b, w):
    return sb(z3.fpLT(tofp(a, w), tofp(b, w)))


def feq(a, b, w):
    return sb(z3.fpEQ(tofp(a, w), tofp(b, w)))


def funord(a, b, w):
    return sb(z3.Or(z3.fpIsNaN(tofp(a, w)), z3.fpIsNaN(tofp(b, w))))


def fcvt(a, frm, to):
    if frm == to:
        return a
    return fromfp(z3.fpFPToFP(RNE, tofp(a, frm), F[to]), to)


def s2f(a, wi, wf):
    return fromfp(z3.fpSignedToFP(RNE, bv(a, wi), F[wf]), wf)


def u2f(a, wi, wf):
    return fromfp(z3.fpUnsignedToFP(RNE, bv(a, wi), F[wf]), wf)


def f2s(a, wf, wi):
    return norm(z3.fpToSBV(RTZ, tofp(a, wf), z3.BitVecSort(wi)), wi)


def f2u(a, wf, wi):
    return norm(z3.fpToUBV(RTZ, tofp(a, wf), z3.BitVecSort(wi)), wi)


def fin_range(a, wf, wi, signed):
    """a is not NaN and truncates to a value that fits"""
    x = tofp(a, wf)
    lo = -(2.0 ** (wi - 1)) if signed else 0.0
    hi = 2.0 ** (wi - 1) if signed else 2.0 ** wi
    t = z3.fpRoundToIntegral(RTZ, x)
    return sb(z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpGEQ(t, z3.FPVal(lo, F[wf])), z3.fpLT(t, z3.FPVal(hi, F[wf]))))


# ---------------------------------------------------------------- object files
class Obj:
    """an ELF relocatable object, its sections placed at fixed addresses, and the disassembly of its code"""

    def __init__(self, path, base=0x10000000, mattr=""):
        d = open(path, "rb").read()
        self.machine = struct.unpack_from("<H", d, 18)[0]
        shoff, = struct.unpack_from("<Q", d, 40)
        shentsize, shnum, shstr = struct.unpack_from("<HHH", d, 58)
        secs = [struct.unpack_from("<IIQQQQIIQQ", d, shoff + i * shentsize) for i in range(shnum)]
        nm = lambda tab, off: tab[off:tab.index(b"\0", off)].decode()
        strs = d[secs[shstr][4]:secs[shstr][4] + secs[shstr][5]]
        self.secs, addr = [], base
        for s in secs:
            body = d[s[4]:s[4] + s[5]] if s[1] != 8 else bytes(s[5])
            self.secs.append(dict(name=nm(strs, s[0]), type=s[1], flags=s[2], size=s[5], body=body, addr=addr, link=s[6], info=s[7]))
            if s[2] & 2:
                addr += (s[5] + 0xffff) & ~0xffff | 0x10000
        self.sym, self.syms, self.func_of = {}, [], {}
        self.ext_next = 0x40000000
        for s in self.secs:
            if s["type"] == 2:
                st = self.secs[s["link"]]["body"]
                for o in range(0, s["size"], 24):
                    n, info, oth, shx, val, sz = struct.unpack_from("<IBBHQQ", s["body"], o)
                    name = nm(st, n)
                    if 0 < shx < 0xff00:
                        a = self.secs[shx]["addr"] + val
                        if info & 15 == 3:
                            name = self.secs[shx]["name"]
                        self.syms.append((name, a))
                        self.sym.setdefault(name, a)
                    else:
                        self.syms.append((name, None))
        self.ext = {}
        self.rel = {}  # address of the relocated field -> (type, symbol address, addend, name)
        for s in self.secs:
            if s["type"] == 4:
                tgt = self.secs[s["info"]]
                for o in range(0, s["size"], 24):
                    off, info, ad = struct.unpack_from("<QQq", s["body"], o)
                    name, a = self.syms[info >> 32]
                    if a is None:
                        a = self.extern(name)
                    self.rel.setdefault(tgt["addr"] + off, []).append((info & 0xffffffff, a, ad, name))
        self.ins = {}
        self.text = []
        for s in self.secs:
            if s["flags"] & 4:
                self.disasm(path, s, mattr)

    def extern(self, name):
        if name not in self.ext:
            self.ext[name] = self.ext_next
            self.ext_next += 0x1000
        return self.ext[name]

    def extern_name(self, addr):
        for n, a in self.ext.items():
            if a == addr:
                return n

    def disasm(self, path, s, mattr):
        out = subprocess.run(["llvm-objdump", "-d", "--no-show-raw-insn", "--no-leading-headers", "-j", s["name"]] + ([mattr] if mattr else []) + [path],
                             stdout=subprocess.PIPE, text=True, check=True).stdout
        prev = None
        for l in out.splitlines():
            m = re.match(r"\s*([0-9a-f]+):\s+(\S.*)$", l)
            if not m:
                continue
            a = s["addr"] + int(m.group(1), 16)
            t = re.split(r"\s*(?:\t|\s)#\s|\s*//", m.group(2))[0].strip()
            t = re.sub(r"\s*<[^>]*>", "", t)
            parts = t.split(None, 1)
            self.ins[a] = [parts[0], parts[1] if len(parts) > 1 else "", None, s["addr"]]
            if prev is not None:
                self.ins[prev][2] = a
            prev = a
        if prev is not None:
            self.ins[prev][2] = s["addr"] + s["size"]

    def data(self):
        """initial bytes of the data sections (read-only view; relocated words resolved)"""
        mem = {}
        for s in self.secs:
            if s["flags"] & 2 and not s["flags"] & 4:
                for i, b in enumerate(s["body"]):
                    mem[s["addr"] + i] = b
        for a, rs in self.rel.items():
            for (t, sa, ad, name) in rs:
                if any(s["addr"] <= a < s["addr"] + s["size"] and s["flags"] & 2 and not s["flags"] & 4 for s in self.secs):
                    for i in range(8):
                        mem[a + i] = ((sa + ad) >> (8 * i)) & 255
        return mem


# ---------------------------------------------------------------- memory
class Mem:
    """byte-addressed at constant addresses; each byte is (expr, width, index) so that whole values come back whole"""

    def __init__(self, init, regions, fresh):
        self.b = {}
        self.init = init
        self.regions = regions  # [(lo, hi, writable)]
        self.fresh = fresh

    def copy(self):
        m = Mem(self.init, list(self.regions), self.fresh)
        m.b = dict(self.b)
        return m

    def ok(self, a, n, write):
        for lo, hi, w in self.regions:
            if lo <= a and a + n <= hi and (w or not write):
                return True
        return False

    def load(self, a, n):
        if not self.ok(a, n, False):
            raise Crash("read of %d bytes at %#x outside every object" % (n, a))
        x = self.b.get(a)
        if x is not None and x[2] == 0 and x[1] == 8 * n and all(
                (y := self.b.get(a + i)) is not None and y[2] == i and y[1] == x[1] and (y[0] is x[0]) for i in range(1, n)):
            return x[0]
        parts = [self.byte(a + i) for i in range(n)]
        if all(isc(p) for p in parts):
            return sum(p << (8 * i) for i, p in enumerate(parts))
        if n == 1:
            return parts[0]
        e = z3.simplify(z3.Concat(*[bv(p, 8) for p in reversed(parts)]))
        return e.as_long() if z3.is_bv_value(e) else e

    def byte(self, a):
        x = self.b.get(a)
        if x is None:
            if a in self.init:
                return self.init[a]
            v = self.fresh("mem_%x" % a, 8)
            self.b[a] = (v, 8, 0)
            return v
        v, w, i = x
        return ext(v, 8 * i + 7, 8 * i)

    def store(self, a, v, n):
        if not self.ok(a, n, True):
            raise Crash("write of %d bytes at %#x outside every object" % (n, a))
        for i in range(n):
            self.b[a + i] = (v, 8 * n, i)

    def drop_below(self, lo, hi):
        for a in [a for a in self.b if lo <= a < hi]:
            del self.b[a]


STACK_LO, STACK_HI = 0x7ff000000000, 0x7ff000200000
SP0 = 0x7ff000100000
RET = 0x666000
HEAP = 0x500000000000


class State:
    def __init__(self):
        self.r, self.f, self.pc, self.flags, self.pcs, self.steps, self.heap = {}, {}, 0, None, [], 0, HEAP
        self.x = {}  # state of the runtime models

    def fork(self):
        s = State()
        s.r, s.f, s.pc, s.flags, s.pcs, s.steps, s.heap = dict(self.r), dict(self.f), self.pc, self.flags, list(self.pcs), self.steps, self.heap
        s.x = dict(self.x)
        s.mem = self.mem.copy()
        s.events = list(self.events)
        return s


class Machine:
    """common driver; subclasses provide step(), entry registers, argument and return conventions"""
    max_steps = 4000
    max_paths = 400

    def __init__(self, obj, models=None):
        self.o = obj
        self.init = obj.data()
        self.models = models or {}
        self.nfresh = 0
        self.concrete = False
        self.solver = None
        self.queries = 0

    def fresh(self, name, w):
        if self.concrete:
            return 0xAAAAAAAAAAAAAAAA & ((1 << w) - 1)
        self.nfresh += 1
        return z3.BitVec("%s!%d" % (name, self.nfresh), w)

    def new_state(self):
        s = State()
        regions = [(STACK_LO, STACK_HI, True)]
        for x in self.o.secs:
            if x["flags"] & 2 and x["size"]:
                regions.append((x["addr"], x["addr"] + x["size"], bool(x["flags"] & 1)))
        for a in self.o.ext.values():
            regions.append((a, a + 0x1000, True))
        s.mem = Mem(self.init, regions, self.fresh)
        s.events = []
        return s

    def malloc(self, s, size, zero=True):
        a = s.heap
        s.heap += (size + 63) & ~15
        s.mem.regions.append((a, a + size, True))
        if zero:
            for i in range(size):
                s.mem.b[a + i] = (0, 8, 0)
        return a

    def sat(self, s, extra=None):
        """is the path (with extra) feasible"""
        self.queries += 1
        if self.concrete:
            return True
        sol = z3.Solver()
        sol.set("timeout", 20000)
        for c in s.pcs:
            sol.add(c)
        if extra is not None:
            sol.add(extra)
        return sol.check() != z3.unsat

    def concretize(self, s, e, w=64, limit=64, what="address"):
        """the possible constants of e on this path, as forked states"""
        e = norm(e, w)
        if isc(e):
            return [(s, e)]
        sol = z3.Solver()
        sol.set("timeout", 20000)
        for c in s.pcs:
            sol.add(c)
        out = []
        while True:
            self.queries += 1
            r = sol.check()
            if r == z3.unsat:
                return out
            if r != z3.sat or len(out) >= limit:
                raise Crash("%s with more than %d values" % (what, limit))
            v = sol.model().eval(e, model_completion=True).as_long()
            n = s.fork()
            n.pcs.append(e == v)
            out.append((n, v))
            sol.add(e != v)

    def branch(self, s, cond, taken, fall):
        """fork on a condition"""
        if cond is True:
            s.pc = taken
            return [s]
        if cond is False:
            s.pc = fall
            return [s]
        out = []
        t = s.fork()
        t.pcs.append(cond)
        if self.sat(t):
            t.pc = taken
            out.append(t)
        s.pcs.append(z3.Not(cond))
        if self.sat(s):
            s.pc = fall
            out.append(s)
        return out

    def run(self, s):
        """all paths to the return address: list of final states"""
        todo, done = [s], []
        while todo:
            s = todo.pop()
            while True:
                if s.pc == RET:
                    done.append(s)
                    break
                if len(done) + len(todo) > self.max_paths:
                    raise Unsupported("too many paths")
                s.steps += 1
                if s.steps > self.max_steps:
                    e = Crash("more than %d instructions on one path" % self.max_steps)
                    e.pcs = list(s.pcs)
                    raise e
                try:
                    ins = self.o.ins.get(s.pc) if isc(s.pc) else None
                    if ins is None:
                        name = self.o.extern_name(s.pc) if isc(s.pc) else None
                        if name is None:
                            raise Crash("jump to %s" % (hex(s.pc) if isc(s.pc) else "a computed address"))
                        outs = self.call_model(s, name)
                    else:
                        outs = self.step(s, ins)
                except Crash as e:
                    e.pcs = list(s.pcs)
                    e.queries = self.queries
                    raise
                if outs is None:
                    continue
                if not outs:
                    break
                s = outs[0]
                todo.extend(outs[1:])
        return done

    def call_model(self, s, name):
        m = self.models.get(name)
        if m is None:
            raise Unsupported("call of " + name)
        ret = self.ret_addr(s)
        r = m(self, s)
        if r == "stop":
            return []
        if r == "halt":
            return [s]
        self.do_return(s, ret)
        return [s]
