"""python3-vt tvrun.py TARGET SRC.n OBJ.o OUT.json [--only fn] [--jobs N]
Decides, for every function c_* of SRC.n, that the emitted code computes what the source means, for all arguments."""
import json, multiprocessing as mp, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from tv import *
import nat, tv_x86
try:
    import tv_a64
except ImportError:
    tv_a64 = None
try:
    import tv_rv
except ImportError:
    tv_rv = None
import tv_models


def machine(target, obj):
    a = target.split("_")[1]
    cls = {"amd64": tv_x86.X86, "arm64": tv_a64 and tv_a64.A64, "riscv64": tv_rv and tv_rv.RV}[a]
    return cls(obj, tv_models.MODELS)


MATTR = {"riscv64": "--mattr=+m,+a,+f,+d,+c", "arm64": "", "amd64": ""}


def load(target, srcfile, objfile):
    prog = nat.Parser(open(srcfile).read()).program()
    obj = Obj(objfile, mattr=MATTR[target.split("_")[1]])
    return prog, obj


def setup(m, prog, ev, fn, vals):
    """entry state with the arguments in place; vals: list of (type, value)"""
    ints, floats, order = [], [], []
    for t, v in vals:
        if t in nat.FLT:
            floats.append((v, nat.FLT[t]))
        else:
            ints.append((t, v))
    s = m.start("main." + fn, [m.widen(t, v) for t, v in ints], floats)
    for n, b in ev.glob.items():
        a = m.o.sym.get("main." + n)
        if a is None or isinstance(b.t, tuple):
            continue
        s.mem.store(a, b.v, nat.width(b.t) // 8)
    return s


def check_fn(args):
    ABSTRACT[0] = True
    r = check_fn1(args)
    if r["status"] != "ok":
        ABSTRACT[0] = False
        r = check_fn1(args)
    return r


def check_fn1(args):
    target, fn = args
    t0 = time.time()
    prog, obj = LOADED
    r = dict(fn=fn, status="ok", paths=0, queries=0, solver_s=0.0)
    try:
        m = machine(target, obj)
        ev = nat.Eval(prog)
        ps, rt, body, thr = prog.fns[fn]
        fr = nat.Frame()
        vals = []
        for t, n in ps:
            v = z3.BitVec("arg_" + n, nat.width(t))
            if t == "bool":
                ev.pre.append(z3.ULE(v, 1))
            vals.append((t, v))
            fr.vars[0][n] = nat.Box(t, v)
        for n, b in ev.glob.items():
            if not isinstance(b.t, tuple):
                b.v = z3.BitVec("glob_" + n, nat.width(b.t))
                if b.t == "bool":
                    ev.pre.append(z3.ULE(b.v, 1))
        gl0 = {n: b.v for n, b in ev.glob.items()}
        s = setup(m, prog, ev, fn, vals)
        want = ev.run(fn, fr, True)
        pre = ev.pre + ev.assume
        panic = False
        for c in ev.panic:
            panic = bor(panic, c)
        sol = z3.Solver()
        sol.add(*pre)
        q0 = time.time()
        if sol.check() != z3.sat:
            r.update(status="vacuous", detail="no input satisfies the assumptions")
            return r
        for c in pre:
            s.pcs.append(c)
        finals = m.run(s)
        r["paths"] = len(finals)
        if not finals:
            r.update(status="vacuous", detail="no path returns")
        for f in finals:
            bad = []
            if f.x.get("panic"):
                bad.append(("the program stops with a runtime error where the language defines a result", bnot(panic)))
            else:
                e = m.check_exit(f)
                if e:
                    bad.append((e, True))
                for e in f.events:
                    bad.append((e, True))
                bad.append(("no runtime error where the language requires one", panic))
                ok = bnot(panic)
                if rt != "void":
                    bad.append(("wrong result", band(ok, differ(m, f, rt, want))))
                for n, b in ev.glob.items():
                    a = obj.sym.get("main." + n)
                    if a is None or isinstance(b.t, tuple):
                        continue
                    w = nat.width(b.t)
                    bad.append(("wrong value of global " + n, band(ok, bnot(eq(f.mem.load(a, w // 8), b.v, w)))))
            for what, c in bad:
                c = sb(c) if not isinstance(c, bool) else c
                if c is False:
                    r["queries"] += 1
                    continue
                sol = z3.Solver()
                sol.set("timeout", QT)
                sol.add(*f.pcs)
                if c is not True:
                    sol.add(c)
                r["queries"] += 1
                k = sol.check()
                if k == z3.unknown:
                    r.update(status="unknown", detail=what + ": " + sol.reason_unknown())
                    return r
                if k == z3.sat:
                    mod = sol.model()
                    r.update(status="fail", detail=what, inputs=[(t, n, mod.eval(v, model_completion=True).as_long()) for (t, n), (_, v) in zip(ps, vals)],
                             globals={n: mod.eval(v, model_completion=True).as_long() for n, v in gl0.items() if not isc(v) and not isinstance(v, list)})
                    if rt != "void" and not isinstance(rt, tuple):
                        r["want"] = model_int(mod, want)
                        r["got"] = model_int(mod, m.fret(f, nat.width(rt)) if rt in nat.FLT else m.iret(f, nat.width(rt)))
                    r["panic"] = f.x.get("panic")
                    return r
        r["queries"] += m.queries + ev.queries
        r["solver_s"] = round(time.time() - q0, 3)
    except Crash as e:
        r.update(status="crash", detail=str(e), inputs=None)
        sol = z3.Solver()
        sol.set("timeout", 60000)
        sol.add(*getattr(e, "pcs", []))
        if hasattr(e, "pcs") and sol.check() == z3.sat:
            mod = sol.model()
            r.update(inputs=[(t, n, mod.eval(v, model_completion=True).as_long()) for (t, n), (_, v) in zip(ps, vals)],
                     globals={n: mod.eval(v, model_completion=True).as_long() for n, v in gl0.items() if not isc(v) and not isinstance(v, list)})
    except Unsupported as e:
        r.update(status="unsupported", detail=str(e))
    except Exception:
        r.update(status="error", detail=traceback.format_exc()[-1200:])
    finally:
        r["wall"] = round(time.time() - t0, 3)
    return r


def model_int(mod, v):
    return v if isc(v) else mod.eval(v, model_completion=True).as_long()


def differ(m, f, rt, want):
    if rt in nat.FLT:
        w = nat.FLT[rt]
        got = m.fret(f, w)
        same = bor(eq(got, want, w), band(sb(z3.fpIsNaN(tofp(got, w))), sb(z3.fpIsNaN(tofp(want, w)))))
        return bnot(same)
    w = nat.width(rt)
    return bnot(eq(m.iret(f, w), want, w))


def concrete(target, prog, obj, fn, inputs, globs):
    """run the emitted code on constants: (returned, result, panicked, reference result, reference panic)"""
    m = machine(target, obj)
    m.concrete = True
    ev = nat.Eval(prog)
    ps, rt, body, thr = prog.fns[fn]
    fr = nat.Frame()
    vals = []
    for (t, n), v in zip(ps, inputs):
        vals.append((t, v))
        fr.vars[0][n] = nat.Box(t, v)
    for n, b in ev.glob.items():
        if n in globs:
            b.v = globs[n]
    s = setup(m, prog, ev, fn, vals)
    want = ev.run(fn, fr, True)
    wp = any(c is True for c in ev.panic)
    if any(z3.is_false(c) for c in ev.assume):
        return None
    try:
        f = m.run(s)[0]
    except Crash as e:
        return dict(crash=str(e), want=want if rt != "void" else 0, want_panic=wp, globals={n: (None, b.v) for n, b in ev.glob.items() if not isinstance(b.t, tuple) and "main." + n in obj.sym},
                    w=nat.width(rt) if rt != "void" else 8, nan=False)
    w = nat.width(rt) if rt != "void" else 8
    got = (m.fret(f, w) if rt in nat.FLT else m.iret(f, w)) if rt != "void" else 0
    g = {n: (f.mem.load(obj.sym["main." + n], nat.width(b.t) // 8), b.v) for n, b in ev.glob.items() if not isinstance(b.t, tuple) and "main." + n in obj.sym}
    exitbad = None if f.x.get("panic") else (m.check_exit(f) or (f.events and f.events[0]))
    if rt == "void":
        got = want = 0
    return dict(got=got, panic=bool(f.x.get("panic")), want=want, want_panic=wp, globals=g, exit=exitbad, w=w, nan=rt in nat.FLT and z3.is_true(z3.simplify(z3.fpIsNaN(tofp(want, w)))))


LOADED = None
QT = 120000


def main(a):
    global LOADED, QT
    if "--qt" in a:
        QT = int(a[a.index("--qt") + 1]) * 1000
    target, src, objf, out = a[:4]
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    jobs = int(a[a.index("--jobs") + 1]) if "--jobs" in a else 8
    LOADED = load(target, src, objf)
    prog, obj = LOADED
    if "--concrete" in a:
        cx = json.loads(a[a.index("--concrete") + 1])
        try:
            r = concrete(target, prog, obj, cx["fn"], cx["inputs"], cx.get("globals", {}))
        except Crash as e:
            r = dict(crash=str(e))
        json.dump(r, open(out, "w"))
        print(json.dumps(r))
        return 0
    fns = [f for f in prog.fns if f.startswith("c_") and (only is None or f in only)]
    if jobs == 1:
        rs = [check_fn((target, f)) for f in fns]
    else:
        with mp.get_context("fork").Pool(jobs, maxtasksperchild=60) as p:
            rs = p.map(check_fn, [(target, f) for f in fns], chunksize=4)
    json.dump(rs, open(out, "w"))
    ev = nat.Eval(prog)
    json.dump(dict(fns={f: ([t for t, _ in prog.fns[f][0]], prog.fns[f][1]) for f in prog.fns if f.startswith("c_")},
                   globals={n: b.t for n, b in ev.glob.items() if isinstance(b.t, str) and "main." + n in obj.sym}), open(out + ".sig", "w"))
    for r in rs:
        if r["status"] != "ok":
            print(r["fn"], r["status"], r.get("detail"), r.get("inputs"), "want", r.get("want"), "got", r.get("got"))
    print("%d functions, %d ok, %d queries" % (len(rs), sum(r["status"] == "ok" for r in rs), sum(r["queries"] for r in rs)))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
