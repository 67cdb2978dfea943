"""Obligations decided on the machine code the compiler emits: the compiler is built from /repo's current source, the
corpus is compiled with it, and every function is compared with the source semantics by z3 (tvrun.py). A
counterexample is replayed: natively for amd64 (the emitted object linked with a C driver), and by executing the
emitted bytes on the concrete input for targets this machine cannot run."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from cbmc import REPO, VERIF, sh
import corpus
from natmain import with_main

LOCK = threading.Lock()
NPROC = os.cpu_count() or 4
CW = {"i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "int": "int64_t", "u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "uint": "uint64_t",
      "bool": "uint8_t", "f32": "float", "f64": "double", "float": "double"}
UW = {1: "uint8_t", 2: "uint16_t", 4: "uint32_t", 8: "uint64_t"}


def compiler(work):
    """build /repo's compiler out of tree, once per check"""
    d = os.path.join(work, "natc")
    exe = os.path.join(d, "nature")
    with LOCK:
        if os.path.exists(exe):
            return exe, ""
        os.makedirs(d, exist_ok=True)
        rc, o, e = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_C_COMPILER=gcc", "-DNATURE_BUILD_NPKG=OFF", "-DNATURE_BUILD_NLS=OFF"], 300)
        if rc:
            return None, "cmake: " + (o + e)[-800:]
        rc, o, e = sh(["ninja", "-C", d, "nature"], 800)
        if rc:
            return None, "building the compiler: " + (o + e)[-1500:]
    return exe, ""


def compile_n(exe, text, target, d):
    """-> (object path or None, compiler exit code, output)"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/tmp")
    src = os.path.join(d, "main.n")
    open(src, "w").write(text)
    env = dict(os.environ, NATURE_ROOT=REPO, TMPDIR=d + "/tmp")
    rc, o, e = sh([exe, "build", "--verbose", "--target", target, "-o", os.path.join(d, "out"), "main.n"], 300, cwd=d, env=env)
    objs = [os.path.join(r, f) for r, _, fs in os.walk(d + "/tmp") for f in fs if f == "main.n.o"]
    ok = objs and os.path.getsize(objs[0]) > 0
    return (objs[0] if ok else None), rc, re.sub(r"^\d+ (DEBUG|INFO ).*\n", "", (o + e), flags=re.M)[-600:]


def split_decls(text):
    """(declarations other than c_ functions, {name: text of c_ function})"""
    parts = re.split(r"^(?=fn |type |const |#where|[a-z0-9_]+ [a-z_0-9]+ = |\[)", text, flags=re.M)
    other, fns = [], {}
    for p in parts:
        m = re.match(r"fn (c_\w+)\(", p)
        if m:
            fns[m.group(1)] = p
        else:
            other.append(p)
    return "".join(other), fns


class TV:
    def __init__(self, name, corpus, target="linux_amd64", bounds="", tier="both", timeout=800, jobs=None, assumes=(), thorough=None):
        self.__dict__.update(locals())
        self.more = thorough or corpus
        self.thorough = None

    def text(self, tier="quick"):
        return corpus.get(self.more if tier == "thorough" else self.corpus)

    def run(self, tier, work, rdir, pid):
        t0 = time.time()
        r = dict(name=self.name, corpus=self.more if tier == "thorough" else self.corpus, target=self.target, bounds=self.bounds)

        def done(**k):
            r.update(k, wall=round(time.time() - t0, 1))
            return r
        exe, msg = compiler(work)
        if not exe:
            return done(status="error", detail=msg)
        text = self.text(tier)
        src = with_main(text)
        d = os.path.join(work, self.name)
        obj, rc, out = compile_n(exe, src, self.target, d)
        fails = []
        if obj is None:
            # which functions does the compiler not survive? the rest are still decided
            other, fns = split_decls(text)
            bad = self.compile_alone(exe, other, fns, d + ".alone")
            if not bad:
                return done(status="error", detail="the compiler fails on the corpus but on no single function: rc=%d %s" % (rc, out))
            for f, o in sorted(bad.items())[:400]:
                fails.append(dict(fn=f, assertion="the compiler does not translate a valid program", where=f, detail=o, kind="compile"))
            text = other + "".join(t for n, t in fns.items() if n not in bad and n not in self.callers(fns, bad))
            src = with_main(text)
            obj, rc, out = compile_n(exe, src, self.target, d)
            if obj is None:
                return done(status="error", detail="the compiler fails even without the functions it cannot compile: " + out)
        js = os.path.join(d, "out.json")
        rc, o, e = sh(["python3-vt", os.path.join(VERIF, "lib", "tvrun.py"), self.target, os.path.join(d, "main.n"), obj, js, "--jobs", str(self.jobs or NPROC)], self.timeout)
        if rc == -999:
            return done(status="timeout", detail="budget of %d s spent" % self.timeout)
        if rc:
            return done(status="error", detail=(o + e)[-1500:])
        rs = json.load(open(js))
        st = {}
        for x in rs:
            st.setdefault(x["status"], []).append(x)
        r.update(programs=len(rs), asserts=sum(x["queries"] for x in rs), solver_s=round(sum(x.get("solver_s", 0) for x in rs), 1), reach=sum(x["paths"] for x in rs),
                 functions=["main." + x["fn"] for x in rs], paths=sum(x["paths"] for x in rs),
                 samples=[dict(fn=x["fn"], target=self.target, paths=x["paths"], queries=x["queries"], verdict="equal for all inputs") for x in st.get("ok", [])[:3]])
        unconf = []
        for x in st.get("fail", []) + st.get("crash", []):
            if x.get("inputs") is None:
                unconf.append("%s: %s: %s" % (x["fn"], x["status"], x.get("detail")))
                continue
            f = dict(fn=x["fn"], assertion=x["detail"], where=x["fn"], kind="value", inputs=[v for _, _, v in x["inputs"]], globals=x.get("globals") or {})
            if len(fails) < 400:
                ok, why = self.replay(exe, d, obj, f)
                f["detail"] = why
                if ok:
                    fails.append(f)
                else:
                    unconf.append("%s: %s (%s): %s" % (x["fn"], x["status"], x.get("detail"), why))
        for f in fails:
            f["replay"] = self.save(rdir, pid, f)
        r["fails"] = fails
        rest = [x for k in ("unsupported", "unknown", "vacuous", "error") for x in st.get(k, [])]
        if unconf:
            return done(status="unconfirmed", detail="; ".join(unconf)[:2000])
        if rest:
            return done(status="error", detail="; ".join("%s: %s: %s" % (x["fn"], x["status"], x.get("detail")) for x in rest)[:3000])
        return done(status="fail" if fails else "ok")

    def callers(self, fns, bad):
        return {n for n, t in fns.items() for b in bad if re.search(r"\b%s\(" % b, t)}

    def compile_alone(self, exe, other, fns, d):
        import concurrent.futures as cf
        names, bad = list(fns), {}

        def prog(ns):
            need, todo = set(), list(ns)
            while todo:
                n = todo.pop()
                if n not in need:
                    need.add(n)
                    todo += [m for m in re.findall(r"\b(c_\w+)\(", other + fns[n]) if m in fns and m not in need]
            return other + "".join(t for n, t in fns.items() if n in need)

        def rec(ns, tag):
            obj, rc, out = compile_n(exe, with_main(prog(ns)), self.target, d + tag)
            shutil.rmtree(d + tag, ignore_errors=True)
            if obj is not None:
                return {}
            if len(ns) == 1:
                return {ns[0]: "rc=%d %s" % (rc, out.strip().replace("\n", " ")[-300:])}
            k = len(ns) // 2
            a = rec(ns[:k], tag + "0")
            a.update(rec(ns[k:], tag + "1"))
            return a
        chunks = [names[i::NPROC] for i in range(NPROC) if names[i::NPROC]]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for b in ex.map(lambda t: rec(t[1], "." + str(t[0]) + "_"), enumerate(chunks)):
                bad.update(b)
        return bad

    # ------------------------------------------------ replay
    def reference(self, d, obj, f):
        cx = json.dumps(dict(fn=f["fn"], inputs=f["inputs"], globals=f.get("globals", {})))
        rc, o, e = sh(["python3-vt", os.path.join(VERIF, "lib", "tvrun.py"), self.target, os.path.join(d, "main.n"), obj, os.path.join(d, "cx.json"), "--concrete", cx], 120)
        if rc:
            return dict(error=(o + e)[-600:])
        return json.load(open(os.path.join(d, "cx.json")))

    def replay(self, exe, d, obj, f):
        ref = self.reference(d, obj, f)
        if ref is None:
            return False, "outside the assumptions"
        if "error" in ref:
            return False, ref["error"]
        if self.target != "linux_amd64":
            if ref.get("crash"):
                return True, "inputs %s: the emitted code goes wrong: %s" % (f["inputs"], ref["crash"])
            return self.verdict(f, ref, ref.get("got"), ref.get("panic"), {n: v[0] for n, v in ref["globals"].items()}, ref.get("exit"), "executing the emitted code")
        if "want" not in ref:
            return False, "no reference result: %s" % ref
        sigs = json.load(open(os.path.join(d, "out.json.sig")))
        ps, rt = sigs["fns"][f["fn"]]
        g = {n: t for n, t in sigs["globals"].items()}
        c = ["#include <stdint.h>", "#include <stdio.h>", "#include <string.h>", "#include <stdlib.h>", "long global_safepoint;", "void assist_preempt_yield(void) {}"]
        c += ["void throw_index_out_error(void) { printf(\"panic\\n\"); fflush(stdout); _Exit(0); }"]
        c += ["static uint8_t heap[1 << 16] __attribute__((aligned(64))); static long hp; void *gc_malloc(uint64_t h) { hp += 1024; return heap + hp - 1024; }"]
        c += ["extern %s G_%s __asm__(\"main.%s\");" % (CW[t], n, n) for n, t in g.items()]
        c += ["extern %s F(%s) __asm__(\"main.%s\");" % ("void" if rt == "void" else CW[rt], ", ".join(CW[t] for t in ps) or "void", f["fn"])]
        c += ["int main(void) {"]
        args = []
        for i, (t, v) in enumerate(zip(ps, f["inputs"])):
            w = 4 if t in ("f32",) else 8 if t in ("f64", "float") else 0
            if w:
                c.append("  %s b%d = 0x%xULL; %s a%d; memcpy(&a%d, &b%d, %d);" % (UW[w], i, v, CW[t], i, i, i, w))
            else:
                c.append("  %s a%d = (%s)0x%xULL;" % (CW[t], i, CW[t], v))
            args.append("a%d" % i)
        for n, t in g.items():
            if n in f.get("globals", {}):
                c.append("  { uint64_t v = 0x%xULL; memcpy(&G_%s, &v, sizeof G_%s); }" % (f["globals"][n], n, n))
        if rt == "void":
            c.append("  F(%s); printf(\"ret 0\\n\");" % ", ".join(args))
        else:
            c.append("  %s r = F(%s); uint64_t o = 0; memcpy(&o, &r, sizeof r); printf(\"ret %%llx\\n\", (unsigned long long)o);" % (CW[rt], ", ".join(args)))
        for n, t in g.items():
            c.append("  { uint64_t v = 0; memcpy(&v, &G_%s, sizeof G_%s); printf(\"glob %s %%llx\\n\", (unsigned long long)v); }" % (n, n, n))
        c.append("  return 0; }")
        cf = os.path.join(d, "driver.c")
        open(cf, "w").write("\n".join(c))
        drv = os.path.join(d, "driver")
        rc, o, e = sh(["gcc", "-O0", "-w", "-no-pie", "-fcf-protection=none", cf, obj, "-o", drv, "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs", "-Wl,-z,noexecstack"], 60)
        if rc:
            return False, "driver does not link: " + (o + e)[-500:]
        rc, o, e = sh([drv], 20)
        if rc == -999:
            return True, "inputs %s: does not return" % f["inputs"]
        if rc:
            return True, "inputs %s: the program dies (exit %d)" % (f["inputs"], rc)
        got = re.search(r"^ret (\w+)", o, re.M)
        gl = {m.group(1): int(m.group(2), 16) for m in re.finditer(r"^glob (\S+) (\w+)", o, re.M)}
        if got is None and "panic" not in o:
            return True, "inputs %s: the program dies without a result" % f["inputs"]
        return self.verdict(f, ref, int(got.group(1), 16) if got else None, "panic" in o, gl, None, "running the program")

    def verdict(self, f, ref, got, panic, gl, ex, how):
        inp = "inputs %s%s" % (f["inputs"], " globals %s" % f["globals"] if f.get("globals") else "")
        if ref.get("want_panic"):
            return (True, inp + ": no runtime error where the language requires one") if not panic else (False, "runtime error as required")
        if panic:
            return True, inp + ": a runtime error where the language defines a result"
        if ex:
            return True, inp + ": " + ex
        want, w = ref["want"], ref.get("w", 64)
        if want is not None and got != want and not (ref.get("nan") and nan(got, w)):
            return True, "%s: %s gives %#x, the language says %#x" % (inp, how, got, want)
        for n, (_, wv) in ref.get("globals", {}).items():
            if n in gl and gl[n] != wv:
                return True, "%s: global %s ends as %#x, the language says %#x" % (inp, n, gl[n], wv)
        return False, "%s: %s agrees with the language (%s)" % (inp, how, want)

    def save(self, rdir, pid, f):
        base = os.path.join(rdir, "%s.%s.%s" % (pid, self.name, f["fn"]))
        json.dump(f, open(base + ".input", "w"))
        with open(base + ".replay.sh", "w") as o:
            o.write("#!/bin/sh\n# builds the compiler from the current tree, compiles the function and runs the counterexample\nexec python3 %s/vp.py replay %s %s %s.input\n" % (VERIF, pid, self.name, base))
        os.chmod(base + ".replay.sh", 0o755)
        return base + ".replay.sh"

    def replay_file(self, path):
        f = json.load(open(path))
        work = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            exe, msg = compiler(work)
            if not exe:
                print(msg)
                return 2
            text = self.text("thorough" if "fn %s(" % f["fn"] not in self.text() else "quick")
            other, fns = split_decls(text)
            d = os.path.join(work, "p")
            if f["kind"] == "compile":
                bad = self.compile_alone(exe, other, {n: t for n, t in fns.items() if n == f["fn"]} or fns, d)
                print("reproduced" if bad else "not reproduced", bad)
                return 1 if bad else 0
            obj, rc, out = compile_n(exe, with_main(text), self.target, d)
            if obj is None:
                bad = self.compile_alone(exe, other, fns, d + ".alone")
                obj, rc, out = compile_n(exe, with_main(other + "".join(t for n, t in fns.items() if n not in bad)), self.target, d)
            sh(["python3-vt", os.path.join(VERIF, "lib", "tvrun.py"), self.target, os.path.join(d, "main.n"), obj, os.path.join(d, "out.json"), "--only", "none"], 60)
            ok, why = self.replay(exe, d, obj, f)
            print("reproduced" if ok else "not reproduced", why)
            return 1 if ok else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)


def nan(v, w):
    return v is not None and ((v >> 52) & 0x7ff == 0x7ff and v & ((1 << 52) - 1) != 0 if w == 64 else (v >> 23) & 0xff == 0xff and v & 0x7fffff != 0)
