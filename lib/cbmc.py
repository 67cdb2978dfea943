"""Bounded symbolic checks of /repo's C code: goto-cc encodes the current source, CBMC
decides every assertion for all inputs within the bounds, and a counterexample is replayed
natively (gcc + sanitizers on the same harness and the same source) before it is reported."""
import json, os, re, shutil, subprocess, time

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT_DEFS = ["-DLLHTTP_STATIC_LIB", "-DRUNTIME", "-DTEST_MODE", "-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1"]
CC_DEFS = ["-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1"]
# pointer comparisons against 0 written with > are not what the solver models; same meaning with !=
REWRITES = [("runtime/nutils/vec.c", r"\bref > 0\b", "ref != 0")]
INCS = ["-I" + VERIF + "/lib", "-I" + VERIF + "/lib/stubinc", "-I" + VERIF + "/harness", "-I%s/runtime/mbedtls/include" % REPO, "-I%s/include" % REPO, "-I%s" % REPO]
SOLVER = []


class Ob:
    """One obligation: one harness entry, all inputs within its bounds."""

    def __init__(self, name, file, entry, unwind=12, defs=None, thorough=None, timeout=600, mode="rt",
                 checks=("--bounds-check", "--pointer-check", "--div-by-zero-check"), extra=(), bounds="", link=(),
                 tier="both", stubs=(), allow=(), replay_timeout=20, solver=None, object_bits=12, mem_gb=8, assumes=(),
                 max_unwind_retry=3, native_flags=(), rewrites=(), memunwind=130, unwindset=()):
        self.__dict__.update(locals())
        self.defs = dict(defs or {})
        self.thorough = dict(thorough or {})  # overrides of defs/unwind in the thorough tier

    def settings(self, tier):
        defs, unwind, timeout = dict(self.defs), self.unwind, self.timeout
        if tier == "thorough":
            t = dict(self.thorough)
            unwind = t.pop("unwind", unwind)
            timeout = t.pop("timeout", max(timeout, 840))
            defs.update(t)
        return defs, unwind, timeout


def sh(cmd, timeout, cwd=None, env=None, mem_gb=None):
    def lim():
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env,
                           preexec_fn=lim if mem_gb else None, errors="replace", stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


_def_index = None


def def_index():
    """function name -> defining .c file, over the repository's own sources"""
    global _def_index
    if _def_index is None:
        idx = {}
        pat = re.compile(r"^(?!static|#|\s|//|typedef|return|else)[A-Za-z_][\w\s\*]*?\b([A-Za-z_]\w*)\s*\([^;]*$", re.M)
        for top in ("utils", "src", "runtime"):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds[:] = [x for x in ds if x not in ("mbedtls", "llhttp", "libuv", "_build", "tests")]
                for f in sorted(fs):
                    if f.endswith(".c"):
                        p = os.path.join(d, f)
                        try:
                            txt = open(p, errors="replace").read()
                        except OSError:
                            continue
                        for m in pat.finditer(txt):
                            idx.setdefault(m.group(1), p)
        _def_index = idx
    return _def_index


def overlay(ob, work):
    d = os.path.join(work, ob.name + ".ov")
    shutil.rmtree(d, ignore_errors=True)
    for f, pat, rep in REWRITES + list(ob.rewrites):
        src = os.path.join(d, f) if os.path.exists(os.path.join(d, f)) else os.path.join(REPO, f)
        if not os.path.exists(src):
            continue
        txt = open(src, errors="surrogateescape").read()
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        od = os.path.dirname(os.path.join(d, f))
        for sib in os.listdir(os.path.dirname(os.path.join(REPO, f))):
            if sib.endswith(".h") and not os.path.lexists(os.path.join(od, sib)):
                os.symlink(os.path.join(REPO, os.path.dirname(f), sib), os.path.join(od, sib))
        if os.path.islink(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))
        new = re.sub(pat, rep, txt, flags=re.M)
        with open(os.path.join(d, f), "w", errors="surrogateescape") as o:
            o.write(new if src.startswith(d) else "#line 1 \"%s\"\n%s" % (src, new))
    return ["-iquote", d, "-I" + d]


def compile_gb(ob, defs, work):
    base = (RT_DEFS if ob.mode == "rt" else CC_DEFS) + ["-std=gnu11", "-w"] + overlay(ob, work) + INCS + ["-D%s=%s" % kv if kv[1] != "" else "-D" + kv[0] for kv in defs.items()]
    src = os.path.join(VERIF, "harness", ob.file)
    out = os.path.join(work, ob.name + ".gb")
    srcs = [src] + [os.path.join(REPO, l) for l in ob.link]
    undefined = []
    for rnd in range(6):
        rc, o, e = sh(["goto-cc"] + base + ["--function", ob.entry, "-o", out] + srcs, 300)
        if rc != 0:
            return None, "goto-cc failed: " + (o + e)[-1500:], srcs, undefined
        reach = reachable(out)
        rc, o, e = sh(["goto-instrument", "--list-undefined-functions", out], 300)
        names = {l.strip() for l in o.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())}
        undefined = sorted(n for n in names & reach if not re.match(r"nondet_|__CPROVER|__builtin", n))
        add = []
        if rnd < 5:
            idx = def_index()
            for n in undefined:
                if n in ob.stubs:
                    continue
                f = idx.get(n)
                if f and f not in srcs and f not in add and os.path.realpath(f) not in included(src):
                    add.append(f)
        if not add:
            break
        srcs += add
    return out, "", srcs, undefined


def included(src):
    s = set()
    try:
        for m in re.finditer(r'#include\s+"([^"]+\.c)"', open(src).read()):
            for b in (REPO, os.path.dirname(src)):
                p = os.path.join(b, m.group(1))
                if os.path.exists(p):
                    s.add(os.path.realpath(p))
    except OSError:
        pass
    return s


LIBC_OK = re.compile(r"^(mem|str|malloc|calloc|realloc|free|abort|exit|printf|fprintf|v?s?n?printf|puts|fputs|fputc|putchar|fflush|__|pthread|isdigit|isalpha|toupper|tolower)")


def reachable(gb):
    rc, o, e = sh(["goto-instrument", "--reachable-call-graph", gb], 300)
    s = set()
    for m in re.finditer(r"^(\S+) -> (\S+)$", o, re.M):
        s.update(m.groups())
    return s


def run_cbmc(ob, gb, unwind, timeout, extra=()):
    cmd = ["cbmc", gb, "--function", ob.entry, "--drop-unused-functions", "--no-standard-checks", "--no-malloc-may-fail",
           "--unwind", str(unwind), "--unwinding-assertions", "--json-ui", "--verbosity", "8"] + list(ob.checks) + (ob.solver if ob.solver is not None else SOLVER) + list(ob.extra) + list(extra)
    if ob.object_bits:
        cmd += ["--object-bits", str(ob.object_bits)]
    us = ["%s:%d" % (l, max(ob.memunwind, unwind)) for l in ("memset.0", "memcpy.0", "memcmp.0", "memmove.0", "memmove.1", "strlen.0") if ob.memunwind] + list(ob.unwindset)
    if us:
        cmd += ["--unwindset", ",".join(us)]
    t = time.time()
    rc, o, e = sh(cmd, timeout, mem_gb=ob.mem_gb)
    dt = time.time() - t
    if rc == -999:
        return dict(status="timeout", wall=dt)
    if rc not in (0, 10):
        return dict(status="error", wall=dt, msg=(o + e)[-1500:])
    try:
        js = json.loads(o)
    except ValueError:
        return dict(status="error", wall=dt, msg="unparsable cbmc output: " + (o + e)[-800:])
    res, vcc, sat, sz = None, 0, 0.0, {}
    for it in js:
        if "result" in it:
            res = it["result"]
        m = it.get("messageText", "")
        x = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if x:
            vcc = int(x.group(1)); sz["vccs_remaining"] = int(x.group(2))
        x = re.match(r"Runtime (Solver|decision procedure): ([\d.]+)s", m, re.I)
        if x and x.group(1).lower() == "solver":
            sat += float(x.group(2))
        x = re.match(r"(\d+) variables, (\d+) clauses", m)
        if x:
            sz["variables"], sz["clauses"] = int(x.group(1)), int(x.group(2))
    if res is None:
        return dict(status="error", wall=dt, msg="no result in cbmc output " + o[-500:])
    return dict(status="done", wall=dt, result=res, vcc=vcc, sat=sat, size=sz)


def trace_inputs(res_item):
    vals = []
    for st in res_item.get("trace", []):
        if st.get("stepType") == "assignment" and st.get("lhs") == "vp_last" and not st.get("hidden", False):
            b = st.get("value", {}).get("binary")
            if b is None:
                continue
            vals.append(int(b, 2))
    return vals


def native_build(ob, defs, srcs, work):
    exe = os.path.join(work, ob.name + ".native")
    base = (RT_DEFS if ob.mode == "rt" else CC_DEFS) + ["-std=gnu11", "-w"] + INCS + ["-D%s=%s" % kv if kv[1] != "" else "-D" + kv[0] for kv in defs.items()]
    cmd = ["gcc", "-O0", "-g", "-DVP_NATIVE", "-DVP_ENTRY=" + ob.entry, "-fsanitize=address,undefined", "-fno-sanitize-recover=address",
           "-fno-sanitize=alignment", "-fcommon", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,muldefs"] + list(ob.native_flags) + base + srcs + [VERIF + "/lib/vp_native.c", "-o", exe, "-lm", "-lpthread"]
    rc, o, e = sh(cmd, 300)
    return (exe if rc == 0 else None), (o + e)[-1500:]


def replay(ob, exe, vals, inp):
    with open(inp, "w") as f:
        f.write("\n".join("%x" % v for v in vals) + "\n")
    env = dict(os.environ, VP_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    rc, o, e = sh([exe], ob.replay_timeout, env=env)
    if rc == -999:
        return True, "replay does not terminate within %d s" % ob.replay_timeout
    if rc in (0, 77):
        return False, "exit %d %s" % (rc, e[-300:])
    lines = [l for l in e.splitlines() if re.search(r"VP_FAIL|ERROR: AddressSanitizer|assertf failed|Assertion|runtime error", l)]
    return True, "exit %d: %s" % (rc, "; ".join(lines)[:400] or e[-300:])


def check(ob, tier, work, replay_dir, prop):
    """-> dict(status=ok|fail|unconfirmed|timeout|error, ...)"""
    t0 = time.time()
    defs, unwind, timeout = ob.settings(tier)
    r = dict(name=ob.name, harness=ob.file, entry=ob.entry, bounds=ob.bounds, unwind=unwind, defs=defs)
    gb, msg, srcs, undefined = compile_gb(ob, defs, work)
    if not gb:
        r.update(status="error", detail=msg, wall=time.time() - t0)
        return r
    funcs = sorted(f for f in reachable(gb) if f not in undefined and not re.match(r"h_|vp_|nondet|__CPROVER|_start|__builtin", f))
    r["undefined"] = [u for u in undefined if u not in ob.stubs and not LIBC_OK.match(u)]
    for attempt in range(ob.max_unwind_retry):
        left = timeout - (time.time() - t0)
        if left < 5:
            r.update(status="timeout", detail="budget of %d s spent" % timeout, wall=time.time() - t0)
            return r
        c = run_cbmc(ob, gb, unwind, left)
        if c["status"] != "done":
            r.update(status=c["status"], detail=c.get("msg", "solver budget of %d s spent" % timeout), wall=time.time() - t0)
            return r
        bad = [x for x in c["result"] if x["status"] == "FAILURE" and not x.get("description", "").startswith("REACH: ")]
        onlyunw = bad and all("unwind" in x["property"] or "recursion" in x["property"] for x in bad)
        if onlyunw and attempt + 1 < ob.max_unwind_retry:
            # is the loop non-terminating, or is the bound too small for this tree? grow the bound.
            unwind = unwind * 2
            r["unwind"] = unwind
            continue
        break
    reach = [x for x in c["result"] if x.get("description", "").startswith("REACH: ")]
    dead = [x["description"] for x in reach if x["status"] == "SUCCESS"]
    r.update(asserts=len(c["result"]) - len(reach), reach=len(reach), vcc=c["vcc"], solver_s=c["sat"], size=c["size"],
             functions=funcs, dead=dead)
    unk = [x["property"] for x in c["result"] if x["status"] not in ("SUCCESS", "FAILURE")]
    if not bad and unk:
        r.update(status="error", detail="undecided: %s" % unk[:5], wall=time.time() - t0)
        return r
    if not bad:
        if dead or not reach:
            r.update(status="vacuous", detail="reachability witness not reached: %s" % dead, wall=time.time() - t0)
        else:
            r.update(status="ok", wall=time.time() - t0)
        return r
    # counterexample(s): replay natively. VP assertions first, unwinding last
    bad.sort(key=lambda x: (0 if x.get("description", "").startswith("VP: ") else 2 if "unwind" in x["property"] else 1))
    exe, nmsg = native_build(ob, defs, srcs, work)
    tried = []
    if not exe:
        r.update(status="unconfirmed", detail="native replay build failed: " + nmsg, wall=time.time() - t0)
        return r
    for x in bad[:6]:
        c2 = run_cbmc(ob, gb, unwind, max(60, min(600, timeout)), ["--trace", "--property", x["property"]])
        if c2["status"] != "done":
            tried.append("%s: trace %s" % (x["property"], c2["status"]))
            continue
        it = [y for y in c2["result"] if y["property"] == x["property"]]
        if not it or "trace" not in it[0]:
            tried.append("%s: no trace" % x["property"])
            continue
        vals = trace_inputs(it[0])
        inp = os.path.join(replay_dir, "%s.%s.input" % (prop, ob.name))
        ok, why = replay(ob, exe, vals, inp)
        if ok:
            rp = os.path.join(replay_dir, "%s.%s.replay.sh" % (prop, ob.name))
            with open(rp, "w") as f:
                f.write("#!/bin/sh\n# rebuilds the harness natively from the current tree and re-runs the counterexample\n"
                        "exec python3 %s/vp.py replay %s %s %s\n" % (VERIF, prop, ob.name, inp))
            os.chmod(rp, 0o755)
            loc = x.get("sourceLocation", {})
            r.update(status="fail", assertion=x.get("description"), cprop=x["property"], where="%s:%s" % (loc.get("file"), loc.get("line")),
                     inputs=["%x" % v for v in vals], replay=rp, detail=why, wall=time.time() - t0)
            return r
        tried.append("%s (%s): %s" % (x["property"], x.get("description"), why))
    r.update(status="unconfirmed", detail="; ".join(tried)[:3000], wall=time.time() - t0)
    return r
