#!/usr/bin/env python3
"""vp.py check ID [--tier quick|thorough] [--only OB]   decide a property on /repo's current tree
   vp.py replay ID OB INPUT                             re-run a counterexample natively
   vp.py list"""
import concurrent.futures as cf, json, os, re, shutil, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, VERIF)
import cbmc
from props import PROPS


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) ob=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def run_ob(o, tier, work, rdir, pid):
    try:
        if hasattr(o, "run"):
            return o.run(tier, work, rdir, pid)
        return cbmc.check(o, tier, work, rdir, pid)
    except Exception as e:  # noqa
        import traceback
        return dict(name=getattr(o, "name", "?"), status="error", detail=traceback.format_exc()[-1500:], wall=0)


def check(pid, tier, only=None):
    t0 = time.time()
    p = PROPS[pid]
    obs = [o for o in p["obs"] if (only is None or o.name == only) and (getattr(o, "tier", "both") in ("both", tier))]
    evd = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evd, "replay")
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        with cf.ThreadPoolExecutor(max_workers=p.get("workers", 7)) as ex:
            rs = list(ex.map(lambda o: run_ob(o, tier, work, rdir, pid), obs))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known()
    viol, knownhits, errs = [], [], []
    for r in rs:
        fails = r.get("fails") or ([r] if r["status"] == "fail" else [])
        if fails:
            for f in fails:
                txt = "%s %s %s" % (f.get("assertion", ""), f.get("where", ""), f.get("detail", ""))
                k = [x for x in kn if x[0] == pid and x[1] == r["name"] and x[2] in txt]
                if k:
                    knownhits.append((r, f, k[0]))
                else:
                    viol.append((r, f))
        if r["status"] in ("error", "timeout", "unconfirmed", "vacuous"):
            errs.append(r)
    cov = dict(
        explanation=p["explain"],
        obligations=len(rs), queries_discharged=sum(r.get("asserts", 0) for r in rs if r["status"] == "ok"),
        reachability_witnesses=sum(r.get("reach", 0) for r in rs), vccs=sum(r.get("vcc", 0) for r in rs),
        solver_s=round(sum(r.get("solver_s", 0) for r in rs), 3),
        functions_encoded=sorted({f for r in rs for f in r.get("functions", [])}),
        programs=sum(r.get("programs", 0) for r in rs),
        disagreements_checked=sum(r.get("asserts", 0) for r in rs if "programs" in r),
        samples=[s for r in rs for s in r.get("samples", [])][:5] or [dict(obligation=r["name"], bounds=r.get("bounds"), defs=r.get("defs")) for r in rs[:3]],
        per_obligation=[{k: v for k, v in r.items() if k not in ("functions", "fails", "samples")} for r in rs])
    if p["level"] != "translation_validation":
        cov.pop("programs"); cov.pop("disagreements_checked")
    und = sorted({u for r in rs for u in r.get("undefined", [])})
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=p["level"], coverage=cov,
              assumptions=list(p.get("assume", [])) + sorted({a for o in obs for a in getattr(o, "assumes", ())}) +
              ["bounds of %s: %s" % (o.name, o.bounds) for o in obs if getattr(o, "bounds", "")] +
              (["functions without a body return an arbitrary value: " + ", ".join(und)] if und else []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if only is None:
        with open(os.path.join(evd, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for r in rs:
        print("%-44s %-11s %6.1fs asserts=%s %s" % (r["name"], r["status"], r.get("wall", 0), r.get("asserts", "-"), (r.get("detail") or "")[:300].replace("\n", " ") if r["status"] != "ok" else ""))
    for r, f, k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for r, f in viol:
        print("  counterexample: obligation=%s assertion=%s at %s: %s" % (r["name"], f.get("assertion"), f.get("where"), f.get("detail")))
        print("VIOLATION property=%s replay=%s" % (pid, f.get("replay")))
    if viol:
        return 1
    if errs:
        for r in errs:
            print("ERROR %s: %s: %s" % (r["name"], r["status"], r.get("detail", "")))
        return 2
    return 0


def main(a):
    if a[0] == "list":
        for k, p in sorted(PROPS.items()):
            print(k, p["title"], len(p["obs"]))
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        only = a[a.index("--only") + 1] if "--only" in a else None
        return check(a[1], tier, only)
    if a[0] == "replay":
        o = [x for x in PROPS[a[1]]["obs"] if x.name == a[2]][0]
        if hasattr(o, "replay_file"):
            return o.replay_file(a[3])
        work = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            defs, unwind, timeout = o.settings(os.environ.get("VERIF_TIER", "quick"))
            gb, msg, srcs, und = cbmc.compile_gb(o, defs, work)
            exe, msg = cbmc.native_build(o, defs, srcs, work)
            vals = [int(l, 16) for l in open(a[3]) if l.strip()]
            ok, why = cbmc.replay(o, exe, vals, os.path.join(work, "in"))
            print("reproduced" if ok else "not reproduced", why)
            return 1 if ok else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
