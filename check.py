#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only NAME...]   decides one property of /repo's current working tree.
exit 0: nothing violated; exit 1: a line VIOLATION property=<id> replay=<path>; exit 2: the check itself failed."""
import os, sys
ENV = dict(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENMDAO_REPORTS="0", MPLBACKEND="Agg", PYTHONHASHSEED="0")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV); os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
import time, json, io, contextlib, tempfile, shutil, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(1, REPO)

def known():
    """known-findings.txt ->  {property: {key: what}}"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2]); out.setdefault(f["property"], {})[f["key"]] = l[7:].split(" ", 2)[2].strip()
    return out

def main():
    prop = sys.argv[1]; args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--only") + 1:] if "--only" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vc-%s-" % prop); cwd = os.getcwd(); os.chdir(scratch)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            import openconcept
            assert os.path.realpath(openconcept.__file__).startswith(os.path.realpath(REPO)), "openconcept is imported from %s" % openconcept.__file__
            from vc import units as U, sched
            us = U.units(prop, tier)
        if only: us = [u for u in us if any(s in u[0] for s in only)]
        if not us: print("check: no verification unit for %s" % prop); return 2
        budget, limit = (620, 230) if tier == "quick" else (3300, 1500)
        res = sched.run([(u[0], u[1]) for u in us], seed, ncpu=min(8, os.cpu_count() or 8), limit=limit, deadline=t0 + budget, log=(lambda n, s, t: print("  %-60s %s %.1fs" % (n, s, t), flush=True)) if os.environ.get("VERIF_LOG") else None)
        fb = [(u[0], u[2]) for u in us if res[u[0]][0] != "ok" and u[2]]
        fbres = sched.run(fb, seed, ncpu=8, limit=100, deadline=time.time() + 110) if fb else {}
    finally:
        os.chdir(cwd); shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, t0, us, res, fbres, only)

def report(prop, tier, seed, t0, us, res, fbres, only):
    tot = dict(obligations=0, discharged=0); by = {}; viol = []; und = []; notes = []; bounded = []; fns = set(); solver = {}; cross = 0; cases = 0; failed = []; per = {}; disagree = 0; assumptions = set()
    for name, fn, fb in us:
        st, r = res[name]
        if st != "ok":
            failed.append("%s: %s" % (name, "time limit" if st == "timeout" else r))
            bounded.append("%s: the deductive run did not finish (%s); bounded stand-in only" % (name, "time limit" if st == "timeout" else str(r).split("\n")[0][:160]))
            f = fbres.get(name)
            if not f or f[0] != "ok": continue
            r = f[1]
        for k, v in r.ob.items():
            by[k] = by.get(k, 0) + v
            if not k.startswith(("bounded", "vacuous", "sampled")): tot["obligations"] += v
            if k.startswith("proved"): tot["discharged"] += v
        viol += r.viol; und += [dict(u, unit=name) for u in r.undecided]; notes += ["%s: %s" % (name, n) for n in r.notes]; bounded += ["%s: %s" % (name, b) for b in r.bounded]
        fns.update(r.functions); cross += r.cross; cases += r.cases; disagree += bool(getattr(r, "disagree", False))
        assumptions.update(getattr(r, "assumptions", ()))
        for k, v in r.t_solver.items(): solver[k] = solver.get(k, 0.0) + v
        per[name] = dict(obligations=sum(v for k, v in r.ob.items() if not k.startswith(("bounded", "vacuous", "sampled"))), discharged=r.proved, seconds=round(r.t, 2), real_runs_checked=r.cross)
    kf = known().get(prop, {}); new = []; seen = set()
    for v in viol:
        k = "|".join(str(x) for x in v["key"]).replace(" ", "_")
        if k in kf:
            if k not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, kf[k])); seen.add(k)
            continue
        if k in seen: continue
        seen.add(k); new.append(v)
    for k, w in kf.items():
        if k not in seen and not only: print("note: listed finding %s was not observed in this run" % k)
    if not only:
        rd = os.path.join(HERE, "replay"); os.makedirs(rd, exist_ok=True)
        for f in os.listdir(rd):
            if f.startswith(prop + "-"): os.unlink(os.path.join(rd, f))
    else: rd = tempfile.mkdtemp(prefix="replay-")
    for n, v in enumerate(new[:20]):
        p = os.path.join(rd, "%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, obligation=v["label"], key=v["key"], counterexample=v["replay"], verifier=v.get("detail", "")), open(p, "w"), indent=1, default=str)
        tail = "" if v["replay"] else " no-failing-input-found"
        print("failed obligation: %s" % v["label"]); print("VIOLATION property=%s replay=%s%s" % (prop, p, tail))
    wall = time.time() - t0
    cov = dict(obligations=tot["obligations"], discharged=tot["discharged"], checker_cmd="/opt/venv/bin/python /verif/check.py %s" % prop,
        trusted_base=["CPython and numpy's dispatch protocols (the repository's functions are executed on symbolic values; numpy functions are replaced by exact real-arithmetic versions in vc/symarr.py)", "vc/terms.py, vc/nf.py, vc/explore.py, vc/prove.py: term rewriting, normal form and case splitting", "z3 for path feasibility and the obligations listed under z3", "machine floats treated as real numbers; float literals compared to 2e-7 relative"],
        by_status=by, functions_under_contract=sorted(fns), units=per, case_splits=cases, solver_seconds={k: round(v, 2) for k, v in solver.items()},
        engine_cross_checks=cross, engine_disagreements=disagree, undecided=und[:60], undecided_count=len(und), bounded=sorted(set(bounded))[:80], notes=sorted(set(notes))[:80], unfinished=failed[:20])
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=sorted(assumptions | {"real arithmetic: rounding, overflow and underflow are not modelled", "OpenMDAO transfers values, converts units and assembles partials as documented"}), wall_s=round(wall, 2), violations=len(new))
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d bounded stand-ins, %d units unfinished, %d cross-checks, %d violations, %.1fs" % (prop, tot["obligations"], tot["discharged"], len(und), len(set(bounded)), len(failed), cross, len(new), wall))
    if os.environ.get("VERIF_LOG"):
        for u in und[:40]: print("   undecided %s | %s" % (u["label"], u["detail"][:300]))
        for f in failed: print("   unfinished", f[:1500])
    if new: return 1
    if tot["obligations"] == 0: print("check: no obligation was generated"); return 2
    return 0
if __name__ == "__main__":
    sys.exit(main())
