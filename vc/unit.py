"""One verification unit = one component instance under one contract; runs the contract, replays refutations, cross-checks the engine."""
import time, random, traceback, math, json
import numpy as np, mpmath
from . import terms as T
from . import symarr as S
from .terms import *
from .component import *
from .prove import *
from .deriv import *
from .replay import Real, compare_jac

class Result:
    """picklable summary"""
    def __init__(self, name): self.name = name; self.ob = {}; self.viol = []; self.undecided = []; self.notes = []; self.bounded = []; self.t = 0.0; self.t_solver = {}; self.functions = []; self.cross = 0; self.modes = []; self.cases = 0; self.samples = 0
    def count(self, k, n=1): self.ob[k] = self.ob.get(k, 0) + n
    @property
    def total(self): return sum(self.ob.values())
    @property
    def proved(self): return sum(v for k, v in self.ob.items() if k.startswith("proved"))

def env_values(real, sample, runner, rng, nn):
    """numpy input values of the real component from a term environment (unset elements: random in the domain)"""
    names = real.ins + (real.outs if real.implicit else [])
    by = {}
    for t, v in sample.items():
        if isinstance(t, Term) and t.op == "v":
            idx = []
            for a in t.args[1:]:
                idx.append(int(a.c + sum(c * sample.get(k, 0) for k, c in a.m)) if isinstance(a, SymInt) else int(a))
            by.setdefault(t.args[0], {})[tuple(idx)] = float(v)
    vals = {}
    for n in names + (["hist:" + n for n in names] if getattr(real, "hist", False) else []):
        sh = real.meta(n.removeprefix("hist:"))["shape"]; a = np.empty(sh); d = by.get(n, {})
        for flat, i in enumerate(np.ndindex(*sh)):
            if i in d: a[i] = d[i]
            elif (flat,) in d: a[i] = d[(flat,)]
            else:
                x = runner.dom.sample(n.removeprefix("hist:"), rng.random())
                h = getattr(runner.dom, "hard", {}).get(n.removeprefix("hist:"))
                a[i] = x
        vals[n] = a
    return vals, by

def build_real(runner, sample, rng):
    nn = sample.get("nn", None) if sample else None
    nn = int(nn) if nn is not None and runner.mode == "sym" else (runner.mode if isinstance(runner.mode, int) else 2)
    opt = {}
    for k, v in runner.optvals.items():
        t = V("opt:" + k); opt[k] = float(sample[t]) if sample and t in keyset(sample) else v
    real = Real(runner.cfg, nn, opt)
    return real, nn, opt
def keyset(s): return {k for k in s if isinstance(k, Term)} if isinstance(s, dict) else set()

def replay_deriv(runner, o, tries=6, seed=1):
    """confirm a refuted derivative obligation on the real code -> dict or None"""
    rng = random.Random(seed)
    for k in range(tries):
        s = o.sample if k == 0 or not o.facts else resample(runner, o, rng) or o.sample
        try:
            real, nn, opt = build_real(runner, s, rng)
            vals, _ = env_values(real, s, runner, rng, nn)
            bad = compare_jac(real, vals, pairs={o.key} if o.key[1] else None, rtol=1e-6)
        except Exception as e:
            o.detail += " | replay: %r" % e; continue
        if bad: return dict(component=runner.cfg.name, cls=runner.cfg.cls.__module__ + "." + runner.cfg.cls.__name__, options=opt, num_nodes=nn, inputs={k: np.asarray(v).tolist() for k, v in vals.items()}, mismatch=bad[:6])
    return None
def resample(runner, o, rng):
    vs = set()
    for c, _ in o.facts.conds: vs |= {v for v in free_vars(c) if v.op == "v"}
    vs |= {t for t in keyset(o.sample)}
    sm = Sampler(runner.dom, rng.randrange(1 << 30))
    m = mpmath.mp; old = m.dps; m.dps = 30
    try:
        for e in sm.satisfying(vs, o.facts.conds, {k for k in o.sample if isinstance(k, str) and k not in "!?"}, o.facts.ints, tries=60):
            for k in o.sample:
                if isinstance(k, str) and k not in ("!", "?"): e[k] = o.sample[k]
            return e
    except Exception: return None
    finally: m.dps = old
    return None

def crosscheck(runner, paths, seed=1, jac=True, npts=2):
    """the symbolically executed outputs and partials, evaluated at random points, agree with the real component.
    -> (number of values compared, list of disagreements)"""
    rng = random.Random(seed); n = 0; dis = []
    for facts, inst in paths[:12]:
        if hasattr(inst, "error"): continue
        # candidate points satisfying the path condition
        vs = set()
        for c, _ in facts.conds: vs |= {v for v in free_vars(c) if v.op == "v"}
        sm = Sampler(runner.dom, rng.randrange(1 << 30)); got = 0
        m = mpmath.mp; old = m.dps; m.dps = 25
        try:
            for e in sm.satisfying(vs, facts.conds, set(), facts.ints, tries=40):
                try:
                    if runner.mode == "sym":
                        k = compare_sym(runner, inst, facts, e, rng, jac, dis)
                    else: k = compare_conc(runner, inst, facts, e, rng, jac, dis)
                except Exception: k = 0            # the point violates a quantified path condition, or leaves the evaluator's range
                if k: n += k; got += 1
                if got >= npts or dis: break
        except Unsupported: pass
        finally: m.dps = old
    return n, dis

def _cmp(a, b, tol=1e-7):
    if not (math.isfinite(a) and math.isfinite(b)): return True
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12

def compare_conc(runner, inst, facts, e, rng, jac, dis):
    real, nn, opt = build_real(runner, e, rng)
    vals, by = env_values(real, e, runner, rng, nn)
    env = dict(e)
    for n, a in vals.items():
        for k, x in enumerate(np.ravel(a)): env[V(n, k)] = mpmath.mpf(float(x))
    for k, x in opt.items(): env[V("opt:" + k)] = mpmath.mpf(x)
    cond_ok = all(bool(evalf(c, env, mpmath.mp)) == tv for c, tv in facts.conds if c.op not in ("any", "bvar", "ile", "ieq"))
    if not cond_ok: return 0
    F = real.f(vals); cnt = 0
    for o in real.outs:
        arr = inst.out[o].view(np.ndarray).ravel().tolist()
        for k, t in enumerate(arr):
            if isinstance(t, DualT): t = t.re
            if not isinstance(t, Term): continue
            v = float(evalf(t, env, mpmath.mp)); cnt += 1
            if not _cmp(v, F[o][k], 1e-7): 
                if abs(v - F[o][k]) > 1e-9 * magnitude(t, env): dis.append(("output", o, k, v, float(F[o][k])))
    return cnt
def magnitude(t, env):
    """sum of the magnitudes of the summands: cancellation scale"""
    if t.op == "+": return sum(magnitude(a, env) for a in t.args)
    if t.op == "*": 
        r = 1.0
        for a in t.args: r *= magnitude(a, env)
        return r
    return abs(float(evalf(t, env, mpmath.mp)))

def compare_sym(runner, inst, facts, e, rng, jac, dis):
    """evaluate the symbolic-length result at one node of a real run where all nodes carry the same values"""
    nn = 4; e = dict(e); e["nn"] = nn
    real, nn, opt = build_real(runner, e, rng)
    vals, by = env_values(real, e, runner, rng, nn)
    # the path condition speaks about representative elements: make all nodes alike
    for n, a in vals.items():
        d = by.get(n)
        if d and a.ndim == 1 and a.size == nn and n in {v.args[0] for v in keyset(e) if v.op == "v"}: a[:] = list(d.values())[0]
        elif a.ndim == 1 and a.size == nn and facts.conds: a[:] = a[0]
    env = dict(e)
    vmap = {}
    def look(t):
        n = t.args[0]
        if n.startswith("opt:"): return mpmath.mpf(opt[n[4:]])
        idx = tuple(int(x.c + sum(c * env[k] for k, c in x.m)) if isinstance(x, SymInt) else int(x) for x in t.args[1:])
        a = vals[n]
        return mpmath.mpf(float(a[idx] if len(idx) == a.ndim else a.ravel()[idx[0]]))
    F = real.f(vals); cnt = 0
    for o in real.outs:
        vo = inst.rec.outputs[o]
        for vi, ai, fi in elem_indices(vo, "i"):
            old = T.ORACLE; T.ORACLE = None
            try: t = at(inst.out[o], ai)
            except Unsupported: continue
            finally: T.ORACLE = old
            if isinstance(t, DualT): t = t.re
            if not isinstance(t, Term): continue
            for node in range(nn if any(isinstance(x, SymInt) for x in vi) else 1):
                en = {"nn": nn}
                for x in vi:
                    if isinstance(x, SymInt):
                        for k, _ in x.m: en[k] = node
                env = en
                full = dict(en); full["?"] = look
                for v in free_vars(t):
                    if v.op == "v": full[v] = look(v)
                v = float(evalf(t, full, mpmath.mp)); cnt += 1
                idx = tuple(node if isinstance(x, SymInt) else x for x in vi)
                fv = F[o].reshape(real.meta(o)["shape"])[idx] if vo.sym else F[o][vi[0]]
                if not _cmp(v, float(fv), 1e-7) and abs(v - fv) > 1e-9 * magnitude(t, full): dis.append(("output", o, str(idx), v, float(fv)))
    return cnt

def bounded_deriv(runner, seed=1, n=3):
    """bounded stand-in: reported vs. true Jacobian of the real component at n sampled points"""
    rng = random.Random(seed); bad = []; cnt = 0; vals = {}
    if not runner.optvals and not runner.dom.d: pass
    for k in range(n):
        try:
            nn = runner.mode if isinstance(runner.mode, int) else 2
            real = Real(runner.cfg, nn, {})
            for nme in real.wrts():
                m = real.meta(nme); v = Var(nme, m["shape"], m.get("units"), m.get("val"), "in")
                if nme not in runner.dom.d: runner.setdom(nme, v)
            vals = {nme: np.array([runner.dom.sample(nme, rng.random()) for _ in range(int(np.prod(real.meta(nme)["shape"])))]).reshape(real.meta(nme)["shape"]) for nme in real.wrts()}
            b = compare_jac(real, vals); cnt += 1
        except Exception as e:
            w = accident(e)
            if w and not bad: bad.append((vals, [("evaluation", "", 0, 0, repr(e)[:300], w)], nn))
            continue
        if b: bad.append((vals, b, nn))
    return cnt, bad

def setup_error(cfg, m):
    """the unmodified class, alone in an OpenMDAO problem, with the configuration's options: the error of its set-up, if it has one"""
    from .group import GCfg, MARK, problem
    nn = (MARK if isinstance(cfg, GCfg) else 2) if m == "sym" else m
    try: problem(cfg, nn) if isinstance(cfg, GCfg) else Real(cfg, nn, {})
    except Exception as e: return "%s: %s" % (type(e).__name__, str(e)[:600])
    return None
def setup_violation(cfg, m, err):
    return dict(label="%s: can be set up" % cfg.name, key=[cfg.cls.__name__, "set up"], replay=dict(component=cfg.name, options={k: str(v)[:200] for k, v in cfg.opts.items()}, num_nodes=str(m), error=err), detail=err)
def check_setup(R, cfg, m):
    """something could not be replayed: does the class set up at all?"""
    if getattr(R, "setup_checked", None) is not None: return R.setup_checked
    err = setup_error(cfg, m); R.setup_checked = err is not None
    if err is not None: R.count("refuted"); R.viol.append(setup_violation(cfg, m, err))
    return R.setup_checked

def accident(e):
    """the exception left the library's code at a statement other than a deliberate raise -> 'file:line' or None"""
    import traceback as tbm, linecache
    fr = [f for f in tbm.extract_tb(e.__traceback__) if "openconcept" in f.filename.replace("\\", "/").split("/")]
    if not fr or (fr[-1].line or "").lstrip().startswith(("raise", "assert")): return None
    return "%s:%d" % (fr[-1].filename.rsplit("openconcept/", 1)[-1], fr[-1].lineno)
def raising(R, runner, errors, seed):
    """paths that end in an exception: at a point of the input domain that takes such a path, the real component must not crash by accident"""
    rng = random.Random(seed); seen = set()
    for facts, inst in errors[:8]:
        k0 = type(inst.error).__name__ + getattr(inst, "tb", "")[-120:]
        if k0 in seen: continue
        vs = set()
        for c, _ in facts.conds: vs |= {v for v in free_vars(c) if v.op == "v"}
        sm = Sampler(runner.dom, rng.randrange(1 << 30)); m = mpmath.mp; old = m.dps; m.dps = 25; got = 0
        try:
            for e in sm.satisfying(vs, facts.conds, set(), facts.ints, tries=20):
                real, nn, opt = build_real(runner, e, rng)
                vals, _ = env_values(real, e, runner, rng, nn); got += 1
                try: real.jac(vals)
                except Exception as x:
                    w = accident(x)
                    if w and type(x).__name__ == type(inst.error).__name__:
                        seen.add(k0); R.count("refuted")
                        R.viol.append(dict(label="%s: can be evaluated" % runner.cfg.name, key=[runner.cfg.cls.__name__, "evaluate"], replay=dict(component=runner.cfg.name, options=opt, num_nodes=nn, inputs={k: np.asarray(v).tolist() for k, v in vals.items()}, error=repr(x)[:400], where=w), detail=repr(x)[:300]))
                        break
                if got >= 3: break
        except Exception: pass
        finally: m.dps = old

class MissingVariable(KeyError):
    """the contract speaks of a variable of the interface that the class did not declare"""
def missing(cfg, m, e):
    """the variable is missing from the real class as well: its interface is broken"""
    from .group import GCfg, MARK, problem
    nn = (MARK if isinstance(cfg, GCfg) else 2) if m == "sym" else m; kind, name = e.args
    if isinstance(cfg, GCfg):
        if name not in (cfg.cls.__doc__ or ""): return None       # not a documented part of the group's interface
        try: problem(cfg, nn).get_val("g." + name); return None
        except KeyError: pass
    else:
        r = Real(cfg, nn, {})
        if name in {"i": r.ins, "o": r.outs}.get(kind, r.ins + r.outs): return None
    text = "the %s %r of the interface is not declared" % ({"i": "input", "o": "output"}.get(kind, kind), name)
    return dict(label="%s: declares %s" % (cfg.name, name), key=[cfg.cls.__name__, "declares", name], replay=dict(component=cfg.name, options={k: str(v)[:200] for k, v in cfg.opts.items()}, num_nodes=str(m), error=text), detail=text)
def or_setup(R, cfg, modes, go):
    """go(); when it cannot be carried through because the unmodified class does not set up, that is the result"""
    t0 = time.time()
    try: go()
    except Exception as e:
        m = (modes or [2])[0]; err = setup_error(cfg, m)
        v = setup_violation(cfg, m, err) if err is not None else missing(cfg, m, e) if isinstance(e, MissingVariable) else None
        if v is None: raise
        R.count("refuted"); R.viol.append(v)
    R.t = time.time() - t0
    return R
def run_deriv(cfg, seed=1, modes=None, budget=300):
    """D01..D05: reported derivatives are the derivatives of the executed model"""
    R = Result(cfg.name); modes = modes or cfg.modes or ["sym", 1]
    return or_setup(R, cfg, modes, lambda: _run_deriv(R, cfg, seed, modes))
def _run_deriv(R, cfg, seed, modes):
    modes = modes or cfg.modes or ["sym", 1]
    fall = False
    for mode in modes:
        runner = Runner(cfg, mode)
        try:
            ck = DerivChecker(runner, seed); outs = ck.run()
        except (Unsupported, RecursionError) as e:
            if mode == "sym":
                fall = True; R.notes.append("symbolic num_nodes outside the subset (%s): num_nodes in {1,2,3} instead" % str(e)[:120])
                modes_f = [2, 3]
                for m2 in modes_f: _one(R, Runner(cfg, m2), seed, m2)
                R.bounded.append("num_nodes in {1,2,3}")
                continue
            _fallback(R, runner, seed, e); continue
        _finish(R, runner, ck, outs, seed, mode)
        if mode == "sym" and not getattr(runner, "has_nn", True): R.modes = ["no num_nodes"]; break
def _one(R, runner, seed, mode):
    try: ck = DerivChecker(runner, seed); outs = ck.run()
    except (Unsupported, RecursionError) as e: _fallback(R, runner, seed, e); return
    _finish(R, runner, ck, outs, seed, mode)
def _fallback(R, runner, seed, e):
    R.notes.append("%s outside the subset: %s" % (runner.mode, str(e)[:160]))
    cnt, bad = bounded_deriv(runner, seed)
    R.bounded.append("numerical comparison of the reported Jacobian at %d points" % cnt)
    R.count("bounded", cnt)
    for vals, b, nn in bad:
        R.viol.append(dict(label="%s: d(%s)/d(%s)" % (runner.cfg.name, b[0][0], b[0][1]), key=[runner.cfg.cls.__name__, b[0][0], b[0][1]], replay=dict(component=runner.cfg.name, num_nodes=nn, inputs={k: v.tolist() for k, v in vals.items()}, mismatch=b[:6]), detail="bounded stand-in"))
def _finish(R, runner, ck, outs, seed, mode):
    R.modes.append(mode)
    fn_ = runner.cfg.cls.__module__ + "." + runner.cfg.cls.__name__
    if fn_ not in R.functions: R.functions.append(fn_)
    P = getattr(ck, "P", None)
    if P:
        for k in ("t_nf", "t_z3", "t_num"): R.t_solver[k] = R.t_solver.get(k, 0) + P.stats[k]
        R.cases += P.stats["cases"]
    n, dis = crosscheck(runner, ck.paths, seed)
    R.cross += n
    if not n: check_setup(R, runner.cfg, mode)
    if dis: R.notes.append("engine disagrees with the real code: %s" % (dis[:2],)); R.disagree = True
    ok = [p for p in ck.paths if not hasattr(p[1], "error")]
    if not ok and ck.errors:
        f, i = ck.errors[0]
        R.undecided.append(dict(label="%s: no path executes" % runner.cfg.name, detail=repr(i.error)[:300]))
        # does the real component fail as well?
        try: bounded_probe(R, runner, seed)
        except Exception as e: R.viol.append(dict(label="%s: component cannot be evaluated" % runner.cfg.name, key=[runner.cfg.cls.__name__, "evaluate", ""], replay=dict(component=runner.cfg.name, error=repr(e)[:400]), detail=repr(e)[:300]))
    for f, i in ck.errors: R.notes.append("path raises %s" % repr(i.error)[:120])
    if ok and ck.errors: raising(R, runner, ck.errors, seed)
    if outs and type(runner) is Runner and runner.written is not None and not runner.written: R.count("proved:frame (no state is left behind)")
    done = set()
    for o in outs:
        if o.status == "proved": R.count("proved:" + o.backend)
        elif o.status == "vacuous": R.count("vacuous")
        elif o.status == "refuted":
            k = (o.key, o.label.split("[")[0])
            rp = None
            if k in done: R.count("refuted"); continue
            if not dis: rp = replay_deriv(runner, o, seed=seed)
            elif True: rp = replay_deriv(runner, o, seed=seed)
            if rp is not None:
                done.add(k); R.count("refuted")
                R.viol.append(dict(label=o.label, key=[runner.cfg.cls.__name__, o.key[0], o.key[1]], replay=rp, detail=o.detail[:600]))
            else:
                check_setup(R, runner.cfg, mode)
                R.count("unconfirmed"); R.undecided.append(dict(label=o.label, detail="refuted by the evaluator but not reproduced on the real code: " + o.detail[:400]))
        else:
            R.count(o.status); R.undecided.append(dict(label=o.label, detail=o.detail[:400]))
def bounded_probe(R, runner, seed):
    rng = random.Random(seed); err = None
    for k in range(5):
        try:
            real = Real(runner.cfg, runner.mode if isinstance(runner.mode, int) else 2, {})
            vals = {}
            for nme in real.wrts():
                m = real.meta(nme); v = Var(nme, m["shape"], m.get("units"), m.get("val"), "in")
                if nme not in runner.dom.d: runner.setdom(nme, v)
                vals[nme] = np.array([runner.dom.sample(nme, rng.random()) for _ in range(int(np.prod(m["shape"])))]).reshape(m["shape"])
            real.jac(vals); return
        except Exception as e: err = e
    raise err

def only_bounded(cfg, seed=1):
    """stand-in for a unit whose deductive run did not finish"""
    R = Result(cfg.name); t0 = time.time()
    for m in [m for m in (cfg.modes or [2]) if m != "sym"] or [2]:
        r = Runner(cfg, m)
        _fallback(R, r, seed, Unsupported("deductive run not finished"))
    R.t = time.time() - t0
    return R
def own_partials(cls):
    """does the class supply analytic derivatives?"""
    return any(m in vars(k) for k in cls.__mro__ if k.__module__.startswith("openconcept") for m in ("compute_partials", "linearize", "apply_linear", "compute_jacvec_product"))
def uses_cs(cfg):
    """does the component leave (some of) its derivatives to an approximation, or supply none?"""
    if not own_partials(cfg.cls): return True
    try:
        r = Runner(cfg, (cfg.modes or ["sym", 2])[-1])
        with symbolic(): r.setup()
        return any(p["method"] != "exact" for p in r.rec.partials.values())
    except Exception: return False
def run_cs(cfg, seed=1, modes=None):
    """D06"""
    R = Result(cfg.name); t0 = time.time()
    modes = list(modes or cfg.modes or ["sym", 1])
    while modes:
        m = modes.pop(0)
        runner = Runner(cfg, m)
        try:
            ck = CSChecker(runner, seed); outs = ck.run()
            if not ck.any_cs:
                ck = DerivChecker(runner, seed); outs = ck.run()
        except (Unsupported, RecursionError) as e:
            if m == "sym":
                R.notes.append("symbolic num_nodes outside the subset (%s)" % str(e)[:120]); R.bounded.append("num_nodes in {1,2,3}")
                modes = [2, 3] + modes
            else: _fallback(R, runner, seed, e)
            continue
        _finish(R, runner, ck, outs, seed, m)
        if m == "sym" and not getattr(runner, "has_nn", True): R.modes = ["no num_nodes"]; break
    R.t = time.time() - t0
    return R
