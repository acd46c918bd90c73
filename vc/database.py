"""N02: the components that build aerodynamic databases keep their last answer in class attributes.  A history of calls on the real class (two instances,
arbitrary inputs each time) is executed symbolically, the expensive analysis replaced by an arbitrary function of everything it is handed, and the
contract compares what comes out with the analysis of the inputs of that very call.  No attribute of the cache is named here."""
import contextlib, functools, hashlib, mpmath, sys, warnings, traceback
import numpy as np, openmdao.api as om
from . import terms as T
from . import symarr as S
from .terms import *
from .symarr import OA
from .component import *
from .contract import contract, cv, conv
from .terms import evalf
from .group import prommap
from .explore import Explorer, PathAbort
from .nf import Norm

OUT = {"CL": "fltcond|CL", "CD": "fltcond|CD", "failure": "failure", "W_wing": "ac|weights|W_wing"}
class Data:
    """what one database is made of: the analysis' documented arguments, in terms of the component's inputs and options"""
    def __init__(self, cls, inputs, tables, scalars, mod, extra=None): self.cls = cls; self.inputs = inputs; self.tables = tables; self.scalars = scalars; self.mod = mod; self.extra = extra; self.alias = {OUT[t]: o for t, o in tables + scalars}; self.whole = [o for _, o in scalars]
GRIDS = (("Mach_number_grid", "Mach_train"), ("alpha_grid", "alpha_train"), ("alt_grid", "alt_train"))
def grid(o, which):
    a = np.meshgrid(*[np.asarray(o[n], float) for _, n in GRIDS], indexing="ij")
    return a[which]

class History:
    """steps: (call, instance, which set of inputs)"""
    def __init__(self, data, opts, steps): self.data = data; self.opts = opts; self.steps = steps
class HCfg(Cfg):
    def __init__(self, cls, data, opts, steps, tag, dom, point=None): self.point = point; super().__init__(cls, opts=opts, tag=tag, modes=[1]); self.data = data; self.steps = steps; self.dom.update(dom); self.wantJ = any(s[0] == "partials" for s in steps); self.nsets = 1 + max(s[2] for s in steps)
    def pair(self):
        return [self.cls(**self.opts) for _ in range(1 + max(s[1] for s in self.steps))]
def flat(x): return list(np.asarray(x, dtype=object).ravel())
def args_of(d, opts, vals):
    """the analysis' arguments that belong to these inputs"""
    return [opts["num_x"], opts["num_y"], sorted(opts.get("surf_options", {}).items())], [e for n, key in d.inputs for e in flat(vals[n])]
def given(d, t, surf):
    return [t["num_x"], t["num_y"], sorted((surf or {}).items())], [e for n, key in d.inputs for e in flat(t[key])]
def answer(d, fixed, elems, grids, f, want):
    """the arbitrary analysis: every entry a function of its own flight condition and everything else"""
    sh = grids[0].shape; out = {}; par = {}; sizes = d.sizes
    name = lambda s: "%s|%s" % (s, fixed)
    for t, o in d.tables:
        a = np.empty(sh, object)
        for i in np.ndindex(*sh): a[i] = f(name(t), [g[i] for g in grids] + elems)
        out[t] = a
        for n, _ in d.inputs if want else ():
            J = np.empty((a.size, sizes[n]), object)
            for r, i in enumerate(np.ndindex(*sh)):
                for c in range(sizes[n]): J[r, c] = f(name("d%s/d%s[%d]" % (t, n, c)), [g[i] for g in grids] + elems)
            par[o, n] = J
    for t, o in d.scalars:
        a = np.empty((1,), object); a[0] = f(name(t), elems); out[t] = a
        for n, _ in d.inputs if want else ():
            J = np.empty((sizes[n],), object)
            for c in range(sizes[n]): J[c] = f(name("d%s/d%s[%d]" % (t, n, c)), elems)
            par[o, n] = J
    out["partials"] = par
    return out
def numf(name, a):
    """a smooth (rounding is harmless), rapidly varying function of every argument"""
    g = np.random.default_rng(int.from_bytes(hashlib.sha256(name.encode()).digest()[:8], "big")); a = np.array([float(x) for x in a]); w = g.uniform(1e4, 1e5, len(a))
    return 1.25 + 0.5 * np.sin(g.uniform(0, 6) + np.sum(w * a / (1 + np.abs(a))))
def symf(name, a): return T.uf(name, *[Term.of(x) for x in a])
def expected(d, opts, vals, f, wrap, J):
    fixed, el = args_of(d, opts, vals)
    return wrap(answer(d, fixed, el, [grid(opts, i) for i in range(3)], f, J))
def parts(opts): return "%s" % sorted((k, str(sorted((v or {}).items())) if isinstance(v, (dict, type(None))) else str(v)) for k, v in opts.items())
class Pool:
    """a pool of workers, in this process: results in the order of the tasks"""
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, *it, **k): return [f(*x) for x in zip(*it)]
    def imap(self, f, it, *a): return iter([f(x) for x in it])
    def starmap(self, f, it, *a): return [f(*x) for x in it]
    def close(self): pass
    join = terminate = shutdown = close
@functools.lru_cache(None)
def interface(cls, opts):
    """promoted inputs and outputs of the analysis of one point: {name: (units, value)}"""
    p = RealProblem(reports=False); p.model.add_subsystem("a", cls(**dict(INTERFACE[opts])), promotes=["*"])
    with warnings.catch_warnings(), contextlib.redirect_stdout(None): warnings.simplefilter("ignore"); p.setup(); p.final_setup()
    m = p.model; pm = prommap(m); out = {}
    for io in ("input", "output"):
        for a, me in m._var_abs2meta[io].items():
            if pm[a] != a: out.setdefault(pm[a], (me["units"], me["val"]))
    return out
INTERFACE = {}; BASE = set(om.Group().options._dict) | {"auto_order"}
class Anything:
    """solver settings and the like: no effect on which analysis is made"""
    def __getattr__(self, n): return self if not n.startswith("__") else object.__getattribute__(self, n)
    def __setattr__(self, n, v): pass
    def __getitem__(self, n): return self
    def __setitem__(self, n, v): pass
    def __call__(self, *a, **k): return self
class FakeModel(Anything):
    def __init__(self, p): object.__setattr__(self, "p", p)
    def add_subsystem(self, name, sub, promotes=None, promotes_inputs=None, promotes_outputs=None, **k):
        if self.p.sub is not None or not (promotes == ["*"] or promotes_inputs == ["*"] == promotes_outputs): raise S.Unsupported("unknown structure of the analysis model")
        object.__setattr__(self.p, "sub", sub); return sub
    def set_input_defaults(self, name, val=None, units=None):
        self.p.defu[name] = units; 
        if val is not None: self.p.set_val(name, val, units=units)
class FakeProblem(Anything):
    """OpenMDAO's Problem around the analysis of one point: the answers are an arbitrary function of the model's options and of every value set"""
    def __init__(self, model=None, **k):
        o = object.__setattr__; o(self, "sub", model); o(self, "given", {}); o(self, "defu", {}); o(self, "model", FakeModel(self)); o(self, "ran", False)
    def iface(self):
        o = {k: self.sub.options[k] for k in self.sub.options if k not in BASE}
        if CURRENT.get("key") is None: raise S.Unsupported("analysis outside a call")
        key = parts(o); INTERFACE[key] = tuple(o.items())
        with plain(): return interface(type(self.sub), key), key
    def set_val(self, name, val=None, units=None, indices=None):
        if indices is not None: raise S.Unsupported("set_val with indices")
        self.given[name] = (val, units)
    def __setitem__(self, name, val): self.set_val(name, val)
    def run_model(self, *a, **k): object.__setattr__(self, "ran", True)
    def arguments(self):
        I, key = self.iface(); el = {}
        for n, (v, u) in self.given.items():
            if n not in I: raise KeyError("%s is no input of the analysis" % n)
            mu, dv = I[n]; el[n] = [cv(Term.of(x), u, mu) if u and mu and u != mu else x for x in flat(v)]
            if CURRENT["f"] is numf: el[n] = [float(evalf(x, {}, mpmath.mp)) if isinstance(x, Term) else float(x) for x in el[n]]
            size = int(np.prod(np.shape(dv))); el[n] = el[n] * size if len(el[n]) == 1 else el[n]
            if len(el[n]) != size: raise ValueError("%s: wrong size" % n)
        return I, key, el
    def value(self, name, n, el, key): 
        nm = CURRENT["d"].alias.get(n, n)
        el = {k: v for k, v in el.items() if not (nm in CURRENT["d"].whole and k in FLIGHT)}
        return CURRENT["f"]("%s|%s" % (name, key), [e for k in sorted(el) for e in el[k]])
    def get_val(self, name, units=None, **k):
        I, key, el = self.arguments()
        if name in self.given: v = el[name]; 
        elif name not in I: raise KeyError(name)
        else: v = [self.value(name, name, el, key)] if self.ran else [0.0]
        a = np.empty(len(v), object); a[:] = [cv(Term.of(x), I[name][0], units) if units and units != I[name][0] else x for x in v]
        return self.typed(a)
    def __getitem__(self, name): return self.get_val(name)
    def typed(self, a):
        return a.astype(float) if CURRENT["f"] is numf else np.array([Term.of(x) for x in a.ravel()] + [None], dtype=object)[:-1].reshape(a.shape).view(OA)
    def compute_totals(self, of=None, wrt=None, return_format="flat_dict", **k):
        I, key, el = self.arguments()
        if return_format != "flat_dict" or not self.ran: raise S.Unsupported("compute_totals(return_format=%r)" % return_format)
        out = {}
        for o in of:
            for w in wrt:
                size = int(np.prod(np.shape(I[w][1]))); a = np.empty((1, size), object); u = self.defu.get(w) or I[w][0]
                fac = conv(u, I[w][0])[0] if u and I[w][0] and u != I[w][0] else 1
                for c in range(size): x = self.value("d%s/d%s[%d]" % (o, w, c), o, el, key); a[0, c] = x if fac == 1 else x * float(fac)
                out[o, w] = self.typed(a)
        return out
FLIGHT = ("fltcond|M", "fltcond|alpha", "fltcond|h"); CURRENT = {}
RealProblem = om.Problem
@contextlib.contextmanager
def plain():
    """the recorder off (a real OpenMDAO model is set up)"""
    from . import component as Cm
    with Cm.suspended(): yield
def point_options(d, cls, o):
    names = [k for k in cls().options if k not in BASE]; return {k: o[k] for k in names if k in o}
def point_answer(d, opts, vals, f, wrap, want, point):
    """the same, entry by entry from the analysis of the entry's own point"""
    key = parts(point_options(d, point, opts)); gr = [grid(opts, i) for i in range(3)]; sh = gr[0].shape; out = {}; par = {}; back = {v: k for k, v in d.alias.items()}
    def val(name, i, whole): 
        el = {n: flat(vals[n]) for n, _ in d.inputs}
        if not whole: el.update({fl: [float(g[i])] for fl, g in zip(FLIGHT, gr)})
        return f("%s|%s" % (name, key), [e for k in sorted(el) for e in el[k]])
    for t, o in d.tables:
        a = np.empty(sh, object)
        for i in np.ndindex(*sh): a[i] = val(back[o], i, False)
        out[t] = a
        for n, _ in d.inputs if want else ():
            J = np.empty((a.size, d.sizes[n]), object)
            for r, i in enumerate(np.ndindex(*sh)):
                for c in range(d.sizes[n]): J[r, c] = val("d%s/d%s[%d]" % (back[o], n, c), i, False)
            par[o, n] = J
    for t, o in d.scalars:
        a = np.empty((1,), object); a[0] = val(back[o], None, True); out[t] = a
        for n, _ in d.inputs if want else ():
            J = np.empty((d.sizes[n],), object)
            for c in range(d.sizes[n]): J[c] = val("d%s/d%s[%d]" % (back[o], n, c), None, True)
            par[o, n] = J
    out["partials"] = par
    return wrap(out)
@contextlib.contextmanager
def analysis(d, cls, f, wrap, J, point=None):
    mod = sys.modules[cls.__module__]
    if point is None:
        with table_analysis(d, cls, f, wrap, J): yield
        return
    import multiprocessing, multiprocessing.context, multiprocessing.pool, concurrent.futures
    saved = []
    def put(o, n, v): saved.append((o, n, o.__dict__[n])); setattr(o, n, v)
    pool = multiprocessing.Pool
    put(om, "Problem", FakeProblem)
    for o, n in ((multiprocessing, "Pool"), (multiprocessing.pool, "Pool"), (multiprocessing.pool, "ThreadPool"), (concurrent.futures, "ProcessPoolExecutor"), (concurrent.futures, "ThreadPoolExecutor")): 
        if n in o.__dict__: put(o, n, Pool)
    put(multiprocessing.context.BaseContext, "Pool", lambda self, *a, **k: Pool())
    for n, v in list(mod.__dict__.items()):
        if v is RealProblem: put(mod, n, FakeProblem)
        elif v == pool: put(mod, n, Pool)
    CURRENT.update(key=1, f=f, d=d)
    try: yield
    finally:
        CURRENT.clear()
        for o, n, v in reversed(saved): setattr(o, n, v)
@contextlib.contextmanager
def table_analysis(d, cls, f, wrap, J):
    mod = sys.modules[cls.__module__]
    if not hasattr(mod, "compute_training_data"): raise S.Unsupported("the analysis is not called compute_training_data")
    old = mod.compute_training_data
    def stub(inputs, surf_dict=None):
        fixed, el = given(d, inputs, surf_dict)
        return wrap(answer(d, fixed, el, [np.asarray(inputs[k], dtype=object) for k, _ in GRIDS], f, J))
    mod.compute_training_data = stub
    try: yield
    finally: mod.compute_training_data = old
def asterms(ans):
    w = lambda a: np.array([Term.of(x) for x in a.ravel()] + [None], dtype=object)[:-1].reshape(a.shape).view(OA)
    return {k: ({p: w(a) for p, a in v.items()} if k == "partials" else w(v)) for k, v in ans.items()}
def asfloats(ans): return {k: ({p: a.astype(float) for p, a in v.items()} if k == "partials" else v.astype(float)) for k, v in ans.items()}
def results(d, ans, vals, J):
    """outputs (or flat Jacobian entries) the contract expects for these inputs"""
    out = {}
    if J: 
        for (o, n), a in ans["partials"].items(): out["d%s/d%s" % (o, n)] = a.reshape(-1)
    else:
        for t, o in d.tables + d.scalars: out[o] = ans[t].reshape(-1)
        if d.extra: out[d.extra[0]] = out[d.extra[0]] + vals[d.extra[1]].reshape(-1)[0]
    return out
def equal(x, y):
    """syntactically: no question to the prover"""
    if isinstance(x, Term) or isinstance(y, Term): return x is y          # terms are interned
    return float(x) == float(y)
def same(a, b): return all(equal(x, y) for n in b for x, y in zip(np.asarray(a[n], dtype=object).ravel(), np.asarray(b[n], dtype=object).ravel()))

class DataRunner(Runner):
    """one history"""
    has_nn = False
    def __init__(self, cfg, mode): super().__init__(cfg, mode); self.has_nn = False; self.nreal = 3 if cfg.nsets == 1 else 2 * len(cfg.data.inputs) + 3
    def execute(self, want_jac=False, dual=False):
        R = Instance(); d = self.cfg.data; cfg = self.cfg
        try:
            with contextlib.redirect_stdout(None):
                comps = cfg.pair(); recs = []
                for c in comps: r = rec(c); c.setup(); r.resolve(); recs.append(r)
                r0 = recs[0]; d.sizes = {n: int(np.prod(r0.inputs[n].shape)) for n, _ in d.inputs}
                names = [n for n, _ in d.inputs] + ([d.extra[1]] if d.extra else [])
                sets = []; R.rec = type("HRec", (), {})(); R.rec.inputs = {}; R.rec.outputs = {}; R.rec.partials = {}; R.inp = {}; R.fb = {}; R.implicit = False; R.comp = comps[0]
                for s in range(cfg.nsets):
                    vs = {}
                    for n in names:
                        v0 = r0.inputs[n]; v = Var("%d:%s" % (s, n), v0.shape, v0.units, v0.val, "in"); R.rec.inputs[v.name] = v
                        if n in cfg.dom: self.cfg.dom.setdefault(v.name, cfg.dom[n])
                        self.setdom(v.name, v); vs[n] = self.symvar(v.name, v); R.inp[v.name] = vs[n]
                    sets.append(vs)
                with analysis(d, cfg.cls, symf, asterms, cfg.wantJ, cfg.point):
                    for call, ic, s in cfg.steps:
                        c, r = comps[ic], recs[ic]; I = RecDict(r.inputs, {n: sets[s][n].copy() if n in sets[s] else self.symvar(n, v) for n, v in r.inputs.items()}, True)
                        if call == "compute":
                            O = RecDict(r.outputs, {n: self.symvar(n, v, None, "prev:") for n, v in r.outputs.items()}, False)
                            c.compute(I, O); got = {o: O.d[o].reshape((-1,)) for _, o in d.tables + d.scalars}
                        else:
                            J = RecJ(r, cfg); c.compute_partials(I, J); got = {}
                            for _, o in d.tables + d.scalars:
                                for n, _ in d.inputs + ([(d.extra[1], None)] if d.extra and o == d.extra[0] else []):
                                    nr, nc = r.outputs[o].size, r.inputs[n].size
                                    got["d%s/d%s" % (o, n)] = np.array([entry(J, o, n, a, b, nc) for a in range(nr) for b in range(nc)] + [None], dtype=object)[:-1].view(OA)
            self.finish(R, sets, got, s, call == "partials", symf, asterms)
            return R
        except (S.Unsupported, RecursionError, PathAbort): raise
        except Exception as e: R.error = e; R.tb = traceback.format_exc(); return R
    def finish(self, R, sets, got, last, J, f, wrap):
        """which call's inputs do the answers belong to?"""
        d = self.cfg.data; full = self.full(); R.served = last
        def of(s):
            v = dict(sets[s], **({d.extra[1]: sets[last][d.extra[1]]} if d.extra else {}))
            return results(d, point_answer(d, full, v, f, wrap, J, self.point()) if self.cfg.point else expected(d, full, v, f, wrap, J), v, J)
        for s in [last] + [s for s in range(len(sets)) if s != last]:
            ref = of(s)
            if same(got, ref): R.served = s; break
        else: ref = of(last)
        if d.extra and J: ref["d%s/d%s" % d.extra] = np.ones(got["d%s/d%s" % d.extra].size)
        R.last = last; R.out = {}
        for n, a in got.items():
            R.out[n] = a; R.out["expected:" + n] = wrapflat(ref[n])
            if hasattr(R, "rec"):
                for m in (n, "expected:" + n): R.rec.outputs[m] = Var(m, (len(a),), None, None, "out")
    def point(self):
        from . import configs
        c = configs.find(self.cfg.point)
        if c is None: raise S.Unsupported("class %s" % self.cfg.point)
        return c
    def full(self):
        c = self.cfg.cls(**self.cfg.opts); return {k: c.options[k] for k in c.options}
    def real(self, sample, rng):
        if not hasattr(self, "_real"): self._real = HReal(self)
        return self._real, 1, {}
    turn = 0
    def values(self, real, sample, rng, nn):
        """arbitrary inputs; without a counterexample to follow, later calls differ from the first in one entry only (or in none)"""
        by = {}
        for t, v in (sample or {}).items():
            if isinstance(t, Term) and t.op == "v": by.setdefault(t.args[0], {})[int(t.args[-1])] = float(v)
        vals = {}
        for n in real.ins: vals[n] = np.array([by.get(n, {}).get(k, self.dom.sample(n, rng.random()) if n in self.dom.d else rng.uniform(0.2, 1.0)) for k in range(real.size[n])])
        if not by and self.cfg.nsets > 1:
            names = sorted({n.split(":", 1)[1] for n in real.ins})
            for s in range(1, self.cfg.nsets):
                for n in names: vals["%d:%s" % (s, n)] = vals["0:" + n].copy()
                if (self.turn + s) % (len(names) + 1) < len(names):
                    n = names[(self.turn + s) % (len(names) + 1)]; k = rng.randrange(real.size["%d:%s" % (s, n)])
                    vals["%d:%s" % (s, n)][k] = vals["%d:%s" % (s, n)][k] * (1 + rng.choice((1e-6, -1e-3, 0.05))) + (1e-5 if abs(vals["%d:%s" % (s, n)][k]) < 1e-9 else 0)
            self.turn += 1
        return vals, by
def wrapflat(a): return np.asarray(a, dtype=object).reshape(-1).view(OA) if np.asarray(a).dtype == object else np.asarray(a)
def entry(J, o, n, a, b, nc): return J.d[o, n][a, b]

class HReal:
    """the same history on the unmodified class"""
    implicit = False
    def __init__(self, runner):
        self.r = runner; self.cfg = runner.cfg; c = self.problem()[1][0]; self.comp = c; d = self.cfg.data
        names = [n for n, _ in d.inputs] + ([d.extra[1]] if d.extra else [])
        d.sizes = {n: int(np.prod(c._var_rel2meta[n]["shape"])) for n, _ in d.inputs}
        self.size = {"%d:%s" % (s, n): int(np.prod(c._var_rel2meta[n]["shape"])) for s in range(self.cfg.nsets) for n in names}; self.ins = list(self.size); self.outs = []
        self.units = {n: c._var_rel2meta[n.split(":", 1)[1]]["units"] for n in self.ins}
        for n in self.ins:
            if n not in runner.dom.d:
                m = n.split(":", 1)[1]
                if m in self.cfg.dom: self.cfg.dom.setdefault(n, self.cfg.dom[m])
                runner.setdom(n, Var(n, (self.size[n],), self.units[n], None, "in"))
    def problem(self):
        p = om.Problem(reports=False); cs = self.cfg.pair()
        for i, c in enumerate(cs): p.model.add_subsystem("c%d" % i, c)
        with warnings.catch_warnings(), contextlib.redirect_stdout(None):
            warnings.simplefilter("ignore"); p.setup(); p.final_setup()
        return p, cs
    def meta(self, n): return dict(shape=(self.size[n],) if n in self.size else self.shape[n], units=self.units.get(n))
    def f(self, vals):
        d = self.cfg.data; p, cs = self.problem()
        shp = lambda c, n: c._var_rel2meta[n]["shape"]
        sets = [{n.split(":", 1)[1]: np.asarray(vals[n], float).reshape(shp(cs[0], n.split(":", 1)[1])) for n in self.ins if n.startswith("%d:" % s)} for s in range(self.cfg.nsets)]
        with warnings.catch_warnings(), contextlib.redirect_stdout(None), analysis(d, self.cfg.cls, numf, asfloats, self.cfg.wantJ, self.cfg.point):
            warnings.simplefilter("ignore")
            for call, ic, s in self.cfg.steps:
                c = cs[ic]
                for n, v in sets[s].items(): c._inputs[n] = v
                if call == "compute": c.run_solve_nonlinear(); got = {o: c._outputs[o].copy().ravel() for _, o in d.tables + d.scalars}
                else:
                    c.run_linearize(); got = {}
                    for _, o in d.tables + d.scalars:
                        for n, _ in d.inputs + ([(d.extra[1], None)] if d.extra and o == d.extra[0] else []):
                            v = c._subjacs_info[c.pathname + "." + o, c.pathname + "." + n]["val"]; got["d%s/d%s" % (o, n)] = np.asarray(v.toarray() if hasattr(v, "toarray") else v, float).ravel()
        R = type("R", (), {})(); self.r.finish(R, sets, got, s, call == "partials", numf, asfloats); self.served = R.served; self.last = R.last
        self.shape = {n: (len(a),) for n, a in R.out.items()}; self.outs = list(R.out)
        return {n: np.asarray(a, float) for n, a in R.out.items()}
    def wrts(self): return self.ins

def claims(k):
    where = k.inst if hasattr(k, "inst") else k.real
    d = k.cfg.data; s, last = where.served, where.last
    if s != last:
        for n, _ in d.inputs:
            for e in range(d.sizes[n]):
                x = k.i("%d:%s" % (s, n), "raw", at=e_(k, n, e)) - k.i("%d:%s" % (last, n), "raw", at=e_(k, n, e)); lab = "data kept from an earlier call are served for unchanged inputs only: %s[%d]" % (n, e)
                k.le(lab, x, C(F("1e-9"))); k.le(lab, -x, C(F("1e-9")))
    for n in sorted(x for x in k.vars("o") if not x.startswith("expected:")):
        for e in range(k.size(n)): k.eq("%s belongs to the inputs of this call" % n, k.o(n, "raw", at=(e,)), k.o("expected:" + n, "raw", at=(e,)))
def e_(k, n, e):
    sh = k.shape("0:" + n); return tuple(int(x) for x in np.unravel_index(e, sh))
from fractions import Fraction as F
