"""Assembled groups: the real OpenMDAO setup provides the connection table (sources, units, src_indices), the leaf components' real code is
executed symbolically in the model's execution order, and the contract speaks about the group's promoted inputs and outputs."""
from fnmatch import fnmatch as name_matches
import random, warnings, traceback, re as _re
import numpy as np
import openmdao.api as om
from openmdao.core.component import Component
from openmdao.core.implicitcomponent import ImplicitComponent
from . import terms as T
from . import symarr as S
from .terms import *
from .symarr import SA, OA, DualT
from .component import *
from .component import floaty
from .contract import cv, conv, cf
from .explore import Explorer, PathAbort
from .nf import Dom, Norm

MARK = 7          # num_nodes of the structural instance in symbolic mode: dimensions and options equal to it stand for num_nodes

class GCfg:
    def __init__(self, cls, build=None, opts=None, dom=None, tag="", modes=None, defaults=None, wrap=None, nnopt="num_nodes", setvals=None, outer=None, free=(), opaque=(), stub=()):
        self.cls = cls; self.build = build; self.opts = dict(opts or {}); self.dom = dict(dom or {}); self.tag = tag; self.modes = modes; self.defaults = defaults; self.nnopt = nnopt; self.setvals = setvals or {}; self.outer = outer; self.free = tuple(free); self.opaque = tuple(opaque); self.stub = tuple(stub); self.signed = set(); self.pos = set()
    @property
    def name(self): return self.cls.__name__ + ("<%s>" % self.tag if self.tag else "")
    def make(self, nn):
        if self.build: return self.build(self.cls, nn)
        o = dict(self.opts)
        if self.nnopt: o[self.nnopt] = nn
        return self.cls(**o)

def problem(cfg, nn):
    p = om.Problem(reports=False)
    g = cfg.make(nn)
    if cfg.outer: cfg.outer(p.model, g, nn)
    else: p.model.add_subsystem("g", g, promotes=["*"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.setup(force_alloc_complex=False, mode="fwd"); p.set_solver_print(-1); p.final_setup()
    for c in p.model.system_iter(recurse=True, typ=om.ExplicitComponent):
        if any(name_matches(c.pathname, x) for x in cfg.stub): stub(c)
    return p, g

def stub(c):
    """replace an expensive external analysis by arbitrary values in runs of the real group (its contract is "true")"""
    rng = random.Random(c.pathname); vals = {n: np.array([rng.uniform(0.2, 1.0) for _ in range(int(np.prod(c._var_rel2meta[n]["shape"])))]).reshape(c._var_rel2meta[n]["shape"]) for n in c._var_rel_names["output"]} if hasattr(c, "_var_rel2meta") else {}
    def compute(inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        for n, v in vals.items(): outputs[n] = v
    c.compute = compute

def prommap(m):
    if hasattr(m, "_resolver"): return {a: m._resolver.abs2prom(a) for io in ("input", "output") for a in m._var_abs2meta[io]}
    out = {}
    for io in ("input", "output"): out.update(m._var_allprocs_abs2prom[io])
    return out

def balanced(c, prom):
    """both sides of each equation of a BalanceComp, whatever names the model gave them: lhs:<state>, rhs:<state> (promoted name of the state)"""
    for st, o in getattr(c, "_state_vars", {}).items() if isinstance(c, om.BalanceComp) else ():
        for side in ("lhs", "rhs"):
            if o.get(side + "_name"): yield "%s:%s" % (side, prom.get(c.pathname + "." + st, c.pathname + "." + st)), c.pathname + "." + o[side + "_name"]

def integrand_log():
    """remember add_integrand calls: they are made from outside the component's own setup"""
    from . import configs
    c = configs.find("Integrator")
    if c is None or getattr(c, "_vc_logged", False): return
    orig = c.add_integrand
    def add_integrand(self, *a, **k):
        self.__dict__.setdefault("_vc_integrands", [])
        if not self.__dict__.get("_vc_replaying"): self._vc_integrands.append((a, k))
        return orig(self, *a, **k)
    c.add_integrand = add_integrand; c._vc_logged = True

class GVar(Var): pass

class GroupRunner:
    def __init__(self, cfg, mode):
        self.cfg = cfg; self.mode = mode; self.dom = Dom(); self.norm = None; self.optvals = {}; self.has_nn = True
        integrand_log()
        self.nn0 = MARK if mode == "sym" else mode
        self.p, self.g = problem(cfg, self.nn0)
        m = self.p.model
        self.leaves = [s for s in m.system_iter(recurse=True, typ=Component)]
        self.conns = dict(m._conn_global_abs_in2out)
        self.prom = {}
        self.prom.update(prommap(m))
        self.meta_ = {}
        for io in ("input", "output"): self.meta_.update(m._var_abs2meta[io]) if io in m._var_abs2meta else None
        self.leaves = self.dependency_order(self.leaves)
        # inputs: promoted names of auto-ivc targets
        self.inames = {}          # auto_ivc abs -> promoted input name
        for tgt, src in self.conns.items():
            if src.startswith("_auto_ivc."): self.inames.setdefault(src, self.prom[tgt])
        for a in m._var_abs2meta["output"]:              # settings of the model's own IndepVarComps the user may change: arbitrary, not their defaults
            if self.prom[a] in cfg.free and not a.startswith("_auto_ivc."): self.inames[a] = self.prom[a]
        for src, n in self.inames.items():
            v = self.var(n, src, "in"); self.setdom(n, v)
    def dependency_order(self, leaves):
        """sources first (ties and cycles in the model's own order): the values a converged model settles on"""
        own = {}
        for c in leaves:
            for n in c._var_rel_names["output"]: own[c.pathname + "." + n] = c
        need = {}
        for c in leaves:
            srcs = {own.get(self.conns[c.pathname + "." + n]) for n in c._var_rel_names["input"]}
            need[c] = {x for x in srcs if x is not None and x is not c and not isinstance(x, ImplicitComponent)}
        todo, done, out = list(leaves), set(), []
        while todo:
            c = next((x for x in todo if need[x] <= done), todo[0])
            todo.remove(c); done.add(c); out.append(c)
        return out
    def gdim(self, d): return NN if self.mode == "sym" and d == MARK else d
    def var(self, name, abs_, kind):
        me = self.meta_[abs_]
        val = me.get("val")
        return Var(name, tuple(self.gdim(d) for d in me["shape"]) or (1,), me.get("units"), val, kind)
    setdom = None
    def sym_leaf_setup(self, c):
        """run the leaf's real setup again under the recorder"""
        c.__dict__.pop("_vc_rec", None)
        if self.mode == "sym":
            for k, me in c.options._dict.items():
                if me.get("val") == MARK and isinstance(me.get("val"), (int, np.integer)) and not isinstance(me.get("val"), bool): me["val"] = NN
            self._mark_attrs(c)
        c.setup()
        ints = c.__dict__.get("_vc_integrands")
        if ints:
            c._vc_replaying = True; c._state_vars = {}
            for a, k in ints: c.add_integrand(*a, **k)
            c._vc_replaying = False
        r = rec(c)
        for n, v in list(r.inputs.items()) + list(r.outputs.items()): pass
        return r
    def _mark_attrs(self, c):
        """vector sizes handed over outside the options (AddSubtractComp equations and the like)"""
        def mark(x):
            if isinstance(x, bool): return x
            if isinstance(x, (int, np.integer)) and x == MARK: return NN
            if isinstance(x, list): return [mark(y) for y in x]
            if isinstance(x, tuple): return tuple(mark(y) for y in x)
            return x
        for a in ("_add_systems", "_equations", "_split_list", "_concat_list"):
            if a in c.__dict__: setattr(c, a, mark(getattr(c, a)))
    def symvar(self, name, v, prefix=""):
        if v.sym: return SA(v.shape, lambda *i: V(prefix + name, *i))
        a = np.empty(v.shape, object)
        for k, i in enumerate(np.ndindex(*v.shape)): a[i] = V(prefix + name, k)
        return a.view(OA)
    def transfer(self, vals, tgt, tv):
        src = self.conns[tgt]; a = vals[src]; me = self.meta_[tgt]
        ind = me.get("src_indices")
        if ind is not None:
            flat = ind.shaped_array() if hasattr(ind, "shaped_array") else ind
            flat = np.asarray(flat).ravel()
            if self.mode == "sym":
                n = int(np.prod(self.meta_[src]["shape"]))
                if len(flat) == n and (flat == np.arange(n)).all(): pass
                elif len(flat) == 1 and not isinstance(a, SA): a = a.reshape((-1,))[[int(flat[0])]]
                elif len(flat) == 1 and flat[0] == 0: a = S.full((1,), a.at(*[0] * a.ndim))
                elif len(flat) == 1 and flat[0] == n - 1 and a.ndim == 1: a = S.full((1,), a.at(a.shape[0] - 1))
                else: raise Unsupported("src_indices with a symbolic number of nodes")
            else: a = a.reshape((-1,)).view(np.ndarray)[flat].view(OA)
        su = self.meta_[src].get("units"); tu = me.get("units")
        a = a.copy()
        if su and tu and su != tu:
            f, o = conv(su, tu)
            if o: a = a + C(o)
            if f != 1: a = a * cf(f)
        if isinstance(a, SA) or S.has_symdim(tv.shape):
            if not (len(a.shape) == len(tv.shape) and all(S.dsame(x, y) for x, y in zip(a.shape, tv.shape))):
                if not isinstance(a, SA): a = S.tosa(a)
                a = a.reshape(tv.shape)
            if not isinstance(a, SA): a = S.tosa(a)
            return a
        return a.view(np.ndarray).reshape(tv.shape).view(OA)
    def execute(self):
        R = Instance(); R.implicit = False; R.comp = self.g
        try:
            vals = {}; vars_in, vars_out = {}, {}
            R.inp = {}; R.out = {}; R.resid = {}; R.fb = {}; R.inner = {}
            for src, n in self.inames.items():
                v = self.var(n, src, "in"); vars_in[n] = v
                if n in self.cfg.setvals:
                    a = S.full(v.shape, C(q(self.setval(n, src))))
                else: a = self.symvar(n, v)
                vals[src] = a; R.inp[n] = a
            for c in self.leaves:
                path = c.pathname
                if path == "_auto_ivc": continue
                self.leaf(c, path, vals, R)
            for c in self.leaves:                             # what the solver-driven components of OpenMDAO are asked to balance
                if isinstance(c, ImplicitComponent) and not type(c).__module__.startswith("openconcept") or self.isopaque(c):
                    for n in c._var_rel_names["input"]:
                        a = c.pathname + "." + n; src = self.conns[a]
                        if src in vals: 
                            x = (self.transfer(vals, a, self.var(n, a, "in")), a); R.inner.setdefault(self.prom.get(a, a), x); R.inner.setdefault(a.removeprefix("g."), x)
                    for alias, a in balanced(c, self.prom):
                        if self.conns[a] in vals: R.inner[alias] = (self.transfer(vals, a, self.var(a, a, "in")), a)
            for s, a in vals.items():
                if s in self.inames: continue
                n = self.prom.get(s, s)
                vars_out[n] = self.var(n, s, "out"); R.out[n] = a
                if s != n and s not in vars_out: vars_out[s] = vars_out[n]; R.out[s] = a
            for n, (a, abs_) in R.inner.items():              # connected inputs of inner components, addressed by their promoted name
                if n not in vars_out and n not in vars_in: vars_out[n] = self.var(n, abs_, "in"); R.out[n] = a
            R.rec = type("GRec", (), {})(); R.rec.inputs = vars_in; R.rec.outputs = vars_out; R.rec.partials = {}
            return R
        except (Unsupported, RecursionError, PathAbort): raise
        except Exception as e:
            R.error = e; R.tb = traceback.format_exc(); return R
    def ordered(self, c, io): return list(c._var_rel2meta) and [n for n in c._var_rel_names[io]]
    def isopaque(self, c): return not isinstance(c, om.IndepVarComp) and any(name_matches(c.pathname, p) for p in self.cfg.opaque + self.cfg.stub)
    def leaf(self, c, path, vals, R):
        own = type(c).__module__.startswith("openconcept") or isinstance(c, om.KSComp)      # plain numpy: executed like the repository's own
        ins = list(c._var_rel_names["input"]); outs = list(c._var_rel_names["output"])
        absn = lambda n: path + "." + n
        def vout(n): return self.var(n, absn(n), "out")
        def vin(n): return self.var(n, absn(n), "in")
        if self.isopaque(c):     # contract "true": arbitrary outputs, nothing about its body is used
            for n in outs:
                nm = "state:" + self.prom.get(absn(n), absn(n)) if isinstance(c, ImplicitComponent) else "any:" + absn(n)
                vals[absn(n)] = self.symvar(nm, vout(n))
                if nm not in self.dom.d: self.setdom(nm, vout(n))
            return
        if isinstance(c, om.IndepVarComp):
            for n in outs:
                if absn(n) in vals: continue
                a = np.asarray(self.meta_[absn(n)]["val"], float); v = vout(n)
                if v.sym:
                    if a.size and (a == a.ravel()[0]).all(): vals[absn(n)] = S.full(v.shape, C(q(float(a.ravel()[0]))))
                    else: raise Unsupported("non-uniform constant vector of num_nodes entries")
                else:
                    vals[absn(n)] = S.f_array(a.reshape(v.shape))
            return
        def bind(n, v):
            a = bind_(n, v); R.inner.setdefault(self.prom.get(absn(n), absn(n)), (a, absn(n)))
            if not own: R.inner.setdefault(absn(n).removeprefix("g."), (a, absn(n)))      # inputs of foreign components also by their own name
            return a
        def bind_(n, v):
            src = self.conns[absn(n)]
            if src not in vals:
                sv = self.var(src, src, "out")
                nm = ("state:" if isinstance(self.leafof(src), ImplicitComponent) else "fb:") + self.prom.get(src, src)
                vals_fb = self.symvar(nm, sv); R.fb[self.prom.get(src, src)] = vals_fb
                if nm not in self.dom.d: self.setdom(nm, sv)
                return self.transfer(dict(vals, **{src: vals_fb}), absn(n), v)
            return self.transfer(vals, absn(n), v)
        if isinstance(c, om.ExecComp):
            env = {k: getattr(self.execmod(), k) for k in ("exp", "log", "sqrt", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "sum", "tanh", "abs", "maximum", "minimum", "log10", "arctan2", "dot", "ones", "zeros") if hasattr(self.execmod(), k)}
            env["pi"] = T.PI; env["np"] = self.execmod()
            for n, val in getattr(c, "_constants", {}).items(): env[n] = S.full((), T.Term.of(float(val))) if np.ndim(val) == 0 else val
            loc = {n: bind(n, vin(n)) for n in ins}
            ren = {n: n.replace(":", "__c__") for n in ins}
            for e in c._exprs:
                lhs, rhs = e.split("=", 1); lhs = lhs.strip()
                for n in ins:
                    if ":" in n: rhs = rhs.replace(n, ren[n])
                e2 = dict(env); e2.update({ren[n]: a for n, a in loc.items()})
                r = eval(rhs.strip(), {"__builtins__": {}}, e2)
                v = vout(lhs); tgt = S.full(v.shape, ZERO); tgt[...] = r
                vals[absn(lhs)] = tgt
            return
        if not own:
            # state of a solver-driven component, or a surrogate: opaque functions of nothing / of their inputs
            impl = isinstance(c, ImplicitComponent)
            pos = getattr(c, "vc_positive", ())               # an arbitrary positive function: the exponential of an arbitrary one
            uf = lambda name, *a: fn("exp", T.uf(name, *a)) if name.rsplit(".", 1)[1] in pos else T.uf(name, *a)
            loc = None if impl else {n: bind(n, vin(n)) for n in ins}
            if not impl and any(v.ndim and S.has_symdim(v.shape) for v in loc.values()):
                for n in outs:
                    v = vout(n)
                    if not v.sym: raise Unsupported("surrogate %s" % type(c).__name__)
                    vals[absn(n)] = SA(v.shape, lambda *i, n=n: uf("surrogate:%s.%s" % (path, n), *[S.tosa(loc[m]).at(*(i if loc[m].ndim == len(i) and S.has_symdim(loc[m].shape) else (0,) * loc[m].ndim)) for m in ins]))
                return
            for n in outs:
                v = vout(n); nm = "state:" + self.prom.get(absn(n), absn(n))
                if impl:
                    vals[absn(n)] = self.symvar(nm, v)
                    if nm not in self.dom.d: self.setdom(nm, v)
                else:
                    a = np.empty(v.shape, object)
                    for i in np.ndindex(*v.shape):
                        a[i] = uf("surrogate:%s.%s" % (path, n), *[Term.of(x) for m in ins for x in ((loc[m].view(np.ndarray)[i],) if loc[m].shape == v.shape else loc[m].view(np.ndarray).ravel())])
                    vals[absn(n)] = a.view(OA)
            return
        r = self.sym_leaf_setup(c)
        inp = {n: bind(n, v) for n, v in r.inputs.items()}
        if isinstance(c, ImplicitComponent):
            out = {}
            for n, v in r.outputs.items():
                nm = "state:" + self.prom.get(absn(n), absn(n)); out[n] = self.symvar(nm, v)
                if nm not in self.dom.d: self.setdom(nm, v)
            res = {n: self.symvar("prev:" + absn(n), v) for n, v in r.outputs.items()}
            Rv = RecDict(r.outputs, res, False)
            c.apply_nonlinear(RecDict(r.inputs, {k: v.copy() for k, v in inp.items()}, True), RecDict(r.outputs, {k: v.copy() for k, v in out.items()}, True), Rv)
            for n in r.outputs: R.resid[self.prom.get(absn(n), absn(n))] = Rv.d[n]; vals[absn(n)] = out[n]
            return
        out = {n: self.symvar("prev:" + absn(n), v) for n, v in r.outputs.items()}
        O = RecDict(r.outputs, out, False)
        c.compute(RecDict(r.inputs, inp, True), O)
        for n in r.outputs: vals[absn(n)] = O.d[n]
    def setval(self, n, src):
        """"default": the value the real set-up leaves in the variable"""
        x = self.cfg.setvals[n]
        if x == "default": x = float(np.asarray(self.p.model._outputs[src]).ravel()[0])
        return float(x)
    def leafof(self, a): return next((c for c in self.leaves if a.startswith(c.pathname + ".") and a[len(c.pathname) + 1:] in c._var_rel_names["output"]), None)
    def execmod(self): return S.NPF
    def explore(self, want_jac=False, dual=False, open_only=True, timeout=300):
        if self.norm is None: self.norm = Norm(self.dom)
        ints = [("ile", SymInt.of(NN - 2), True)] if self.mode == "sym" else []
        ex = Explorer(self.norm, open_only=open_only, int_facts=ints, timeout=timeout)
        res = []
        with symbolic():
            for facts, r in ex.run(self.execute): res.append((facts, r))
        self.pruned = ex.pruned; self.npaths = ex.paths
        return res
    def optterm(self, name, inst):
        v = self.g.options[name]
        return Term.of(v) if floaty(v) else v
    # ---------------------------------------------------------------- replay
    def real(self, sample, rng):
        nn = self.mode if isinstance(self.mode, int) else (int(sample.get("nn", 3)) if sample else 3)
        if not hasattr(self, "_real"): self._real = {}
        if nn not in self._real: self._real[nn] = GReal(self.cfg, nn, self)
        return self._real[nn], nn, {}
    def values(self, real, sample, rng, nn):
        by = {}
        for t, v in (sample or {}).items():
            if isinstance(t, Term) and t.op == "v":
                idx = tuple(int(a.c + sum(c * sample.get(k, 0) for k, c in a.m)) if isinstance(a, SymInt) else int(a) for a in t.args[1:])
                by.setdefault(t.args[0], {})[idx] = float(v)
        vals = {}
        for n in real.ins:
            sh = real.meta(n)["shape"]; a = np.empty(sh); d = by.get(n, {})
            for k, i in enumerate(np.ndindex(*sh)):
                a[i] = self.setval(n, real.srcof[n]) if n in self.cfg.setvals else (d[i] if i in d else (d[(k,)] if (k,) in d else self.dom.sample(n, rng.random()) if n in self.dom.d else 1.0))
            vals[n] = a
        for n in real.states:
            sh = real.meta(n)["shape"]; a = np.empty(sh); d = by.get("state:" + n, {})
            for k, i in enumerate(np.ndindex(*sh)): a[i] = d[i] if i in d else (d[(k,)] if (k,) in d else self.dom.sample("state:" + n, rng.random()) if "state:" + n in self.dom.d else 1.0)
            vals["state:" + n] = a
        return vals, by
GroupRunner.setdom = Runner.setdom

class GReal:
    """the real assembled group"""
    implicit = False
    def __init__(self, cfg, nn, runner):
        self.p, self.comp = problem(cfg, nn); m = self.p.model; self.cfg = cfg
        for c in m.system_iter(recurse=True, typ=om.ExplicitComponent):     # a feedback through zeros (a speed of 0, say) may not get off the ground
            if isinstance(c, om.IndepVarComp): continue
            for n in c._var_rel_names["output"]:
                a = np.array(m._outputs[c.pathname + "." + n]); m._outputs[c.pathname + "." + n] = np.where(a == 0, 1.0, a)
        self._start = m._outputs.asarray(copy=True)
        prom = {}
        prom.update(prommap(m))
        self.prom = prom
        meta = {}
        for io in ("input", "output"): meta.update(m._var_abs2meta[io])
        self.m_ = {}; self.ins = []; self.outs = []; self.srcof = {}
        for tgt, src in m._conn_global_abs_in2out.items():
            if src.startswith("_auto_ivc.") and prom[tgt] not in self.m_: self.m_[prom[tgt]] = meta[src]; self.ins.append(prom[tgt])
        for a in m._var_abs2meta["output"]:
            if a.startswith("_auto_ivc."): continue
            if prom[a] in cfg.free: self.m_[prom[a]] = meta[a]; self.ins.append(prom[a]); self.srcof[prom[a]] = a; continue
            self.m_[prom[a]] = meta[a]; self.outs.append(prom[a])
            if prom[a] != a: self.m_[a] = meta[a]
        self.inner = {}
        for a in m._var_abs2meta["input"]:
            n = prom[a]
            for n in (n, a.removeprefix("g.")):
                if n not in self.m_: self.m_[n] = meta[a]; self.outs.append(n); self.inner[n] = a
        for c in m.system_iter(recurse=True, typ=ImplicitComponent):
            for alias, x in balanced(c, prom): self.m_[alias] = meta[x]; self.outs.append(alias); self.inner[alias] = x
        self.states = {prom[c.pathname + "." + n]: c.pathname + "." + n for c in m.system_iter(recurse=True, typ=ImplicitComponent) for n in c._var_rel_names["output"]}
        self.absouts = {a: prom[a] for a in m._var_abs2meta["output"] if not a.startswith("_auto_ivc.") and prom[a] != a}
        for tgt, src in m._conn_global_abs_in2out.items():
            if src.startswith("_auto_ivc."): self.srcof[prom[tgt]] = src
    def meta(self, n): return self.m_[n]
    def f(self, vals):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            m = self.p.model
            m._outputs.set_val(self._start)           # feedback starts from the set-up's own values, not from an earlier run
            for n, v in vals.items():
                if n.startswith("state:"): m._outputs[self.states[n[6:]]] = np.asarray(v, float).reshape(self.m_[n[6:]]["shape"])
                else: m._outputs[self.srcof[n]] = np.asarray(v, float).reshape(self.m_[n]["shape"])
            old = None
            for it in range(60):                      # feedback of explicit quantities: repeat until nothing moves
                self.p.run_model(); new = m._outputs.asarray(copy=True)
                if old is not None and np.allclose(new, old, rtol=1e-12, atol=1e-18, equal_nan=True): break
                old = new
            else: self.relax(m)
            if self.states:
                m.run_apply_nonlinear()
                self.resid = {n: np.array(m._residuals[a]).ravel() for n, a in self.states.items()}
        out = {n: np.array(self.p.model._outputs[a]).ravel() for a in self.p.model._var_abs2meta["output"] if not a.startswith("_auto_ivc.") for n in {a, self.prom[a]}}
        for n, a in self.inner.items(): out[n] = np.array(self.p.model._inputs[a]).ravel()
        return out
    def relax(self, m):
        """plain repetition moves away from the fixed point: under-relaxed repetition"""
        x0 = m._outputs.asarray(copy=True); fixed = {}
        for n, a in list(self.states.items()) + list(self.srcof.items()): fixed[a] = np.array(m._outputs[a])
        for w in (0.5, 0.2):
            x = self._start if hasattr(self, "_start") else x0; m._outputs.set_val(x)
            for a, v in fixed.items(): m._outputs[a] = v
            x = m._outputs.asarray(copy=True)
            for it in range(int(60 / w)):
                self.p.run_model(); new = m._outputs.asarray(copy=True)
                if not np.isfinite(new).all(): break
                if np.allclose(new, x, rtol=1e-11, atol=1e-18): return
                x = x + w * (new - x); m._outputs.set_val(x)
                for a, v in fixed.items(): m._outputs[a] = v
        raise ValueError("feedback does not settle")
    def wrts(self): return self.ins
    def deriv(self, vals, o, w, c):
        from .replay import Real
        return Real.deriv(self, vals, o, w, c)
