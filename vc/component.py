"""Verification-condition generation for OpenMDAO components: the real class is instantiated and its real setup / compute /
compute_partials (apply_nonlinear / linearize) code is executed on symbolic values."""
import os, sys, fnmatch, contextlib, importlib, importlib.util, traceback, types, math, warnings
import numpy as np
os.environ.setdefault("OPENMDAO_REPORTS", "0")
warnings.filterwarnings("ignore")
import openmdao.api as om
from openmdao.core.component import Component
from openmdao.core.explicitcomponent import ExplicitComponent
from openmdao.core.implicitcomponent import ImplicitComponent
from . import symarr as S
from . import terms as T
from .terms import *
from .symarr import OA, SA, DualT
from .nf import Dom, Norm
from .explore import Explorer, Facts
from . import frame

REPO = os.environ.get("VERIF_REPO", "/repo")
NN = SymInt.sym("nn")

class Raised(Exception):
    def __init__(self, exc, tb): self.exc = exc; self.tb = tb

def repo_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "openconcept" or n.startswith("openconcept.")) and m is not None and ".tests" not in n]

_installed = []
@contextlib.contextmanager
def symbolic():
    """facade in every loaded openconcept module; OpenMDAO variable/partials declarations are recorded"""
    if _installed:
        yield; return
    _installed.append(1)
    saved = [(m, S.install(m)) for m in repo_modules()]
    old = {}
    def patch(cls, name, f):
        old[(cls, name)] = cls.__dict__.get(name)
        setattr(cls, name, f)
    def add_input(self, name, val=1.0, shape=None, units=None, desc="", **k): rec(self).inp(name, val, shape, units)
    def add_output(self, name, val=1.0, shape=None, units=None, res_units=None, desc="", lower=None, upper=None, **k): rec(self).out(name, val, shape, units, lower, upper)
    def declare_partials(self, of, wrt, dependent=True, rows=None, cols=None, val=None, method="exact", **k): rec(self).decl(of, wrt, dependent, rows, cols, val, method)
    def nothing(self, *a, **k): pass
    for c in (Component, ExplicitComponent, ImplicitComponent):
        if "add_input" in c.__dict__: patch(c, "add_input", add_input)
        if "add_output" in c.__dict__: patch(c, "add_output", add_output)
        if "declare_partials" in c.__dict__: patch(c, "declare_partials", declare_partials)
    patch(Component, "declare_coloring", nothing); patch(Component, "set_check_partial_options", nothing)
    def suspend():
        now = {(cls, name): cls.__dict__[name] for cls, name in old}
        for (cls, name), f in old.items(): delattr(cls, name) if f is None else setattr(cls, name, f)
        for m, s in saved: S.uninstall(m, s)
        def redo():
            for (cls, name), f in now.items(): setattr(cls, name, f)
            for m, s in saved: S.install(m)
        return redo
    _undo.append(suspend)
    try: yield
    finally:
        _undo.pop()
        for (cls, name), f in old.items():
            if f is None: delattr(cls, name)
            else: setattr(cls, name, f)
        for m, s in saved: S.uninstall(m, s)
        _installed.clear()

@contextlib.contextmanager
def suspended():
    """inside symbolic(): real OpenMDAO and numpy for a while"""
    if not _installed or not _undo: yield; return
    redo = _undo[-1]()
    try: yield
    finally: redo()
_undo = []
def rec(self):
    r = self.__dict__.get("_vc_rec")
    if r is None: r = Rec(self); self.__dict__["_vc_rec"] = r
    return r

class Var:
    def __init__(self, name, shape, units, val, kind, lower=None, upper=None):
        self.name = name; self.shape = shape; self.units = units; self.val = val; self.kind = kind; self.lower = lower; self.upper = upper
    @property
    def sym(self): return S.has_symdim(self.shape)
    @property
    def size(self):
        r = 1
        for d in self.shape: r = d * r
        return r

class Rec:
    def __init__(self, comp): self.comp = comp; self.inputs = {}; self.outputs = {}; self.partials = {}; self.decls = []
    def _var(self, name, val, shape, units, kind, lower=None, upper=None):
        if not isinstance(name, str): raise TypeError("The name argument should be a string.")
        d = self.inputs if kind == "in" else self.outputs
        if name in self.inputs or name in self.outputs: raise ValueError("Variable name '%s' already exists." % name)
        if shape is None:
            shape = val.shape if isinstance(val, (SA, np.ndarray)) else (np.shape(val) if isinstance(val, (list, tuple)) else ())
            if shape == (): shape = (1,)
        shape = S.ishape(shape)
        d[name] = Var(name, shape, units, val, kind, lower, upper)
    def inp(self, name, val, shape, units): self._var(name, val, shape, units, "in")
    def out(self, name, val, shape, units, lower, upper): self._var(name, val, shape, units, "out", lower, upper)
    def decl(self, of, wrt, dependent, rows, cols, val, method):
        if (rows is None) != (cols is None): raise ValueError("If one of rows/cols is specified, then both must be specified.")
        self.decls.append((of, wrt, dependent, rows, cols, val, method))
    def resolve(self):
        implicit = isinstance(self.comp, ImplicitComponent)
        wrts = list(self.inputs) + (list(self.outputs) if implicit else [])
        # OpenMDAO keeps one entry per (of, wrt) pattern pair; later identical patterns update the earlier entry in place
        merged = {}
        for of, wrt, dep, rows, cols, val, method in self.decls:
            k = (of if isinstance(of, str) else tuple(of), wrt if isinstance(wrt, str) else tuple(wrt))
            m = merged.setdefault(k, {})
            m["dep"] = dep
            if dep:
                m["val"] = val
                if rows is not None: m["rows"], m["cols"] = rows, cols
            if method != "exact": m["method"] = method
        for (ofs, wrs), mm in merged.items():
            ofl = [ofs] if isinstance(ofs, str) else list(ofs); wrl = [wrs] if isinstance(wrs, str) else list(wrs)
            for op in ofl:
                om_ = [o for o in self.outputs if fnmatch.fnmatchcase(o, op)] if op != "*" else list(self.outputs)
                if not om_ : raise ValueError("No matches were found for of=\"%s\"" % op)
                for wp in wrl:
                    wm = [w for w in wrts if fnmatch.fnmatchcase(w, wp)] if wp != "*" else wrts
                    if not wm: raise ValueError("No matches were found for wrt=\"%s\"" % wp)
                    for o in om_:
                        for w in wm:
                            if not mm["dep"]: self.partials.pop((o, w), None); continue
                            p = self.partials.get((o, w))
                            if p is None: p = self.partials[(o, w)] = {"rows": None, "cols": None, "val": None, "method": "exact"}
                            for k in ("rows", "cols", "val", "method"):
                                if mm.get(k) is not None: p[k] = mm[k]

class RecDict:
    """inputs / outputs / residuals vectors"""
    def __init__(self, vars_, data, ro): self.v = vars_; self.d = data; self.ro = ro; self.written = set()
    def __getitem__(self, k):
        if k not in self.d: raise KeyError("Variable name '%s' not found." % (k,))
        return self.d[k]
    def __contains__(self, k): return k in self.d
    def keys(self): return self.d.keys()
    def __iter__(self): return iter(self.d)
    def items(self): return self.d.items()
    def values(self): return self.d.values()
    def get_val(self, k, *a, **kw):
        if a or kw: raise Unsupported("get_val with units")
        return self[k]
    def __setitem__(self, k, val):
        if k not in self.d: raise KeyError("Variable name '%s' not found." % (k,))
        if self.ro: raise ValueError("Attempt to set value of '%s' in input vector when it is read only." % k)
        self.written.add(k)
        tgt = self.d[k]
        if isinstance(tgt, OA) and isinstance(val, SA):
            if val.shape == () or all(not isinstance(d, SymInt) for d in val.shape): val = conc(val)
            else: raise ValueError("Failed to set value of '%s': could not broadcast" % k)
        if isinstance(tgt, OA) and isinstance(val, S.Gath): raise Unsupported("assign gather")
        try: tgt[...] = val
        except ValueError:
            if isinstance(val, (SA, OA)): v = val.reshape(tgt.shape)
            else: v = S.f_asarray(val).reshape(tgt.shape)
            tgt[...] = v

def conc(sa):
    r = np.empty(sa.shape, object)
    for i in np.ndindex(*sa.shape): r[i] = sa.at(*i)
    return r.view(OA)

class RecJ:
    def __init__(self, rec, cfg):
        self.rec = rec; self.d = {}; self.initial = {}; self.written = set()
        for (o, w), p in rec.partials.items():
            if p["method"] != "exact": continue
            self.d[(o, w)] = self._init(o, w, p)
    def _init(self, o, w, p):
        r = self.rec
        vo = r.outputs[o]; vw = r.inputs.get(w) or r.outputs[w]
        if p["rows"] is not None:
            rows = p["rows"]
            n = S.f_size(rows) if isinstance(rows, (SA, np.ndarray)) else len(rows)
            nc = S.f_size(p["cols"]) if isinstance(p["cols"], (SA, np.ndarray)) else len(p["cols"])
            if not S.dsame(n, nc): raise RuntimeError("d(%s)/d(%s): rows and cols must be of equal length" % (o, w))
            sh = (n,)
        else: sh = (vo.size, vw.size)
        val = p["val"]
        if isinstance(val, type(None)): dflt = None
        else: dflt = val
        tag = "stale:%s:%s" % (o, w)
        if S.has_symdim(sh): a = SA(sh, lambda *i: V(tag, *i))
        else:
            a = np.empty(sh, object)
            for i in np.ndindex(*sh): a[i] = V(tag, *i)
            a = a.view(OA)
        a_val = None
        if dflt is not None:
            from .spf import SpM
            if isinstance(dflt, SpM): dflt = dflt.a
            if p["rows"] is not None:
                if isinstance(dflt, (SA, np.ndarray, list)) and S.f_size(S.f_asarray(dflt)) is not None:
                    dv = S.f_asarray(dflt)
                    if dv.ndim and not (all(S.dsame(x, y) for x, y in zip(dv.shape, sh)) and len(dv.shape) == 1): raise ValueError("d(%s)/d(%s): If rows and cols are specified, val must be a scalar or have the same shape" % (o, w))
                a_val = S.full(sh, ZERO); a_val[...] = dflt
            else:
                a_val = S.full(sh, ZERO)
                dv = S.f_asarray(dflt)
                if dv.ndim == 0: a_val[...] = dflt
                else:
                    d2 = S.f_atleast_2d(dv)
                    if isinstance(d2, SA) or len(sh) == len(d2.shape) and all(S.dsame(x, y) for x, y in zip(d2.shape, sh)):
                        if isinstance(d2, SA) and not all(S.dsame(x, y) for x, y in zip(d2.shape, sh)): d2 = d2.reshape(sh)
                        a_val[...] = d2
                    else: a_val[...] = d2.reshape(sh)
        else: a_val = S.full(sh, ZERO)
        self.initial[(o, w)] = a_val
        return a
    def __contains__(self, k): return k in self.d
    def keys(self): return self.d.keys()
    def _key(self, k):
        if k not in self.d:
            if k in self.rec.partials: raise Unsupported("partial %s is approximated and also set" % (k,))
            raise KeyError("Variable name pair (\"%s\", \"%s\") must first be declared." % k)
        return k
    def __getitem__(self, k):
        self._key(k); self.written.add(k)
        return self.d[k]
    def __setitem__(self, k, val):
        from .spf import SpM
        self._key(k); self.written.add(k)
        tgt = self.d[k]
        if isinstance(val, SpM): val = val.a
        dense = self.rec.partials[k]["rows"] is None
        if isinstance(val, S.Gath): raise Unsupported("assign gather to partial")
        if isinstance(tgt, OA) and isinstance(val, SA):
            if S.has_symdim(val.shape): raise ValueError("Sub-jacobian for key %s has the wrong shape" % (k,))
            val = conc(val)
        if dense:
            v = S.f_atleast_2d(val)
            if v.shape != (1, 1) and not (len(v.shape) == len(tgt.shape) and all(S.dsame(a, b) for a, b in zip(v.shape, tgt.shape))): v = v.reshape(tgt.shape)
            tgt[...] = v
        else:
            if val is tgt: return
            if isinstance(val, SA) and val.ndim > 1: 
                # numpy allows leading unit dimensions only
                if all(not isinstance(d, SymInt) and d == 1 for d in val.shape[:-1]): val = val.reshape((val.shape[-1],))
            tgt[...] = val

# ------------------------------------------------------------------------------------------------ domains
UNITDOM = {"K": (230., 420.), "degK": (230., 420.), "Pa": (2e4, 1.1e5), "kPa": (20., 110.), "psi": (2., 30.), "kg": None, "m": None, "ft": None, "m**2": None, "ft**2": None,
           "m**3": None, "kg/m**3": (0.2, 1.4), "kg/s": None, "lb": None, "inch": None, "inch**2": None, "m/s": None, "s": None, "J/kg/K": None, "W/m/K": None, "W/m**2/K": None, "kg/m/s": None, "1/m": None}
POSUNITS = set(UNITDOM) | {"lbf", "lbm", "USD", "kn", "degR", "mm", "km", "NM", "rpm", "min", "h", "MPa", "W/kg", "kW/kg", "W*h/kg", "kg/W", "W/K", "m/s**2", "J/kg", "J/(kg*K)", "1/s"}
NUMDOM = {"T": (230., 420.)}

def vdefault(var):
    v = var.val
    try:
        if isinstance(v, SA): v = v.at(*[0] * v.ndim)
        elif isinstance(v, np.ndarray): v = v.view(np.ndarray).ravel()[0] if v.size else 1.0
        elif isinstance(v, (list, tuple)): v = np.ravel(v)[0]
        return float(v)
    except Exception: return 1.0

def default_dom(name, var):
    v = vdefault(var); u = var.units
    d = UNITDOM.get(u)
    base = name.split("|")[-1]
    if d: return d
    a = abs(v)
    if v > 0:
        if u in POSUNITS or v != 1.0: return (0.35 * a, 2.6 * a)
        return (0.2, 3.0) if u is None else (-2.0, 3.0)
    if v < 0: return (-2.6 * a, 1.2 * a)
    if u in POSUNITS: return (0.5, 50.0)
    return (-2.0, 3.0)

# ------------------------------------------------------------------------------------------------ configurations
class Cfg:
    """one verified instance family: class, concrete (structural) options, symbolic options, domains"""
    def __init__(self, cls, opts=None, build=None, dom=None, symopts=None, nosym=(), tag="", modes=None, pos=(), signed=(), requires=None, integer=(), shapes=None, drop=(), nnslot=False, extra=None):
        self.nnslot = nnslot; self.extra = extra
        self.cls = cls; self.opts = dict(opts or {}); self.build = build; self.dom = dict(dom or {}); self.symopts = symopts; self.nosym = set(nosym)
        self.tag = tag; self.modes = modes; self.pos = set(pos); self.signed = set(signed); self.requires = requires; self.drop = set(drop)
    @property
    def name(self): return self.cls.__name__ + ("<%s>" % self.tag if self.tag else "")
    cur_nn = 3; setups = 1; hist = False
    def make(self):
        if self.build: return self.build(self.cls, self.cur_nn) if self.nnslot else self.build(self.cls)
        return self.cls(**self.opts)

def floaty(v): return isinstance(v, (float, np.floating)) and not isinstance(v, bool)

class Instance:
    """result of executing one component symbolically on one path"""

def other_configs(cfg):
    import copy
    from . import configs
    me = copy.copy(cfg); me.hist = False; out = [me]
    try: out += [c for c in configs.cfgs_of(cfg.cls) if c.name != cfg.name][:3]
    except Exception: pass
    return out
class Runner:
    def __init__(self, cfg, mode):
        """mode: 'sym' (symbolic num_nodes) or an int (concrete num_nodes)"""
        self.cfg = cfg; self.mode = mode
        self.dom = Dom(); self.optvals = {}
        self.norm = None
    # -------------------------------------------------- build + setup (symbolic)
    def instantiate(self):
        self.cfg.cur_nn = NN if self.mode == "sym" else self.mode
        c = self.cfg.make()
        nnopt = "num_nodes" in c.options or self.cfg.nnslot
        d = c.options._dict
        self.has_nn = nnopt
        for k in list(d):
            meta = d[k]
            val = meta.get("val", None)
            if k == "num_nodes":
                meta["val"] = NN if self.mode == "sym" else self.mode
                continue
            if k in ("assembled_jac_type", "distributed", "run_root_only", "always_opt", "use_jit", "default_shape", "derivs_method") or k in self.cfg.nosym or k in self.cfg.opts and not floaty(val): continue
            if type(val) is object or val is None: continue
            if floaty(val) or (k in (self.cfg.symopts or ()) and isinstance(val, (int, float))):
                self.optvals[k] = float(val)
                meta["val"] = V("opt:" + k)
            elif isinstance(val, np.ndarray) and val.dtype.kind == "f":
                meta["val"] = S.f_array(val)
        for k, v in self.optvals.items():
            a = abs(v)
            b = self.cfg.dom.get("opt:" + k) or ((0.5 * a, 2 * a) if v > 0 else ((0.0, 1.0) if v == 0 else (-2 * a, -0.5 * a)))
            if v > 0 and v <= 1 and not self.cfg.dom.get("opt:" + k): b = (0.5 * a, min(2 * a, 1.0) if v < 1 else 1.0)
            self.dom.set("opt:" + k, *b)
        return c
    def setup(self):
        c = self.instantiate()
        r = rec(c); static = (dict(r.inputs), dict(r.outputs), list(r.decls))
        c.setup()
        for _ in range(self.cfg.setups - 1):                # set up again: what the constructor added stays, the rest is added anew
            r.inputs, r.outputs, r.decls = dict(static[0]), dict(static[1]), list(static[2]); c.setup()
        r.resolve()
        self.comp = c; self.rec = r
        for n, v in list(r.inputs.items()) + list(r.outputs.items()):
            self.setdom(n, v)
        return c, r
    def setdom(self, n, v):
        cd = self.cfg.dom
        if n in cd: self.dom.set(n, *cd[n])
        else:
            hit = [p for p in cd if any(ch in p for ch in "*?") and fnmatch.fnmatchcase(n, p)]
            b = cd[hit[0]] if hit else default_dom(n, v)
            if any(fnmatch.fnmatchcase(n, p) for p in self.cfg.signed) and b[0] >= 0: b = (-b[1], b[1])
            if any(fnmatch.fnmatchcase(n, p) for p in self.cfg.pos) and b[0] < 0: b = (0.3, max(b[1], 3.0))
            self.dom.set(n, *b)
        h = cd.get("hard:" + n)
        if h: self.dom.hard[n] = h
    def symvar(self, n, v, dual=None, prefix=""):
        def el(*i):
            t = V(prefix + n, *i)
            if dual is not None: return DualT(t, dual(n, i))
            return t
        if v.sym: return SA(v.shape, lambda *i: el(*i))
        a = np.empty(v.shape, object)
        for k, i in enumerate(np.ndindex(*v.shape)): a[i] = el(k)
        return a.view(OA)
    # -------------------------------------------------- execution
    written = None; wide = 3
    def others(self, want_jac):
        """earlier uses of the same class: another instance like this one, and instances with other options"""
        for oc in other_configs(self.cfg):
            try: q = Runner(oc, self.mode if self.mode == "sym" or not oc.modes else 2); c, r = q.setup(); q.earlier(c, r, want_jac)
            except (Unsupported, ValueError, IndexError, KeyError): pass
    def earlier(self, c, r, want_jac, pre="hist:"):
        """an arbitrary earlier call"""
        for n, v in list(r.inputs.items()) + (list(r.outputs.items()) if isinstance(c, ImplicitComponent) else []):
            if pre and n in self.dom.d and pre + n not in self.dom.d: self.dom.set(pre + n, *self.dom.d[n])
            if pre and n in self.dom.hard: self.dom.hard[pre + n] = self.dom.hard[n]
        I = lambda: RecDict(r.inputs, {n: self.symvar(n, v, None, pre) for n, v in r.inputs.items()}, True)
        O = lambda: RecDict(r.outputs, {n: self.symvar(n, v, None, pre) for n, v in r.outputs.items()}, isinstance(c, ImplicitComponent))
        if isinstance(c, ImplicitComponent):
            c.apply_nonlinear(I(), O(), RecDict(r.outputs, {n: self.symvar(n, v, None, "prev:hist:") for n, v in r.outputs.items()}, False))
            if want_jac: c.linearize(I(), O(), RecJ(r, self.cfg))
        else:
            c.compute(I(), O())
            if want_jac: c.compute_partials(I(), RecJ(r, self.cfg))
    def execute(self, want_jac=True, dual=False):
        """run on the current exploration path (ORACLE set)"""
        R = Instance()
        try:
            if self.cfg.hist: frame.restore(self.cfg.cls); self.others(want_jac)
            share = frame.common(self.cfg.cls) if not self.cfg.hist and self.wide > 0 else None
            c, r = self.setup()
            if share is not None: self.written = sorted(set(self.written or ()) | set(frame.written(share, frame.common(self.cfg.cls))))
            R.rec = r; R.comp = c
            if self.cfg.hist: self.earlier(c, r, want_jac and not dual, "" if dual else "hist:")    # a complex step follows a call at the nominal point
            self.wide -= 1; before = frame.state(c, self.wide > 0) if not self.cfg.hist else None
            S.CSMODE[0] = dual
            seed = (lambda n, i: V("seed:" + n, *i)) if dual else None
            inp = {n: self.symvar(n, v, seed) for n, v in r.inputs.items()}
            R.implicit = isinstance(c, ImplicitComponent)
            if dual: c.under_complex_step = True
            if R.implicit:
                out = {n: self.symvar(n, v, seed) for n, v in r.outputs.items()}
                res = {n: self.symvar(n, v, None, "prev:") for n, v in r.outputs.items()}
                I = RecDict(r.inputs, {k: v.copy() for k, v in inp.items()}, True)
                O = RecDict(r.outputs, {k: v.copy() for k, v in out.items()}, True)
                Rv = RecDict(r.outputs, res, False)
                c.apply_nonlinear(I, O, Rv); R.out = Rv.d
                if want_jac:
                    J = RecJ(r, self.cfg)
                    I = RecDict(r.inputs, {k: v.copy() for k, v in inp.items()}, True); O = RecDict(r.outputs, {k: v.copy() for k, v in out.items()}, True)
                    c.linearize(I, O, J); R.J = J
            else:
                out = {n: self.symvar(n, v, None, "prev:") for n, v in r.outputs.items()}
                I = RecDict(r.inputs, {k: v.copy() for k, v in inp.items()}, True)
                O = RecDict(r.outputs, out, False)
                c.compute(I, O); R.out = O.d
                if want_jac:
                    J = RecJ(r, self.cfg)
                    c.compute_partials(RecDict(r.inputs, {k: v.copy() for k, v in inp.items()}, True), J)
                    R.J = J
            if before is not None: self.written = sorted(set(self.written or ()) | set(frame.written(before, frame.state(c, self.wide > 0))))
            return R
        except (Unsupported, RecursionError): raise
        except Exception as e:
            from .explore import PathAbort
            if isinstance(e, PathAbort): raise
            R.error = e; R.tb = traceback.format_exc()
            return R
        finally: S.CSMODE[0] = False
    def explore(self, want_jac=True, dual=False, open_only=True, timeout=240):
        """list of (facts, Instance) over all paths; an arbitrary earlier call comes first when calls leave something behind"""
        frame.save(self.cfg.cls)
        res = self._explore(want_jac, dual, open_only, timeout)
        if self.written and not self.cfg.hist:
            self.cfg.hist = True
            res = self._explore(want_jac, dual, open_only, timeout)
        return res
    def _explore(self, want_jac, dual, open_only, timeout):
        if self.norm is None: self.norm = Norm(self.dom)
        ints = [("ile", SymInt.of(NN - 2), True)] if self.mode == "sym" else []
        ex = Explorer(self.norm, open_only=open_only, int_facts=ints, timeout=timeout)
        res = []
        with symbolic():
            for facts, r in ex.run(lambda: self.execute(want_jac, dual)): res.append((facts, r))
        self.pruned = ex.pruned; self.npaths = ex.paths
        return res
    def optterm(self, name, inst):
        if name in self.optvals: return V("opt:" + name)
        v = inst.comp.options[name]
        return Term.of(v) if floaty(v) else v
