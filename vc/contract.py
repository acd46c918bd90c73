"""Value contracts: postconditions over the inputs and outputs of a component (or an assembled group), proved on the symbolically executed
real code for every node, and evaluated on the real component to replay counterexamples.

A contract is a Python function of a context k:
   k.i(name, unit)   input at the generic node (scalar inputs: their value), in the unit asked for (default: SI base units)
   k.o(name, unit)   output;   k.res(name): residual of an implicit component
   k.opt(name)       option value (float options are symbols)
   k.when(cond)      guard (case split)
   k.eq / k.le / k.lt(label, lhs, rhs)
"""
import random, time, math, functools
import numpy as np, mpmath
from fractions import Fraction
from . import terms as T
from . import symarr as S
from .terms import *
from .symarr import SA, OA, DualT
from .component import *
from .prove import *
from .deriv import at, instantiate_foralls
from .replay import Real
from .unit import raising, or_setup, MissingVariable, check_setup, Result, env_values, build_real, keyset, magnitude, resample, Unsupported
from openmdao.utils.units import _find_unit, unit_conversion

CONTRACTS = {}        # property -> list of Contract

class Contract:
    def __init__(self, prop, cls, fn, **kw):
        self.prop = prop; self.cls = cls; self.fn = fn; self.kw = kw
        self.label = kw.get("label") or fn.__name__.strip("_") or ""
    def body(self, k): k.prop = self.prop; self.fn(k)
def contract(prop, cls, **kw):
    """decorator; prop may name several properties"""
    def d(fn):
        for p in prop.split():
            for c in (cls.split() if isinstance(cls, str) else [cls]): CONTRACTS.setdefault(p, []).append(Contract(p, c, fn, **kw))
        return fn
    return d

@functools.lru_cache(None)
def conv(src, dst):
    """(factor, offset): value in dst = (value in src + offset) * factor; dst None: SI base units"""
    if src is None: return (Fraction(1), Fraction(0))
    if dst is None:
        u = _find_unit(src)
        if u is None: raise Unsupported("unknown unit %r" % src)
        return (q(float(u._factor)), q(float(u._offset)))
    if src == dst: return (Fraction(1), Fraction(0))
    f, o = unit_conversion(src, dst)
    return (q(float(f)), q(float(o)))
@functools.lru_cache(None)
def cf(f):
    """conversion factor as a term; the float factors between degrees, revolutions and radians stand for rational multiples of pi"""
    import math
    for w, t in ((math.pi / 180, PI / 180), (180 / math.pi, 180 / PI)):
        r = Fraction(float(f) / w).limit_denominator(1000)
        if f and r and f.denominator > 10 ** 6 and abs(float(r) * w / float(f) - 1) < 1e-14: return C(r) * t
    return C(f)
def cv(t, src, dst):
    f, o = conv(src, dst)
    return (t + C(o)) * cf(f) if o else (t * cf(f) if f != 1 else t)

class K:
    """contract context"""
    def __init__(self, want=None): self.want = want; self.pairs = []; self.labels = []; self.mags = {}
    # ---- values
    def i(self, name, units=None, at=None): return self._val("i", name, units, at)
    def o(self, name, units=None, at=None): return self._val("o", name, units, at)
    def res(self, name, units=None, at=None): return self._val("r", name, units, at)
    def v(self, name, units=None, at=None): return self._val("o" if name in self.vars("o") else "i", name, units, at)
    def fb(self, name, units=None, at=None): return self._val("f", name, units, at)
    def declared(self, kind, name):
        d = self.vars(kind)
        if name not in d and "." not in name: raise MissingVariable(kind, name)
        return d[name]
    def has(self, name): return name in self.vars("i") or name in self.vars("o")
    def subsystem(self, comp):
        p = (self.real if hasattr(self, "real") else self.r).p
        return p.model._get_subsystem(comp) or p.model._get_subsystem("g." + comp)
    def same_setting(self, label, a, b):
        """a setting (number, string, table) handed to an inner component is the one asked for"""
        try: x, y = [np.asarray(v, float).ravel() for v in (a, b)]
        except (TypeError, ValueError): x, y = np.array([0.0]), np.array([0.0 if str(a) == str(b) else 1.0])
        self.eq(label + ": size", C(len(x)) + 100, C(len(y)) + 100)
        for u, v in zip(x, y): self.eq(label, C(q(float(u))) + 100, C(q(float(v))) + 100)
    def grid(self, comp, name, units=None):
        """values of one coordinate of an interpolation table's training grid, in the given units"""
        c = self.subsystem(comp)
        j = list(c.pnames).index(name); u = c._var_rel2meta[name]["units"]
        f, o = unit_conversion(u, units) if u and units and u != units else (1.0, 0.0)
        return [(float(x) + o) * f for x in np.asarray(c.inputs[j]).ravel()]
    @property
    def cls(self): return self.cfg.cls
    @property
    def nodeint(self): return self.node if isinstance(self.node, int) else None
    # ---- claims
    def claim(self, label, l, rel, r, mag=None):
        if label not in self.labels: self.labels.append(label)
        if self.want is None or label == self.want:
            self.pairs.append((label, Term.of(l), Term.of(r), rel))
            if mag is not None: self.mags[len(self.pairs) - 1] = mag
    def eq(self, label, l, r, mag=None):
        """mag: magnitude of the summands (only used as the rounding scale of real runs)"""
        self.claim(label, l, "=", r, mag)
    def le(self, label, l, r): self.claim(label, l, "<=", r)
    def by(self, label, x, expr, lo=None, hi=None):
        """lo <= x <= hi through an equal expression whose structure shows it"""
        self.claim(label, x, "=", expr)
        if lo is not None: self.claim(label, lo, "<=", expr)
        if hi is not None: self.claim(label, expr, "<=", hi)
    def lt(self, label, l, r): self.claim(label, l, "<", r)
    def unit(self, label, name, u):
        """the variable is declared in (an equivalent of) this unit"""
        if not self.has(name): raise MissingVariable("variable", name)
        d = self.units(name); ok = d == u or (d is not None and u is not None and conv(d, u) == (1, 0))
        self.claim(label, C(1 if ok else 0), "=", C(1))
    def case(self, *conds):
        """conjunction of guards"""
        return all(self.when(c) for c in conds)
    @staticmethod
    def exp(x): return fn("exp", Term.of(x))
    @staticmethod
    def log(x): return fn("log", Term.of(x))
    @staticmethod
    def sqrt(x): return power(Term.of(x), C(Fraction(1, 2)))
    @staticmethod
    def pow(x, e): return power(Term.of(x), Term.of(e))
    @staticmethod
    def tanhc(x): return fn("tanhc", Term.of(x))
    @staticmethod
    def tanh(x): return Term.of(x).tanh()
    @staticmethod
    def sin(x): return fn("sin", Term.of(x))
    @staticmethod
    def cos(x): return fn("cos", Term.of(x))
    @staticmethod
    def tan(x): return fn("tan", Term.of(x))
    @staticmethod
    def atan(x): return fn("atan", Term.of(x))
    @staticmethod
    def abs(x): return absolute(Term.of(x))
    @staticmethod
    def max(a, b): return maximum(Term.of(a), Term.of(b))
    @staticmethod
    def min(a, b): return minimum(Term.of(a), Term.of(b))
    @staticmethod
    def ite(c, a, b): return ite(bof(c), Term.of(a), Term.of(b))

def convert_at(x): return x

class KProof(K):
    def __init__(self, runner, inst, node, want=None, dry=None):
        super().__init__(want); self.r = runner; self.inst = inst; self.node = node; self.dry = dry; self.answers = []; self.mode = runner.mode
        self.nn = NN if runner.mode == "sym" else runner.mode
    def vars(self, kind): return self.inst.rec.inputs if kind == "i" else self.inst.rec.outputs
    def meta(self, name): return self.inst.rec.inputs.get(name) or self.inst.rec.outputs[name]
    def units(self, name): return self.meta(name).units
    def size(self, name): return self.meta(name).size
    def shape(self, name): return self.meta(name).shape
    def index(self, var, a):
        """index tuple into the array"""
        sh = var.shape
        if a is None: a = ()
        elif not isinstance(a, tuple): a = (a,)
        if len(a) == len(sh): return a
        n0 = sh[0]
        if len(a) == len(sh) - 1:
            if isinstance(n0, SymInt) or (self.r.mode != "sym" and n0 == self.r.mode and (self.node is not None) and n0 != 1): return (self.node,) + a
            if n0 == 1: return (0,) + a
        if len(sh) == 1 and not a: 
            if n0 == 1: return (0,)
        raise Unsupported("which element of %s%s?" % (var.name, sh))
    def _val(self, kind, name, units, a):
        var = self.declared("o" if kind in "orf" else "i", name)
        idx = self.index(var, a)
        if self.dry is not None:
            try: return self._val2(kind, name, units, var, idx)
            except Unsupported: return V("dry:%s:%s" % (kind, name))          # only the claims' names are collected here
        return self._val2(kind, name, units, var, idx)
    def _val2(self, kind, name, units, var, idx):
        if kind == "f":
            d = self.inst.fb.get(name); t = at(self.inst.out[name] if d is None else d, idx)
        elif kind == "r" and hasattr(self.inst, "inp") and hasattr(self.inst, "fb"): t = at(self.inst.resid[name], idx)
        elif kind == "i": t = at(self.inst.inp[name], idx) if hasattr(self.inst, "inp") else self._sym(var, idx)
        elif kind == "o" and self.inst.implicit: t = self._sym(var, idx)
        else: t = at(self.inst.out[name], idx)
        if isinstance(t, DualT): t = t.re
        t = Term.of(t)
        if units == "raw": return t
        return cv(t, var.units, units)
    def _sym(self, var, idx):
        if var.sym: return V(var.name, *idx)
        return V(var.name, int(np.ravel_multi_index(idx, var.shape)))
    def D(self, out, wrt, units=None, a=None, b=None):
        """derivative of an output element with respect to an input element, SI"""
        ex = T.ORACLE
        o = self.vars("o")[out]; w = self.vars("i")[wrt]
        t = ex.resolve(Term.of(at(self.inst.out[out], self.index(o, a)))) if ex is not None else Term.of(at(self.inst.out[out], self.index(o, a)))
        d = diff(t, self._sym(w, self.index(w, b)))
        return d * cf(conv(o.units, None)[0]) / cf(conv(w.units, None)[0])
    def opt(self, name): return self.r.optterm(name, self.inst)
    def statevars(self): return self.inst.comp._state_vars
    @property
    def cfg(self): return self.r.cfg
    def when(self, c):
        c = bof(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if self.dry is not None:                 # scripted answers: every branch of the contract is visited to collect its claims
            n = len(self.answers); a = self.dry[n] if n < len(self.dry) else True
            self.answers.append(a); return a
        return bool(c)

class KReal(K):
    """the same contract on a real run"""
    def __init__(self, real, vals, out, res, nn, node, optvals, want=None, multi=True):
        super().__init__(want); self.real = real; self.valsd = vals; self.outd = out; self.resd = res; self.nn = nn; self.node = node; self.optvals = optvals; self.nodevars = None
    def vars(self, kind): return set(self.real.ins) if kind == "i" else set(self.real.outs)
    def meta(self, name): return self.real.meta(name)
    def units(self, name): return self.real.meta(name).get("units")
    def shape(self, name): return self.real.meta(name)["shape"]
    def size(self, name): return int(np.prod(self.real.meta(name)["shape"]))
    def index(self, name, a):
        sh = self.shape(name)
        if a is None: a = ()
        elif not isinstance(a, tuple): a = (a,)
        if len(a) == len(sh): return tuple(int(x) if not isinstance(x, SymInt) else x for x in a)
        if len(a) == len(sh) - 1:
            if self.node is not None and sh[0] == self.nn and sh[0] != 1: return (self.node,) + a
            if sh[0] == 1: return (0,) + a
        raise Unsupported("which element of %s%s?" % (name, sh))
    def _val(self, kind, name, units, a):
        d = {"i": self.valsd, "o": self.outd, "r": self.resd, "f": self.outd}[kind]
        if kind == "o" and self.real.implicit: d = self.valsd
        x = np.asarray(d[name]).reshape(self.shape(name))[self.index(name, a)]
        if not np.isfinite(x): return V("undefined value", 0)       # claims and guards that mention it cannot be evaluated
        t = C(q(float(x)))
        if units == "raw": return t
        return cv(t, self.units(name), units)
    def D(self, out, wrt, units=None, a=None, b=None):
        ia = self.index(out, a); ib = self.index(wrt, b)
        ck = (out, wrt, ib); cache = self.real.__dict__.setdefault("_dc", {})
        if cache.get("vals") is not self.valsd: cache.clear(); cache["vals"] = self.valsd
        if ck not in cache: cache[ck] = self.real.deriv(self.valsd, out, wrt, int(np.ravel_multi_index(ib, self.shape(wrt)))); self.real.f(self.valsd)
        d, e = cache[ck]
        if 0: d, e = self.real.deriv(self.valsd, out, wrt, int(np.ravel_multi_index(ib, self.shape(wrt))))
        x = d[int(np.ravel_multi_index(ia, self.shape(out)))]; ee = e[int(np.ravel_multi_index(ia, self.shape(out)))]
        if not np.isfinite(x) or ee > 1e-5 * abs(x) + 1e-12: raise ValueError("derivative not available")
        self.noise = 1e-4
        return C(q(float(x))) * cf(conv(self.units(out), None)[0]) / cf(conv(self.units(wrt), None)[0])
    def statevars(self): return self.real.comp._state_vars
    @property
    def cfg(self): return self.rcfg
    def opt(self, name):
        v = self.real.comp.options[name]
        return C(q(float(v))) if isinstance(v, (float, np.floating)) else v
    def when(self, c):
        c = bof(c)
        if c is TRUE: return True
        if c is FALSE: return False
        # too close to the boundary of a guard: the point decides nothing
        try: return bool(evalf(c, {}, mpmath.mp))
        except KeyError: raise ValueError("undefined value in a guard")

def scale(t):
    try: return magnitude(t, {})
    except Exception: return abs(float(evalf(t, {}, mpmath.mp)))

LAST = []
def check_real(runner_cfg, fn, real, vals, nn, optvals, want=None, has_nn=True, rtol=2e-6):
    """evaluate the contract on the real component at one input -> list of (label, node, lhs, rel, rhs) that fail"""
    F = real.f(vals); bad = []; n = 0
    if real.implicit: out, res = {k: vals[k] for k in real.outs}, F
    else: out, res = F, getattr(real, "resid", {})
    nodes = range(nn) if has_nn and nn > 1 else [0]
    m = mpmath.mp; old = m.dps; m.dps = 30
    try:
        for node in nodes:
            k = KReal(real, vals, out, res, nn, node, optvals, want); k.rcfg = runner_cfg
            try: fn(k)
            except (ValueError, ZeroDivisionError, OverflowError) as e:
                LAST.append(repr(e)); continue
            for ip, (label, l, r, rel) in enumerate(k.pairs):
                try: a, b = evalf(l, {}, m), evalf(r, {}, m)
                except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError): continue
                if isinstance(a, mpmath.mpc) or isinstance(b, mpmath.mpc): continue
                n += 1
                tol = max(getattr(k, "noise", rtol), rtol) * max(abs(a), abs(b)) + 1e-9 * (scale(l) + scale(r)) + 1e-300
                try: tol += 1e-5 * abs(evalf(k.mags[ip], {}, m)) if ip in k.mags else 0
                except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError): continue
                f = {"=": abs(a - b) > tol, "<=": a - b > tol, "<": a - b > tol}[rel]
                if f: bad.append((label, node, float(a), rel, float(b)))
    finally: m.dps = old
    return n, bad

class ContractChecker:
    def __init__(self, runner, fn, seed=1, batch=False): self.batch = batch; self.r = runner; self.fn = fn; self.seed = seed; self.out = []
    def prover(self):
        ints = [("ile", SymInt.of(NN - 2), True)] if self.r.mode == "sym" else []
        return Prover(self.r.norm, self.r.dom, self.seed, ints, open_only=False)
    def run(self):
        paths = self.r.explore(want_jac=False, open_only=False); self.paths = paths
        self.P = self.prover()
        self.errors = [(f, i) for f, i in paths if hasattr(i, "error")]
        with symbolic():
            for n, (f, i) in enumerate(paths):
                if hasattr(i, "error"): continue
                self.path(f, i, "" if len(paths) == 1 else " path %d" % n)
        return self.out
    def nodes(self):
        if self.r.mode == "sym":
            s = SymInt.sym("i"); return [(s, [("ile", s, True), ("ile", SymInt.of(NN - 1 - s), True)])]
        if getattr(self.r, "has_nn", True): return [(n, []) for n in range(self.r.mode)]
        return [(None, [])]
    def labels(self, inst, node):
        L = []; queue = [[]]; runs = 0
        while queue and runs < 600:
            dry = queue.pop(0); runs += 1
            k = KProof(self.r, inst, node, want="", dry=dry)
            old = T.ORACLE; T.ORACLE = None
            try: self.fn(k)
            finally: T.ORACLE = old
            L += [l for l in k.labels if l not in L]
            for j in range(len(dry), len(k.answers)): queue.append(k.answers[:j] + [not k.answers[j]])
        return L
    def path(self, facts, inst, ptag):
        for node, fi in self.nodes():
            batch = None
            if self.batch:
                old = T.ORACLE; T.ORACLE = None
                k = KProof(self.r, inst, node); self.fn(k); batch = {}
                for lab, l, r, rel in k.pairs: batch.setdefault(lab, []).append((l, r, rel))
                T.ORACLE = old
            for label in (batch or self.labels(inst, node)):
                def make():
                    if batch is not None: return batch[label]
                    ex = T.ORACLE
                    if isinstance(node, SymInt): instantiate_foralls(ex, [node])
                    k = KProof(self.r, inst, node, want=label)
                    self.fn(k)
                    return [(l, r, rel) for _, l, r, rel in k.pairs]
                o = self.P.obligation("%s: %s%s%s" % (self.r.cfg.name, label, ptag, "" if node is None else " [node %s]" % (node,)), make, facts, extra_ints=fi)
                o.key = (label, None); o.node = node
                self.out.append(o)
            if isinstance(node, int) and node >= 0 and False: break

def replay_contract(runner, fn, o, seed=1, tries=6):
    rng = random.Random(seed); label = o.key[0]
    for k in range(tries):
        s = o.sample if k == 0 or not o.facts else resample(runner, o, rng) or o.sample
        try:
            real, nn, opt = runner.real(s, rng) if hasattr(runner, "real") else build_real(runner, s, rng)
            vals, _ = runner.values(real, s, rng, nn) if hasattr(runner, "values") else env_values(real, s, runner, rng, nn)
            n, bad = check_real(runner.cfg, fn, real, vals, nn, opt, want=label, has_nn=getattr(runner, "has_nn", True))
        except Exception as e:
            o.detail += " | replay: %r" % e; continue
        if bad: return dict(component=runner.cfg.name, cls=runner.cfg.cls.__module__ + "." + runner.cfg.cls.__name__, options={k: float(v) for k, v in opt.items()}, num_nodes=nn, inputs={k: np.asarray(v).tolist() for k, v in vals.items()}, failed=[dict(zip(("claim", "node", "lhs", "relation", "rhs"), b)) for b in bad[:6]])
    return None

def sample_real(runner, fn, seed, n=2):
    """contract evaluated on the real component at n random points -> (#claims evaluated, failures)"""
    rng = random.Random(seed * 7 + 1); cnt = 0; bad = []; err = None; hits = 0
    for k in range(n + 16):                     # random points may fall where the component is not defined
        if hits >= n or (k >= n and hasattr(runner, "p") and k > n + 6): break
        try:
            if hasattr(runner, "real"):
                real, nn, opt = runner.real(None, rng); vals, _ = runner.values(real, {}, rng, nn)
            else:
                nn = runner.mode if isinstance(runner.mode, int) else 3
                real = Real(runner.cfg, nn, {}); opt = {}
                for nme in real.wrts():
                    m = real.meta(nme); v = Var(nme, m["shape"], m.get("units"), m.get("val"), "in")
                    if nme not in runner.dom.d: runner.setdom(nme, v)
                vals, _ = env_values(real, {}, runner, rng, nn)
            c, b = check_real(runner.cfg, fn, real, vals, nn, opt, has_nn=getattr(runner, "has_nn", True))
        except Exception as e: err = e; continue
        cnt += c; hits += c > 0
        if b: bad.append((vals, b, nn))
    return cnt, bad, err

def run_contract(cfg, fn, label="", seed=1, modes=None, make_runner=None, batch=False, bounded=None):
    R = Result(cfg.name)
    if bounded: R.bounded.append(bounded)
    modes = list(modes or cfg.modes or ["sym", 1])
    mk = make_runner or (lambda m: Runner(cfg, m))
    fn_ = cfg.cls.__module__ + "." + cfg.cls.__name__
    R.functions.append(fn_)
    return or_setup(R, cfg, list(modes), lambda: _run_contract(R, cfg, fn, label, seed, modes, mk, batch))
def _run_contract(R, cfg, fn, label, seed, modes, mk, batch):
    while modes:
        m = modes.pop(0)
        runner = mk(m)
        try: ck = ContractChecker(runner, fn, seed, batch); outs = ck.run()
        except (Unsupported, RecursionError) as e:
            if m == "sym":
                R.notes.append("symbolic num_nodes outside the subset (%s)" % str(e)[:120]); R.bounded.append("num_nodes in {1,2,3}"); modes = [2, 3] + modes
                continue
            R.notes.append("%s outside the subset: %s" % (m, str(e)[:160]))
            bounded_contract(R, runner, fn, label, seed, 12)
            continue
        finish(R, runner, ck, outs, fn, label, seed, m)
        if m == "sym" and not getattr(runner, "has_nn", True): R.modes = ["no num_nodes"]; break
def viol(runner, lab, label, rp, detail): return dict(label=lab, key=[runner.cfg.cls.__name__, label], replay=rp, detail=detail)
def bounded_contract(R, runner, fn, label, seed, n):
    cnt, bad, err = sample_real(runner, fn, seed, n)
    R.bounded.append("contract evaluated on real runs at %d claims" % cnt); R.count("bounded", cnt)
    if not cnt and err is not None: R.notes.append("real run: %r" % err)
    for vals, b, nn in bad[:2]:
        R.viol.append(viol(runner, "%s: %s" % (runner.cfg.name, b[0][0]), b[0][0], dict(component=runner.cfg.name, num_nodes=nn, inputs={k: np.asarray(v).tolist() for k, v in vals.items()}, failed=b[:6]), "bounded stand-in"))
def finish(R, runner, ck, outs, fn, label, seed, mode):
    R.modes.append(mode); P = ck.P
    for k in ("t_nf", "t_z3", "t_num"): R.t_solver[k] = R.t_solver.get(k, 0) + P.stats[k]
    R.cases += P.stats["cases"]
    for f, i in ck.errors: R.notes.append("path raises %s" % repr(i.error)[:120])
    if ck.errors and len(ck.errors) < len(ck.paths) and not hasattr(runner, "real"): raising(R, runner, ck.errors, seed)
    cnt, bad, err = sample_real(runner, fn, seed, getattr(runner, "nreal", 2))
    R.cross += cnt
    if not cnt: check_setup(R, runner.cfg, mode); R.notes.append("no claim could be evaluated on the sampled real runs%s" % (": %s" % (err if err is not None else LAST[-1:])))
    if len(ck.errors) == len(ck.paths):
        R.undecided.append(dict(label="%s: no path executes" % runner.cfg.name, detail=repr(ck.errors[0][1].error)[:300] + ck.errors[0][1].tb[-600:]))
        if err is not None and not cnt:
            R.viol.append(viol(runner, "%s: component cannot be evaluated" % runner.cfg.name, "evaluate", dict(component=runner.cfg.name, error=repr(err)[:400]), repr(err)[:300]))
    if outs and type(runner) is Runner and runner.written is not None and not runner.written: R.count("proved:frame (no state is left behind)")
    done = set()
    for o in outs:
        if o.status == "proved": R.count("proved:" + o.backend)
        elif o.status == "vacuous":
            if all(x.status == "vacuous" for x in outs if x.key == o.key) and (o.key, "v") not in done:
                done.add((o.key, "v")); R.notes.append("claim never reached: %s" % o.label)
        elif o.status == "refuted":
            if o.key in done: R.count("refuted"); continue
            rp = replay_contract(runner, fn, o, seed)
            if rp is not None:
                done.add(o.key); R.count("refuted"); R.viol.append(viol(runner, o.label, o.key[0], rp, o.detail[:800]))
            else: check_setup(R, runner.cfg, mode); R.count("unconfirmed"); R.undecided.append(dict(label=o.label, detail="refuted by the evaluator but not reproduced on the real code: " + o.detail[:600]))
        else: R.count(o.status); R.undecided.append(dict(label=o.label, detail=o.detail[:600]))
    for vals, b, nn in bad[:2]:
        if (b[0][0], None) in done: continue
        R.viol.append(viol(runner, "%s: %s (real run)" % (runner.cfg.name, b[0][0]), b[0][0], dict(component=runner.cfg.name, num_nodes=nn, inputs={k: np.asarray(v).tolist() for k, v in vals.items()}, failed=b[:6]), "contract evaluated on a real run"))
