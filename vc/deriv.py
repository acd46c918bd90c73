"""Derivative contracts:  compute_partials / linearize  ensures  J[o,w] == d(compute.o)/dw  entrywise, off-pattern entries zero,
and complex-step safety + coverage for components that use OpenMDAO's complex step."""
import itertools
import numpy as np
from . import terms as T
from . import symarr as S
from .terms import *
from .symarr import SA, OA, DualT
from .component import *
from .prove import *

def elem_indices(var, tag):
    """representative element indices of a variable: list of (index tuple for V, index for array access, int facts)"""
    if not var.sym: return [((k,), i, []) for k, i in enumerate(np.ndindex(*var.shape))]
    out = [((), [])]
    for d, n in enumerate(var.shape):
        new = []
        for idx, facts in out:
            if isinstance(n, SymInt):
                s = SymInt.sym("%s%d" % (tag, d)); new.append((idx + (s,), facts + [("ile", s, True), ("ile", SymInt.of(n - 1 - s), True)]))
            else: new += [(idx + (k,), facts) for k in range(n)]
        out = new
    return [(i, i, f) for i, f in out]

def at(arr, idx):
    if isinstance(arr, SA): return arr.at(*idx)
    return arr.view(np.ndarray)[tuple(idx)]

def flat_index(var, vidx):
    """flat position of element vidx (V index) of a variable"""
    if not var.sym: return vidx[0]
    if len(var.shape) == 1: return vidx[0]
    r = 0
    nsym = [d for d in range(len(var.shape)) if isinstance(var.shape[d], SymInt)]
    for d, n in enumerate(var.shape):
        r = (r * n if not (isinstance(r, int) and r == 0) else 0) + vidx[d]
    return r
def unflat(var, k):
    if not var.sym: return (k,)
    if len(var.shape) == 1: return (k,)
    if all((not isinstance(d, SymInt) and d == 1) or i == [j for j, d2 in enumerate(var.shape) if isinstance(d2, SymInt)][0] for i, d in enumerate(var.shape)):
        return tuple(k if isinstance(d, SymInt) else 0 for d in var.shape)
    raise Unsupported("flat index into a multi-dimensional symbolic array")

def instantiate_foralls(ex, idxs):
    """facts 'no element satisfies body' (np.any(...) was False), instantiated at the indices in play"""
    for c in list(ex.facts.foralls):
        body, n = c.args[0], c.args[1]
        syms = sorted(k for k in S.intsyms(body) if k[0] == "?")
        for combo in itertools.product(idxs, repeat=len(syms)):
            b = subst_index(body, dict(zip(syms, combo)))
            ex.assume(bnot(b))

class JView:
    """declared partial (o, w) of one executed path as a matrix"""
    def __init__(self, inst, key, never_written):
        self.key = key; self.p = inst.rec.partials[key]; self.inst = inst
        o, w = key; self.vo = inst.rec.outputs[o]; self.vw = inst.rec.inputs.get(w) or inst.rec.outputs[w]
        self.data = inst.J.d[key] if hasattr(inst, "J") and key in inst.J.d else None
        self.init = inst.J.initial[key] if hasattr(inst, "J") and key in inst.J.initial else None
        self.use_init = never_written
        self.rows = self.p["rows"]; self.cols = self.p["cols"]
    def val(self, *i): return at(self.init if self.use_init else self.data, i)
    def n(self):
        r = self.rows
        return r.shape[0] if isinstance(r, (SA, np.ndarray)) else len(r)
    def rc(self, k):
        def g(x):
            if isinstance(x, SA): return S.toidx(x.at(k))
            if isinstance(k, SymInt): raise Unsupported("concrete rows with symbolic entry")
            v = x[k]
            return S.toidx(v) if isinstance(v, Term) else int(v)
        return g(self.rows), g(self.cols)

def wrt_terms(t, w):
    return [v for v in free_vars(t) if v.op == "v" and v.args[0] == w]

class DerivChecker:
    def __init__(self, runner, seed=1):
        self.r = runner; self.seed = seed; self.out = []
    def prover(self):
        ints = [("ile", SymInt.of(NN - 2), True)] if self.r.mode == "sym" else []
        return Prover(self.r.norm, self.r.dom, self.seed, ints)
    def run(self, exact=True, cs=True):
        """-> list of Outcome"""
        paths = self.r.explore(want_jac=True)
        self.paths = paths
        self.P = self.prover()
        written = set()
        for f, i in paths:
            if hasattr(i, "J"): written |= i.J.written
        self.errors = [(f, i) for f, i in paths if hasattr(i, "error")]
        with symbolic():
            for n, (f, i) in enumerate(paths):
                if hasattr(i, "error"): continue
                self.path(f, i, written, "" if len(paths) == 1 else " path %d" % n)
        return self.out
    def path(self, facts, inst, written, ptag):
        rec = inst.rec
        wrts = dict(rec.inputs)
        if inst.implicit: wrts.update(rec.outputs)
        for o, vo in rec.outputs.items():
            for w, vw in wrts.items():
                key = (o, w)
                p = rec.partials.get(key)
                if p is not None and p["method"] != "exact":
                    if p["rows"] is not None: self.zero_outside(facts, inst, key, ptag)
                    continue
                lab = "%s: d(%s)/d(%s)%s" % (self.r.cfg.name, o, w, ptag)
                if p is None: self.undeclared(lab, facts, inst, o, vo, w, vw); continue
                jv = JView(inst, key, key not in written)
                if vo.sym or vw.sym or (jv.rows is not None and isinstance(jv.rows, SA)): self.sym_pair(lab, facts, inst, jv)
                else: self.conc_pair(lab, facts, inst, jv)
    def emit(self, o, key, extra=None):
        o.key = key; o.extra = extra
        self.out.append(o)
    def undeclared(self, lab, facts, inst, o, vo, w, vw):
        arr = inst.out[o]
        for vi, ai, fi in elem_indices(vo, "i"):
            t = None
            try:
                # cheap syntactic check first
                old = T.ORACLE; T.ORACLE = None
                try: t = at(arr, ai)
                finally: T.ORACLE = old
                if isinstance(t, Term) and not wrt_terms(t, w): continue
            except Unsupported: pass
            def make():
                ex = T.ORACLE; instantiate_foralls(ex, [x for x in vi if isinstance(x, SymInt)])
                t = ex.resolve(at(arr, ai))
                return [(diff(t, v), ZERO) for v in wrt_terms(t, w)]
            self.emit(self.P.obligation(lab + " undeclared => zero [%s]" % (vi,), make, facts, extra_ints=fi), (o, w))
        self.emit(Outcome(lab + " undeclared => independent", "proved", "trivial"), (o, w))
    def zero_outside(self, facts, inst, key, ptag):
        """complex-step partial with a declared sparsity pattern: nothing outside the pattern"""
        o, w = key; vo = inst.rec.outputs[o]; vw = inst.rec.inputs.get(w) or inst.rec.outputs[w]
        jv = JView(inst, key, True)
        lab = "%s: d(%s)/d(%s)%s pattern" % (self.r.cfg.name, o, w, ptag)
        self.coverage(lab, facts, inst, jv)
    def coverage(self, lab, facts, inst, jv):
        o, w = jv.key
        arr = inst.out[o]
        for vi, ai, fi in elem_indices(jv.vo, "i"):
            def make():
                ex = T.ORACLE; instantiate_foralls(ex, [x for x in vi if isinstance(x, SymInt)])
                t = ex.resolve(at(arr, ai)); res = []
                fo = flat_index(jv.vo, vi)
                for v in wrt_terms(t, w):
                    if not self.in_pattern(jv, fo, flat_index(jv.vw, v.args[1:])): res.append((diff(t, v), ZERO))
                return res
            self.emit(self.P.obligation(lab + " covers [%s]" % (vi,), make, facts, extra_ints=fi), jv.key)
    def in_pattern(self, jv, r, c):
        if not isinstance(jv.rows, SA) and not isinstance(jv.cols, SA):
            if isinstance(r, SymInt) or isinstance(c, SymInt): raise Unsupported("symbolic position, concrete pattern")
            return any(jv.rc(k) == (r, c) for k in range(jv.n()))
        n = jv.n()
        k = SymInt.sym("$p")
        old = T.ORACLE; 
        rr, cc = jv.rc(k)
        for e, tgt in ((rr, r), (cc, c)):
            e = SymInt.of(e)
            if len(e.m) == 1 and e.m[0][0] == "$p" and abs(e.m[0][1]) == 1:
                kk = (tgt - e.c) * e.m[0][1]
                ok = ile(0, kk); ok2 = ile(SymInt.of(kk) + 1, n)
                if not (bool(ok) and bool(ok2)): return False
                r2, c2 = jv.rc(kk)
                return bool(ieq(r2, r)) and bool(ieq(c2, c))
        if n == 1 or (isinstance(n, int)):
            return any(bool(ieq(jv.rc(k)[0], r)) and bool(ieq(jv.rc(k)[1], c)) for k in range(n))
        raise Unsupported("cannot solve the sparsity pattern")
    def sym_pair(self, lab, facts, inst, jv):
        o, w = jv.key; arr = inst.out[o]
        if jv.rows is None:
            for vi, ai, fi in elem_indices(jv.vo, "i"):
                for wi, _, fj in elem_indices(jv.vw, "j"):
                    def make():
                        ex = T.ORACLE; instantiate_foralls(ex, [x for x in list(vi) + list(wi) if isinstance(x, SymInt)])
                        t = ex.resolve(at(arr, ai))
                        t, tv = self.pick(t, w, wi)
                        return (diff(t, tv), jv.val(flat_index(jv.vo, vi), flat_index(jv.vw, wi)))
                    self.emit(self.P.obligation(lab + " [%s,%s]" % (vi, wi), make, facts, extra_ints=fi + fj), jv.key)
            return
        # every declared entry is right
        n = jv.n()
        if isinstance(n, SymInt): ks = [(SymInt.sym("k"), [("ile", SymInt.sym("k"), True), ("ile", SymInt.of(n - 1 - SymInt.sym("k")), True)])]
        else: ks = [(k, []) for k in range(n)]
        for k, fk in ks:
            def make():
                ex = T.ORACLE
                rr, cc = jv.rc(k)
                for x, size in ((rr, jv.vo.size), (cc, jv.vw.size)):
                    if not (bool(ile(0, x)) and bool(ile(SymInt.of(x) + 1, size))): raise IndexOut()
                instantiate_foralls(ex, [x for x in (rr, cc) if isinstance(x, SymInt)])
                ui = unflat(jv.vo, rr)
                t = ex.resolve(at(arr, ui if jv.vo.sym else np.unravel_index(rr, jv.vo.shape)))
                wi = unflat(jv.vw, cc)
                t, tv = self.pick(t, w, wi)
                return (diff(t, tv), jv.val(k))
            try: self.emit(self.P.obligation(lab + " entry [%s]" % (k,), make, facts, extra_ints=fk), jv.key)
            except IndexOut: self.emit(Outcome(lab + " entry", "refuted", detail="declared row/col out of range", sample={}, facts=facts), jv.key)
        self.coverage(lab, facts, inst, jv)
    def pick(self, t, w, wi):
        """the variable of t that is element wi of w: index equality with the occurring elements is decided"""
        for v in sorted(wrt_terms(t, w), key=lambda x: x.id):
            if all((a == b) if not (isinstance(a, SymInt) or isinstance(b, SymInt)) else bool(ieq(a, b)) for a, b in zip(v.args[1:], wi)): return t, v
        return t, V(w, *wi)
    def conc_pair(self, lab, facts, inst, jv):
        o, w = jv.key; arr = inst.out[o]
        no, nw = int(jv.vo.size), int(jv.vw.size)
        J = {}
        if jv.rows is None:
            get = lambda r, c: jv.val(r, c)
            dense = True
        else:
            dense = False
            for k in range(jv.n()):
                rr, cc = jv.rc(k)
                if not (0 <= rr < no and 0 <= cc < nw):
                    self.emit(Outcome(lab, "refuted", detail="declared row/col (%s,%s) out of range" % (rr, cc), sample={}, facts=facts), jv.key); return
                J[(rr, cc)] = (J[(rr, cc)] + jv.val(k)) if (rr, cc) in J else jv.val(k)
            get = lambda r, c: J.get((r, c), ZERO)
        flat = arr.view(np.ndarray).ravel().tolist()
        bad = False; n = 0
        for r in range(no):
            t = flat[r]
            deps = {v.args[1] for v in wrt_terms(t, w)}
            for c in range(nw):
                if dense or (r, c) in J or c in deps:
                    jt = get(r, c)
                    if c not in deps and jt is ZERO: n += 1; continue
                    def make():
                        ex = T.ORACLE
                        tt = ex.resolve(t); v = V(w, c)
                        return (diff(tt, v), jt)
                    self.emit(self.P.obligation(lab + " [%d,%d]" % (r, c), make, facts), jv.key, (r, c))
        if n: self.emit(Outcome(lab + " structural zeros", "proved", "trivial"), jv.key)

class IndexOut(Exception): pass

class CSChecker(DerivChecker):
    """complex-step components: the imaginary part propagated by the executed code equals the derivative of its real part"""
    def run(self):
        paths = self.r.explore(want_jac=False, dual=True)
        self.paths = paths
        self.P = self.prover()
        self.errors = [(f, i) for f, i in paths if hasattr(i, "error")]
        self.any_cs = False
        with symbolic():
            for n, (f, i) in enumerate(paths):
                if hasattr(i, "error"): continue
                ptag = "" if len(paths) == 1 else " path %d" % n
                rec = i.rec
                if any(p["method"] != "exact" for p in rec.partials.values()): self.any_cs = True
                wrts = dict(rec.inputs)
                if i.implicit: wrts.update(rec.outputs)
                for o, vo in rec.outputs.items():
                    cs = [w for w in wrts if (o, w) in rec.partials and rec.partials[(o, w)]["method"] != "exact"]
                    und = [w for w in wrts if (o, w) not in rec.partials]
                    if not cs: continue
                    lab = "%s: complex step of %s%s" % (self.r.cfg.name, o, ptag)
                    arr = i.out[o]
                    for vi, ai, fi in elem_indices(vo, "i"):
                        def make():
                            ex = T.ORACLE; instantiate_foralls(ex, [x for x in vi if isinstance(x, SymInt)])
                            t = at(arr, ai)
                            t = DualT.of(t)
                            re_, im = ex.resolve(t.re), ex.resolve(t.im)
                            res = []
                            deps = [v for v in free_vars(re_) if v.op == "v" and v.args[0] in cs]
                            dim = [V(v.args[0][5:], *v.args[1:]) for v in free_vars(im) if v.op == "v" and v.args[0].startswith("seed:") and v.args[0][5:] in cs]
                            for v in sorted(set(deps) | set(dim), key=lambda x: x.id):
                                res.append((diff(im, V("seed:" + v.args[0], *v.args[1:])), diff(re_, v)))
                            for v in free_vars(re_):
                                if v.op == "v" and v.args[0] in und: res.append((diff(re_, v), ZERO))
                            return res
                        self.emit(self.P.obligation(lab + " [%s]" % (vi,), make, f, extra_ints=fi), (o, None))
                    for w in cs:
                        if rec.partials[(o, w)]["rows"] is not None:
                            jv = JView(i, (o, w), True)
                            ii = Instance(); ii.out = {o: redarr(i.out[o])}; ii.rec = rec
                            self.coverage("%s: d(%s)/d(%s)%s pattern" % (self.r.cfg.name, o, w, ptag), f, ii, jv)
        return self.out

def redarr(a):
    return a.real
