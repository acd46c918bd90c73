"""Obligations and their discharge.  An obligation is  facts |- lhs REL rhs  over reals (all values, all indices, all num_nodes unless the
unit is marked bounded).  Back ends, in order: normal-form prover (exact), normal-form prover modulo float-constant rounding, z3; numeric
refutation at 40 digits looks for a counterexample, which is replayed on the real component by the caller."""
import random, time, math
import mpmath
from fractions import Fraction
from . import terms as T
from .terms import *
from .nf import Norm, Dom, F1
from .explore import Explorer, Facts, Z3Enc, PathAbort
import z3
from . import interval, tiv

ORDER = ["trivial", "nf", "nf-tol", "interval", "z3"]
TOL = 2e-7            # relative to the sum of the magnitudes of the terms: rounding of float literals such as 0.43429448 for 1/ln 10

RTOL = 1e-6

class Outcome:
    def __init__(self, label, status, backend=None, sample=None, detail="", facts=None): 
        self.label = label; self.status = status; self.backend = backend; self.sample = sample; self.detail = detail; self.facts = facts
    def __repr__(self): return "<%s %s %s>" % (self.status, self.label, self.detail[:200])

class Sampler:
    """random points of the input domain; cooperative search for points satisfying a conjunction of conditions"""
    def __init__(self, dom, seed=1): self.dom = dom; self.rng = random.Random(seed)
    def value(self, name, wide):
        lo, hi = self.dom.get(name); hard = getattr(self.dom, "hard", {}).get(name)
        v = self.dom.sample(name, self.rng.random())
        if wide and name not in getattr(self.dom, "fixed", ()):
            r = self.rng.random()
            if r < (0.25 if wide < 3 else 0.5): v = v * 10 ** self.rng.uniform(-wide, wide)
            elif r < 0.32 and lo < 0: v = -v
            elif r < 0.36 and lo < 0: v = 0.0
        if hard:
            if hard[0] is not None: v = max(v, hard[0])
            if hard[1] is not None: v = min(v, hard[1])
        return v
    def env(self, vars_, wide=0):
        e = {}
        for t in vars_:
            if t.op == "v": e[t] = mpmath.mpf(self.value(t.args[0], wide))
        return e
    def ints(self, e, names):
        nn = self.rng.choice([3, 4, 5]); e["nn"] = nn
        for k in names:
            if k != "nn": e[k] = self.rng.randrange(nn)
    def satisfying(self, vars_, conds, intnames=(), intfacts=(), tries=300, wide=None):
        """yield envs satisfying conds"""
        vs = sorted(vars_, key=lambda t: t.id)
        got = 0; self.grids = 25; fixed = wide
        for k in range(tries):
            wide = fixed if fixed is not None else 0 if k < tries // 3 else (1 if k < 2 * tries // 3 else 2.5)
            e = self.env(vs, wide); self.ints(e, intnames)
            e["!"] = self.opaque; e["?"] = lambda t, e=e: e.setdefault(t, mpmath.mpf(self.value(t.args[0], wide)))
            self.amap = {}
            if not self.intok(e, intfacts):
                ok = False
                for _ in range(60):
                    self.ints(e, intnames)
                    if self.intok(e, intfacts): ok = True; break
                if not ok: continue
            bad = self.bad(e, conds)
            if bad is not None and bad is not Ellipsis and self.equate(e, conds): bad = self.bad(e, conds)
            if bad is not None and bad is not Ellipsis: bad = self.repair(e, vs, conds)
            if bad is None: yield e
    def intok(self, e, facts):
        for op, x, tv in facts:
            v = x.c + sum(c * e.get(k, 0) for k, c in x.m)
            if ((v >= 0) if op == "ile" else (v == 0)) != tv: return False
        return True
    def opaque(self, s, ev):
        if s.op == "uf": 
            if s.args[0] in ("uninit", "nan", "inf", "-inf"): raise ValueError("uninit")
            return self.amap.setdefault((s.args[0],) + tuple(float(ev(a)) for a in s.args[1:]), mpmath.mpf(self.value(s.args[0], 0)))
        return self.amap.setdefault(s.id, self.rng.random() < 0.5)
    def bad(self, e, conds):
        cache = {}
        for c, tv in conds:
            if c.op in ("ile", "ieq", "any", "bvar"): continue
            try:
                if bool(evalf(c, e, mpmath.mp, cache)) != tv: return (c, tv)
            except (ValueError, ZeroDivisionError, OverflowError, KeyError, mpmath.libmp.ComplexResult): return Ellipsis
        return None
    def repair(self, e, vs, conds):
        for k in range(12):
            b = self.bad(e, conds)
            if b is None or b is Ellipsis: return b
            vv = [v for v in vs if v in free_vars(b[0])]
            if not vv: return b
            v = self.rng.choice(vv); old = e[v]
            if k >= 2 and self.grids > 0:                      # scan the variable over many orders of magnitude for points that satisfy the condition
                self.grids -= 1
                if self.scan(e, v, b, conds): continue
            for _ in range(6):
                e[v] = mpmath.mpf(self.value(v.args[0], self.rng.choice([0, 1, 2])))
                nb = self.bad(e, conds)
                if nb is None: return None
                if nb is not b and nb is not Ellipsis and nb[0] is not b[0]: break
            else: e[v] = old
        return self.bad(e, conds)
    def equate(self, e, conds):
        """conditions 'u < tiny' on a difference u of two variables (a comparison of floats within a tolerance): make the two equal"""
        set_ = set(); n = 0
        for c, tv in conds:
            if c.op not in ("lt", "le") or not tv or c.args[1].op != "c" or not 0 <= float(c.args[1].args[0]) < 1e-6: continue
            vs = sorted((v for v in free_vars(c.args[0]) if v.op == "v"), key=lambda v: v.id)
            if len(vs) != 2: continue
            for v in sorted(vs, key=lambda v: v in set_):
                try:
                    x = e[v]; g0 = evalf(c.args[0], e, mpmath.mp, {}); e[v] = x + 1; g1 = evalf(c.args[0], e, mpmath.mp, {}); e[v] = x
                except Exception: break
                if abs(abs(g1 - g0) - 1) > 1e-9: continue
                w = x - g0 * (g1 - g0); hard = getattr(self.dom, "hard", {}).get(v.args[0]) or (None, None)
                if hard[0] is not None and w < hard[0] or hard[1] is not None and w > hard[1]: continue
                e[v] = w; set_ |= set(vs); n += 1; break
        return n
    def scan(self, e, v, b, conds):
        name = v.args[0]; lo, hi = self.dom.get(name); hard = getattr(self.dom, "hard", {}).get(name) or (None, None)
        if name in getattr(self.dom, "fixed", ()): return False
        s = max(abs(lo), abs(hi)) or 1.0
        xs = [s * 10 ** (k / 5.0) for k in range(-30, 46)]
        if lo < 0: xs += [-x for x in xs]
        if hard[0] is not None: xs = [x for x in xs if x >= hard[0]] + [hard[0]]
        if hard[1] is not None: xs = [x for x in xs if x <= hard[1]] + [hard[1]]
        xs = sorted(set(xs)); c, tv = b; old = e[v]
        fe = {k: (float(x) if isinstance(x, mpmath.mpf) else x) for k, x in e.items()}
        def ok(x):
            fe[v] = x
            try: return bool(evalf(c, fe, mpmath.fp, {})) == tv
            except Exception: return None
        if c.op == "eq" and tv: return self.solve(e, v, c, xs, fe)
        t = [ok(x) for x in xs]; segs = []; k = 0
        while k < len(xs):
            if t[k] is not True: k += 1; continue
            j = k
            while j + 1 < len(xs) and t[j + 1] is True: j += 1
            a, z = xs[k], xs[j]
            if k > 0: a = self.edge(ok, xs[k - 1], a)
            if j + 1 < len(xs): z = self.edge(ok, xs[j + 1], z)
            segs.append((a, z)); k = j + 1
        best = None
        for _ in range(8):
            if not segs: break
            a, z = self.rng.choice(segs); r = self.rng.random()
            x = a + (z - a) * r if (a <= 0 <= z or self.rng.random() < 0.5 or abs(z) < 20 * abs(a)) else math.copysign(abs(a) * (abs(z) / abs(a)) ** r, a)
            fe[v] = x; bad = 0
            for cc, tt in conds:
                if cc.op in ("ile", "ieq", "any", "bvar"): continue
                try: bad += bool(evalf(cc, fe, mpmath.fp, {})) != tt
                except Exception: bad += 1
            if best is None or bad < best[0]: best = (bad, x)
        if best is None: e[v] = old; return False
        e[v] = mpmath.mpf(best[1]); return True
    def edge(self, ok, bad, good):
        for _ in range(44):
            m = (bad + good) / 2
            if ok(m): good = m
            else: bad = m
        return good
    def solve(self, e, v, c, xs, fe):
        """a value of v with equality in c"""
        def g(x):
            fe[v] = x
            try: return float(evalf(c.args[0], fe, mpmath.fp, {})) - float(evalf(c.args[1], fe, mpmath.fp, {}))
            except Exception: return None
        y = [(x, g(x)) for x in xs]; br = []
        for (x0, y0), (x1, y1) in zip(y, y[1:]):
            if y0 == 0: br.append((x0, x0))
            elif y0 is not None and y1 is not None and y0 * y1 < 0: br.append((x0, x1))
        if not br: return False
        a, z = self.rng.choice(br); ya = g(a)
        for _ in range(80):
            m = (a + z) / 2; ym = g(m)
            if ym is None: return False
            if ym == 0: a = z = m; break
            if (ym < 0) == (ya < 0): a = m
            else: z = m
        x = round(a, 12 - int(math.floor(math.log10(abs(a))))) if a and g(round(a, 12 - int(math.floor(math.log10(abs(a)))))) == 0 else a
        e[v] = mpmath.mpf(x); return True

class Prover:
    def __init__(self, norm, dom, seed=1, int_facts=(), open_only=True):
        self.norm = norm; self.dom = dom; self.sampler = Sampler(dom, seed); self.int_facts = list(int_facts); self.open_only = open_only
        self.stats = {"nf": 0, "nf-tol": 0, "interval": 0, "z3": 0, "trivial": 0, "cases": 0, "t_nf": 0.0, "t_z3": 0.0, "t_num": 0.0}
        self.z3_queries = 0; self.snapnorm = None
    def obligation(self, label, make, facts, rel="=", extra_ints=(), tries=120, timeout=60):
        """make(): -> (lhs, rhs) or list of such pairs, or None; called on every case-split path (with the oracle active). Returns Outcome."""
        f = facts.copy() if facts else Facts()
        f.ints += list(extra_ints)
        ex = Explorer(self.norm, open_only=self.open_only, facts=f, int_facts=self.int_facts, timeout=timeout, max_paths=600)
        ncase = 0; nleaf = 0; worst = None; backend = "trivial"
        try:
            def body():
                r = make()
                if r is None: return []
                if isinstance(r, tuple): r = [r]
                out = []
                for x in r:
                    l, rr = Term.of(x[0]), Term.of(x[1]); rl = x[2] if len(x) > 2 else rel
                    for z in list(ex.facts.foralls): pass
                    l, rr = ex.resolve(l), ex.resolve(rr)
                    try: self.norm.norm(l); self.norm.norm(rr)
                    except Unsupported: pass
                    out.append((l, rr, rl))
                return out
            for fs, pairs in ex.run(body):
                ncase += 1
                for l, r, rl in pairs:
                    nleaf += 1
                    o = self.leaf(label, l, r, rl, fs, tries)
                    if o.status != "proved": 
                        if worst is None or (worst.status != "refuted" and o.status == "refuted"): worst = o
                        if o.status == "refuted": return o
                    elif worst is None and ORDER.index(o.backend) > ORDER.index(backend): backend = o.backend
        except Unsupported as e:
            return Outcome(label, "unsupported", detail=str(e))
        self.stats["cases"] += ncase
        if worst is not None: return worst
        self.stats[backend] += 1
        o = Outcome(label, "proved", backend); o.cases = ncase
        if nleaf == 0: o.status = "vacuous"
        return o
    # ------------------------------------------------------------------ one leaf (no ites)
    def leaf(self, label, l, r, rel, facts, tries):
        if rel == "=":
            if l is r: return Outcome(label, "proved", "trivial")
            t0 = time.time(); err = ""
            try:
                nl, nr = self.norm.norm(l), self.norm.norm(r)
                d = self.norm.addp(nl, nr, -F1)
                if self.norm.is_zero(d): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "nf")
                if self.norm.is_zero(d, TOL, self.norm.absscale(nl, nr)): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "nf-tol")
            except Unsupported as e: err = str(e)
            try:
                if self.snapnorm is None: self.snapnorm = Norm(self.dom, snap=TOL)
                sn = self.snapnorm
                nl, nr = sn.norm(l), sn.norm(r)
                if sn.is_zero(sn.addp(nl, nr, -F1), TOL, sn.absscale(nl, nr)): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "nf-tol")
            except Unsupported as e: err += " / " + str(e)
            self.stats["t_nf"] += time.time() - t0
        else:
            t0 = time.time(); err = ""
            if self.ineq_nf(l, r, rel): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "nf")
            if self.ineq_iv(l, r, rel, facts): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "interval")
            if tiv.prove(self.norm, self.dom, l, r, rel, facts): self.stats["t_nf"] += time.time() - t0; return Outcome(label, "proved", "interval")
            self.stats["t_nf"] += time.time() - t0
        t0 = time.time()
        o = self.refute(label, l, r, rel, facts, tries) or (self.refute(label, l, r, rel, facts, 40, wide=4) if rel == "=" else None)
        self.stats["t_num"] += time.time() - t0
        if o is not None: return o
        t0 = time.time()
        ok = self.z3prove(l, r, rel, facts)
        self.stats["t_z3"] += time.time() - t0
        if ok: return Outcome(label, "proved", "z3")
        return Outcome(label, "unproved", detail="%s ; lhs=%s ; rhs=%s ; rel %s" % (err, show(l)[:600], show(r)[:600], rel), facts=facts)
    def ineq_nf(self, l, r, rel):
        try:
            d = self.norm.addp(self.norm.norm(r), self.norm.norm(l), -F1)
            if not d: return rel == "<="
            if self.norm.positive_poly(d): return True
            if rel == "<=" and self.norm.is_zero(d): return True
        except Unsupported: pass
        return False
    def ineq_iv(self, l, r, rel, facts):
        try: d = self.norm.addp(self.norm.norm(r), self.norm.norm(l), -F1)
        except Unsupported: return False
        return len(d) <= 60 and interval.prove(self.norm, self.dom, d, rel == "<", facts)
    def refute(self, label, l, r, rel, facts, tries, wide=None):
        names = set()
        for t in (l, r): names |= ints_of(t)
        for op, x, tv in facts.ints + self.int_facts: names |= {k for k, _ in x.m}
        vs = set(v for v in free_vars(l) | free_vars(r) if v.op == "v")
        for c, _ in facts.conds: vs |= set(v for v in free_vars(c) if v.op == "v")
        n = 0; m = mpmath.mp; best = None; nbad = 0
        seen_any = False
        old = m.dps; m.dps = 40
        try:
            for e in self.sampler.satisfying(vs, facts.conds, names, facts.ints + self.int_facts, tries=tries, wide=wide):
                try: a = evalf(l, e, m); b = evalf(r, e, m)
                except (ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError): continue
                if isinstance(a, mpmath.mpc) or isinstance(b, mpmath.mpc): continue
                seen_any = True; n += 1
                sc = max(abs(a), abs(b))
                if rel == "=": bad = abs(a - b) > RTOL * sc and abs(a - b) > mpmath.mpf(10) ** -30
                elif rel == "<=": bad = a - b > RTOL * sc + mpmath.mpf(10) ** -25
                elif rel == "<": bad = a >= b
                else: raise Unsupported(rel)
                if bad:
                    gap = float(abs(a - b) / sc) if sc else 1.0
                    if best is None or gap > best[0]: best = (gap, e, a, b)
                    nbad += 1
                    if gap > 0.02 or nbad >= 40: break
                elif n >= 24 and best is None: break
                if n >= 60: break
        finally: m.dps = old
        self.last_samples = n
        if best is None: return None
        gap, e, a, b = best               # the sample with the largest relative gap: the easiest one to reproduce in double precision
        return Outcome(label, "refuted", sample=e, facts=facts, detail="lhs=%s rhs=%s (%s) ; lhs term %s ; rhs term %s" % (mpmath.nstr(a, 12), mpmath.nstr(b, 12), rel, show(l)[:500], show(r)[:500]))
    def z3prove(self, l, r, rel, facts, ms=8000):
        self.z3_queries += 1
        try:
            z = Z3Enc(self.norm)
            d = self.norm.addp(self.norm.norm(r), self.norm.norm(l), -F1)
            if len(d) > 400: return False
            x = z.poly(d)
            s = z3.Solver(); s.set("timeout", ms)
            for k, al in facts.sign.items():
                if len(k) <= 60: s.add(z.signset(dict(k), al))
            s.add(z3.Not({"=": x == 0, "<=": x >= 0, "<": x > 0}[rel]))
            for c in z.side: s.add(c)
            return s.check() == z3.unsat
        except (Unsupported, z3.Z3Exception): return False

def ints_of(t):
    out = set()
    for s in subterms(t):
        for a in s.args:
            if isinstance(a, SymInt): out |= {k for k, _ in a.m}
    return out
