"""Normal forms and the equality prover: terms (without ite) are mapped to generalised polynomials over
algebraically independent atoms; equality is decided by clearing denominators and comparing coefficients.
Every rewrite used is a valid identity on the declared domain (positivity of the atoms pulled out of roots)."""
from fractions import Fraction
import math
from .terms import *

F0, F1 = Fraction(0), Fraction(1)

class Blowup(Unsupported): pass
MAXTERMS = 60000

class Dom:
    """declared input domains: variable name -> (lo, hi)"""
    def __init__(self): self.d = {}; self.hard = {}
    def set(self, name, lo, hi): self.d[name] = (float(lo), float(hi))
    def get(self, name): return self.d.get(name, (-10.0, 10.0))
    def positive(self, name): return self.get(name)[0] >= 0
    def sample(self, name, u):
        lo, hi = self.get(name)
        if lo > 0 and hi / lo > 20: return math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
        return lo + u * (hi - lo)

class Norm:
    def __init__(self, dom, refseed=0, snap=None):
        """snap: identify sums whose float constants differ by rounding only (tolerance mode)"""
        self.dom = dom; self.refseed = refseed; self.snap = snap
        self.atoms = []          # (kind, data, positive, ref)
        self.index = {}
        self.cache = {}
        self.pw_cache = {}
        self.fnargs = {}         # kind -> list of (poly, ref, result)
        self.steps = 0

    # --------------------------------------------------------------------------------- atoms
    def atom(self, kind, data, positive, ref):
        k = (kind, data)
        i = self.index.get(k)
        if i is None:
            i = len(self.atoms); self.atoms.append((kind, data, positive, ref)); self.index[k] = i
        return i
    def ref_mono(self, m):
        r = 1.0
        for a, e in m:
            x = self.atoms[a][3]
            if x is None: return None
            try:
                if e.denominator == 1: r *= x ** int(e)
                elif x >= 0: r *= x ** float(e)
                else: return None
            except (OverflowError, ZeroDivisionError): return None
        return r
    def ref(self, p):
        s = 0.0
        for m, c in p.items():
            r = self.ref_mono(m)
            if r is None: return None
            try: s += float(c) * r
            except OverflowError: return None
        return s if s == s and abs(s) != math.inf else None
    def apoly(self, i, e=F1): return {((i, e),): F1}

    # --------------------------------------------------------------------------------- ring operations
    def addp(self, p, r, k=F1):
        o = dict(p)
        for m, c in r.items():
            v = o.get(m, F0) + c * k
            if v: o[m] = v
            else: o.pop(m, None)
        return o
    def scale(self, p, k): return {m: c * k for m, c in p.items()} if k else {}
    def mulm(self, a, b):
        """product of monomials -> (coef, mono, needs_sin_reduction)"""
        if not a: return F1, b
        if not b: return F1, a
        d = dict(a); coef = F1
        for k, e in b:
            v = d.get(k, F0) + e
            if v: d[k] = v
            else: d.pop(k, None)
        for k, _ in b:
            if k in d and self.atoms[k][0] == "p":
                e = d[k]; fl = e.numerator // e.denominator
                if fl:
                    coef *= Fraction(self.atoms[k][1]) ** fl
                    if e - fl: d[k] = e - fl
                    else: del d[k]
        return coef, tuple(sorted(d.items()))
    def mulp(self, p, r):
        if len(p) > len(r): p, r = r, p
        if not p: return {}
        if len(p) * len(r) > 4 * MAXTERMS: raise Blowup("product of %d x %d terms" % (len(p), len(r)))
        o = {}
        for m1, c1 in p.items():
            for m2, c2 in r.items():
                k, m = self.mulm(m1, m2)
                v = o.get(m, F0) + c1 * c2 * k
                if v: o[m] = v
                else: o.pop(m, None)
        if len(o) > MAXTERMS: raise Blowup("%d terms" % len(o))
        return self.trig(o)
    def trig(self, p):
        bad = None
        for m in p:
            for a, e in m:
                if e >= 2 and self.atoms[a][0] == "sin" : bad = True; break
            if bad: break
        if not bad: return p
        o = {}
        for m, c in p.items():
            cur = {m: c}
            for a, e in m:
                if e >= 2 and self.atoms[a][0] == "sin":
                    k = int(e // 2); rest = tuple(sorted([(x, y) for x, y in m if x != a] + ([(a, e - 2 * k)] if e - 2 * k else [])))
                    cos = self.atom("cos", self.atoms[a][1], False, self._cosref(a))
                    base = {(): F1, ((cos, Fraction(2)),): -F1}
                    cur = {rest: c}
                    for _ in range(k): cur = self.mulp(cur, base)
                    break
            o = self.addp(o, cur)
        return o
    def _cosref(self, a):
        s = self.atoms[a]; arg = self.poly_of_key(s[1]); r = self.ref(arg)
        return math.cos(r) if r is not None else None

    # --------------------------------------------------------------------------------- powers
    def const_pow(self, c, e):
        """c>0 rational to a rational power"""
        if e.denominator == 1: return {(): c ** int(e)}
        mono = {}; coef = F1
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(n).items():
                ex = e * k * sgn; fl = ex.numerator // ex.denominator
                coef *= Fraction(pr) ** fl
                if ex - fl: mono[pr] = mono.get(pr, F0) + ex - fl
        p = {(): coef}
        for pr, ex in mono.items():
            p = self.mulp(p, self.apoly(self.atom("p", pr, True, float(pr)), ex))
        return p
    def key(self, p): return tuple(sorted(p.items()))
    def poly_of_key(self, k): return dict(k)
    def content(self, p):
        """p = c * mono * prim, prim with content 1"""
        ms = list(p)
        common = None
        for m in ms:
            d = dict(m)
            if common is None: common = d
            else:
                n = {}
                for a in set(common) | set(d):
                    e = min(common.get(a, F0), d.get(a, F0))
                    if e: n[a] = e
                common = n
        # constants (primes) are never pulled as content
        common = {a: e for a, e in common.items() if self.atoms[a][0] != "p"}
        mono = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in mono)
        prim = {}
        for m, c in p.items():
            k, mm = self.mulm(m, inv); prim[mm] = c * k
        lead = min(prim)          # canonical leading monomial: smallest in tuple order
        if self.snap:             # constants folded to one number; a non-constant monomial leads
            if any(self.isconst(a) for m in prim for a, _ in m):
                fold = {}
                for m, x in prim.items():
                    cm = tuple((a, e) for a, e in m if self.isconst(a)); rm = tuple((a, e) for a, e in m if not self.isconst(a))
                    fold[rm] = fold.get(rm, 0) + (Fraction(float(x) * self.ref_mono(cm)) if cm else x)
                prim = {m: x for m, x in fold.items() if x}
                if not prim: prim = {(): F1}
            nc = [m for m in prim if m]
            lead = min(nc) if nc else min(prim)
        c = abs(prim[lead])
        prim = {m: v / c for m, v in prim.items()}
        return c, mono, prim
    def isconst(self, a):
        k, d, _, rf = self.atoms[a]
        if rf is None: return False
        return k in ("p", "pi") or (k == "E" and d == ()) or (k == "L" and all(self.isconst(b) for mm, _ in d for b, _ in mm))
    def positive_mono(self, m):
        return all(self.atoms[a][2] or (e.denominator == 1 and e % 2 == 0) for a, e in m)
    def positive_poly(self, p):
        return all(c > 0 and self.positive_mono(m) for m, c in p.items())
    def sum_atom(self, prim):
        k = self.key(prim)
        i = self.index.get(("S", k))
        if i is not None: return i
        r = self.ref(prim)
        if r is not None and r != 0 and len(prim) > 1:
            for j, (pj, rj) in self.fnargs.get("S", {}).items():
                if abs(rj - r) <= (1e-9 if not self.snap else 1e-5) * abs(r):
                    try:
                        d = self.addp(prim, pj, -F1)
                        if self.is_zero(d) or self.snap and self.is_zero(d, self.snap, self.absscale(prim, pj)): 
                            self.index[("S", k)] = j
                            return j
                    except Unsupported: pass
        i = self.atom("S", k, self.positive_poly(prim), r)
        if r is not None: self.fnargs.setdefault("S", {})[i] = (prim, r)
        return i
    def powp(self, p, e):
        if e == 0: return {(): F1}
        if e == 1: return p
        if not p:
            if e > 0: return {}
            raise Unsupported("division by an expression that is identically zero")
        ck = (self.key(p), e)
        r = self.pw_cache.get(ck)
        if r is None:
            r = self._powp(p, e); self.pw_cache[ck] = r
        return r
    def _powp(self, p, e):
        integer = e.denominator == 1
        if len(p) == 1:
            (m, c), = p.items()
            if integer:
                o = {(): c ** int(e)}
                for a, k in m: o = self.mulp(o, {((a, k * e),): F1} if self.atoms[a][0] != "p" else self.const_pow(Fraction(self.atoms[a][1]), k * e))
                return o
            np_ = [(a, k) for a, k in m if not self.atoms[a][2] and not (k.denominator != 1)]
            ok = c > 0 and (not np_ or (len(np_) == 1 and (np_[0][1] % 2 == 1 or ((np_[0][1] * e).denominator == 1 and (np_[0][1] * e) % 2 == 0))))
            if ok:
                o = self.const_pow(c, e)
                for a, k in m: o = self.mulp(o, {((a, k * e),): F1} if self.atoms[a][0] != "p" else self.const_pow(Fraction(self.atoms[a][1]), k * e))
                return o
            if np_ and np_[0][1] < 0:        # canonical orientation: base > 0 wherever the power is defined
                return self._powp({tuple((a, -k) for a, k in m): 1 / c}, -e)
            o = self.const_pow(abs(c), e)
            for a, k in m:
                if self.atoms[a][2]: o = self.mulp(o, {((a, k * e),): F1} if self.atoms[a][0] != "p" else self.const_pow(Fraction(self.atoms[a][1]), k * e))
            return self.mulp(o, self.apoly(self.sum_atom({tuple((a, k) for a, k in m if not self.atoms[a][2]): Fraction(1 if c > 0 else -1)}), e))
        if integer and 1 < e <= 8 and len(p) ** int(e) < (4000 if e == 2 else 1500) and (not self.snap or len(p) ** int(e) <= 64):
            o = p
            for _ in range(int(e) - 1): o = self.mulp(o, p)
            return o
        c, mono, prim = self.content(p)
        if integer:
            sgn = 1
            r = self.ref(prim)
            if (r is not None and r < 0) or (r is None and prim[min(prim)] < 0):
                prim = self.scale(prim, -F1); sgn = -1
            o = {(): (c * sgn) ** int(e)}
            o = self.mulp(o, {tuple((a, k * e) for a, k in mono): F1})
            return self.mulp(o, self.apoly(self.sum_atom(prim), e))
        if all(self.atoms[a][2] for a, _ in mono):
            o = self.mulp(self.const_pow(c, e), {tuple((a, k * e) for a, k in mono): F1})
            return self.mulp(o, self.apoly(self.sum_atom(prim), e))
        # pull only the positive atoms
        pos = tuple((a, k) for a, k in mono if self.atoms[a][2])
        rest = tuple((a, k) for a, k in mono if not self.atoms[a][2])
        if any(k < 0 for _, k in rest):
            sa = self.sum_atom(prim)
            if all(a != sa for a, _ in rest):
                o = self.mulp(self.const_pow(c, e), {tuple((a, k * e) for a, k in pos): F1})
                return self.mulp(o, self.powp({tuple(sorted(rest + ((sa, F1),))): F1}, e))
        prim2 = self.mulp(prim, {rest: F1})
        o = self.mulp(self.const_pow(c, e), {tuple((a, k * e) for a, k in pos): F1})
        return self.mulp(o, self.apoly(self.sum_atom(prim2), e))

    # --------------------------------------------------------------------------------- functions
    def same_arg(self, kind, p):
        """an already registered argument provably equal to p, up to sign"""
        L = self.fnargs.setdefault(kind, [])
        r = self.ref(p)
        k = self.key(p)
        for (pk, pp, rr, res) in L:
            if pk == k: return 1, res
        if r is not None:
            for (pk, pp, rr, res) in L:
                if rr is None: continue
                for s in (1, -1):
                    if abs(rr - s * r) <= 1e-9 * max(1e-300, abs(r)) :
                        try:
                            if self.is_zero(self.addp(pp, p, -Fraction(s))): return s, res
                        except Unsupported: pass
        return 0, None
    def reg_arg(self, kind, p, res): self.fnargs.setdefault(kind, []).append((self.key(p), p, self.ref(p), res))
    def expp(self, p):
        if not p: return {(): F1}
        s, res = self.same_arg("exp", p)
        if s: return res if s == 1 else self.powp(res, -F1)
        o = {(): F1}
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "L":
                o = self.mulp(o, self.powp(self.poly_of_key(self.atoms[m[0][0]][1]), c)); continue
            r = self.ref_mono(m)
            try: r = math.exp(r) if r is not None and abs(r) < 700 else None
            except OverflowError: r = None
            o = self.mulp(o, self.apoly(self.atom("E", m, True, r), c))
        self.reg_arg("exp", p, o)
        return o
    def logp(self, p):
        if not p: raise Unsupported("log(0)")
        def lconst(c):
            o = {}
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for pr, k in factor(n).items():
                    o = self.addp(o, self.apoly(self.atom("L", self.key({(): Fraction(pr)}), False, math.log(pr))), Fraction(s * k))
            return o
        def latom(key, ref):
            return self.apoly(self.atom("L", key, False, math.log(ref) if ref and ref > 0 else None))
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.atoms[a][2] for a, _ in m):
                o = lconst(c)
                for a, e in m:
                    k, d, _, rf = self.atoms[a]
                    if k == "E": o = self.addp(o, {d: F1}, e)
                    elif k == "p": o = self.addp(o, lconst(Fraction(d)), e)
                    else: o = self.addp(o, latom(self.key(self.apoly(a)), rf), e)
                return o
        else:
            c, mono, prim = self.content(p)
            if all(self.atoms[a][2] for a, _ in mono):
                o = lconst(c)
                if mono: o = self.addp(o, self.logp({mono: F1}))
                s, res = self.same_arg("logS", prim)
                if s == 1: return self.addp(o, res)
                res = latom(self.key(self.apoly(self.sum_atom(prim))), self.ref(prim))
                self.reg_arg("logS", prim, res)
                return self.addp(o, res)
        s, res = self.same_arg("log", p)
        if s == 1: return res
        r = self.ref(p); res = latom(self.key(p), r); self.reg_arg("log", p, res)
        return res
    def trigfn(self, name, p):
        """sin / cos"""
        if not p: return {} if name == "sin" else {(): F1}
        # inverse compositions
        if len(p) == 1:
            (m, c), = p.items()
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] in ("asin", "acos", "atan"):
                k = self.atoms[m[0][0]][0]; x = self.poly_of_key(self.atoms[m[0][0]][1]); h = Fraction(1, 2)
                x2 = self.mulp(x, x)
                if k == "asin": o = x if name == "sin" else self.powp(self.addp({(): F1}, x2, -F1), h)
                elif k == "acos": o = x if name == "cos" else self.powp(self.addp({(): F1}, x2, -F1), h)
                else:
                    d = self.powp(self.addp({(): F1}, x2), -h)
                    o = d if name == "cos" else self.mulp(x, d)
                return self.scale(o, c) if name == "sin" else o
        s, res = self.same_arg("trig", p)
        if not s:
            r = self.ref(p); k = self.key(p)
            # canonical sign: positive leading coefficient
            sg = 1
            if p[min(p)] < 0: p = self.scale(p, -F1); sg = -1; k = self.key(p); r = -r if r is not None else None
            # quarter turns: arg = n*pi/2 (+ rest)
            res = (self.apoly(self.atom("sin", k, False, math.sin(r) if r is not None else None)), self.apoly(self.atom("cos", k, False, math.cos(r) if r is not None else None)))
            pim = None
            for m in p:
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "pi": pim = m
            if pim is not None and (2 * p[pim]).denominator == 1:
                n = int(2 * p[pim]) % 4; rest = {m: c for m, c in p.items() if m != pim}
                sn, cs = self.trigfn("sin", rest), self.trigfn("cos", rest)
                res = [(sn, cs), (cs, self.scale(sn, -F1)), (self.scale(sn, -F1), self.scale(cs, -F1)), (self.scale(cs, -F1), sn)][n]
            self.reg_arg("trig", p, res); s = sg
        if name == "cos": return res[1]
        return res[0] if s == 1 else self.scale(res[0], -F1)
    def func(self, name, p):
        if name == "exp": return self.expp(p)
        if name == "log": return self.logp(p)
        if name in ("sin", "cos"): return self.trigfn(name, p)
        if name == "tan": return self.mulp(self.trigfn("sin", p), self.powp(self.trigfn("cos", p), -F1))
        h = Fraction(1, 2)
        if name == "sinh": return self.scale(self.addp(self.expp(p), self.expp(self.scale(p, -F1)), -F1), h)
        if name == "cosh": return self.scale(self.addp(self.expp(p), self.expp(self.scale(p, -F1))), h)
        if name == "tanhc": return self.mulp(self.func("tanh", p), self.powp(p, -F1))
        if name == "tanh":
            e2 = self.expp(self.scale(p, Fraction(2)))
            return self.mulp(self.addp(e2, {(): F1}, -F1), self.powp(self.addp(e2, {(): F1}), -F1))
        if name in ("asin", "acos", "atan"):
            if not p: 
                if name == "acos": return self.scale(self.apoly(self.atom("pi", None, True, math.pi)), h)
                return {}
            s, res = self.same_arg(name, p)
            if s == 1: return res
            if s == -1:
                if name == "acos": return self.addp(self.apoly(self.atom("pi", None, True, math.pi)), res, -F1)
                return self.scale(res, -F1)
            r = self.ref(p)
            try: rr = getattr(math, name)(r) if r is not None else None
            except ValueError: rr = None
            res = self.apoly(self.atom(name, self.key(p), False, rr)); self.reg_arg(name, p, res)
            return res
        raise Unsupported("function " + name)

    # --------------------------------------------------------------------------------- terms -> polys
    def refvar(self, t):
        lo, hi = self.dom.get(t.args[0])
        return self.dom.sample(t.args[0], 0.15 + 0.7 * vhash(self.refseed, t.args[0], *[str(a) for a in t.args[1:]]))
    def norm(self, t):
        cache = self.cache
        for s in subterms(t):
            if s.id in cache or s.is_bool: continue
            o = s.op
            if o == "c": r = {(): s.args[0]} if s.args[0] else {}
            elif o == "pi": r = self.apoly(self.atom("pi", None, True, math.pi))
            elif o == "v": r = self.apoly(self.atom("v", s, self.dom.positive(s.args[0]), self.refvar(s)))
            elif o == "int": r = self.int_poly(s.args[0])
            elif o == "+": r = self.addp(cache[s.args[0].id], cache[s.args[1].id])
            elif o == "*": r = self.mulcancel(cache[s.args[0].id], cache[s.args[1].id])
            elif o == "^":
                b = cache[s.args[0].id]; e = cache[s.args[1].id]
                if not e: r = {(): F1}
                elif len(e) == 1 and () in e: r = self.powp(b, e[()])
                else: r = self.sympow(b, e)
            elif o == "fn": r = self.func(s.args[0], cache[s.args[1].id])
            elif o == "uf":
                args = tuple(self.key(cache[a.id]) for a in s.args[1:])
                # congruence: arguments provably equal
                r = None
                for (n2, ps, res) in self.fnargs.setdefault("uf", []):
                    if n2 == s.args[0] and len(ps) == len(args) and all(self.is_zero(self.addp(x, cache[a.id], -F1)) for x, a in zip(ps, s.args[1:])): r = res; break
                if r is None:
                    r = self.apoly(self.atom("uf", (s.args[0], args), self.dom.positive(s.args[0]), self.dom.sample(s.args[0], 0.15 + 0.7 * vhash(self.refseed, s.args[0], args))))
                    self.fnargs["uf"].append((s.args[0], [cache[a.id] for a in s.args[1:]], r))
            elif o == "ite": raise Unsupported("ite in normal form")
            else: raise Unsupported("normal form of " + o)
            cache[s.id] = r
        return cache[t.id]
    def mulcancel(self, a, b):
        """product; a sum that stands in every denominator of the other factor cancels instead of being multiplied out"""
        for x, y in ((a, b), (b, a)):
            if len(x) < 2 or not y or len(y) > 40: continue
            den = None
            for m in y:
                d = {i for i, e in m if e <= -1 and e.denominator == 1 and self.atoms[i][0] == "S"}
                den = d if den is None else den & d
                if not den: break
            if not den or not any(len(self.atoms[i][1]) == len(x) for i in den): continue
            c, mono, prim = self.content(x)
            for sg in (1, -1):
                i = self.index.get(("S", self.key(prim if sg > 0 else self.scale(prim, -F1))))
                if i in den: return self.mulp(self.mulp(y, {((i, F1),): c * sg}), {mono: F1})
        return self.mulp(a, b)
    def int_poly(self, x):
        o = {(): Fraction(x.c)} if x.c else {}
        for k, v in x.m:
            o = self.addp(o, self.apoly(self.atom("v", V("int:" + k), True, 3.0 + 4 * vhash(k))), Fraction(v))
        return o
    def sympow(self, b, e):
        """base ** (symbolic exponent)"""
        c0 = e.get((), F0); rest = {m: c for m, c in e.items() if m != ()}
        o = self.powp(b, c0) if c0 else {(): F1}
        if len(b) == 1:
            (m, c), = b.items()
            if c > 0 and all(self.atoms[a][2] for a, _ in m):
                parts = [(a, k) for a, k in m]
            else: parts = None; 
        else:
            c, mono, prim = self.content(b); parts = None
            if all(self.atoms[a][2] for a, _ in mono):
                parts = [(a, k) for a, k in mono] + [(self.sum_atom(prim), F1)]
        if parts is None: parts = [(self.sum_atom(b), F1)]; c = F1
        if c != 1:
            for n, s in ((c.numerator, 1), (c.denominator, -1)):
                for pr, k in factor(n).items(): parts.append((self.atom("p", pr, True, float(pr)), Fraction(k * s)))
        for m, cc in rest.items():
            for a, k in parts:
                kind, d, pos, rf = self.atoms[a]
                if kind == "E":      # exp(m')^(m) = exp(m*m')
                    kk, mm = self.mulm(d, m); o = self.mulp(o, self.expp({mm: kk * k * cc})); continue
                r = self.ref_mono(m)
                try: rr = rf ** r if rf is not None and rf > 0 and r is not None else None
                except OverflowError: rr = None
                o = self.mulp(o, self.apoly(self.atom("P", (a, m), True, rr), k * cc))
        return o

    # --------------------------------------------------------------------------------- zero test
    def is_zero(self, p, tol=None, scale=None):
        """True: p == 0 proved (tol: |p| <= tol * sum of the magnitudes of its terms, `scale` = abs. polynomial).  False: not proved."""
        p = self.trig(p)
        if tol:
            s = {m: abs(c) for m, c in p.items()} if scale is None else scale
            s = self.trig_abs(s)
        else: s = None
        guard = 0
        while p:
            guard += 1
            if guard > 60: return False
            # highest sum atom present
            best = None
            for m in (p if s is None else s):
                for a, e in m:
                    if self.atoms[a][0] == "S" and (best is None or a > best): best = a
            neg = None
            if best is None:
                for m in (p if s is None else s):
                    for a, e in m:
                        if self.atoms[a][0] == "sin" and e < 0: neg = a
            if best is None and neg is None: break
            if best is not None:
                prim = self.poly_of_key(self.atoms[best][1])
                aprim = {m: abs(c) for m, c in prim.items()}
                def classes(pp):
                    cl = {}
                    for m, c in pp.items():
                        e = F0; rest = []
                        for a, k in m:
                            if a == best: e = k
                            else: rest.append((a, k))
                        fl = e.numerator // e.denominator
                        cl.setdefault(e - fl, {}).setdefault(fl, {})[tuple(rest)] = c
                    return cl
                def expand(byint, lo, pr):
                    acc = {}; pw = {(): F1}; cur = 0
                    for k in sorted(byint):
                        while cur < k - lo: pw = self.mulp(pw, pr); cur += 1
                        acc = self.addp(acc, self.mulp(byint[k], pw))
                    return acc
                cp = classes(p); cs = classes(s) if s is not None else None
                res = []
                for fr, byint in cp.items():
                    lo = min(byint); sc = None
                    if cs is not None:
                        sb = cs.get(fr, {}); lo = min([lo] + list(sb)); sc = expand(sb, lo, aprim)
                    res.append((expand(byint, lo, prim), sc))
                if len(res) == 1: p, s = res[0]
                else: return all(self.is_zero(r, tol, sc) for r, sc in res)
            else:
                lo = min(dict(m).get(neg, F0) for m in (list(p) + list(s or ())))
                def shift(pp):
                    o = {}
                    for m, c in pp.items():
                        k, mm = self.mulm(m, ((neg, -lo),)); o[mm] = o.get(mm, F0) + c * k
                    return {m: c for m, c in o.items() if c}
                p = self.trig(shift(p))
                if s is not None: s = self.trig_abs(shift(s))
        if not p: return True
        if tol: return self.near_zero(p, tol, s)
        return False
    def divide(self, p, d, limit=400):
        """exact quotient p / d or None"""
        vs = sorted({a for m in d for a, _ in m}); allv = sorted({a for m in p for a, _ in m} | set(vs)); ix = {a: j for j, a in enumerate(allv)}
        def vec(m):
            v = [F0] * len(allv)
            for a, e in m: v[ix[a]] = e
            return tuple(v)
        P = {vec(m): c for m, c in p.items()}; D = sorted(((vec(m), c) for m, c in d.items()), reverse=True)
        l, lc = D[0]; need = [ix[a] for a in vs]; Q = {}
        for _ in range(limit):
            if not P: break
            top = max(P); t = tuple(x - y for x, y in zip(top, l))
            if any(t[j] < 0 for j in need): return None
            c = P[top] / lc; Q[t] = c
            for v, k in D:
                w = tuple(x + y for x, y in zip(t, v)); n = P.get(w, F0) - c * k
                if n: P[w] = n
                else: P.pop(w, None)
        if P: return None
        return {tuple((allv[j], e) for j, e in enumerate(t) if e): c for t, c in Q.items()}
    def cleared(self, p, limit=200):
        """p times a product of powers of its sum atoms, expanded until no sum atom is left -> (polynomial, atoms of unknown sign multiplied in an odd number of times) or None"""
        odd = []; used = []
        for _ in range(40):
            best = max((a for m in p for a, e in m if self.atoms[a][0] == "S"), default=None)
            if best is None:
                for a, prim in used:                 # common factors introduced by the clearing are divided out again
                    while len(p) > 1:
                        d = self.divide(p, prim)
                        if d is None: break
                        p = d
                        if not self.atoms[a][2]:
                            if a in odd: odd.remove(a)
                            else: odd.append(a)
                return p, tuple(sorted(odd))
            byint = {}; fr = None
            for m, c in p.items():
                e = F0; rest = []
                for a, k in m:
                    if a == best: e = k
                    else: rest.append((a, k))
                fl = e.numerator // e.denominator
                if fr is None: fr = e - fl
                elif fr != e - fl: return None
                byint.setdefault(fl, {})[tuple(rest)] = c
            prim = self.poly_of_key(self.atoms[best][1]); lo = min(byint)
            if not any(self.atoms[a][0] == "S" for m in prim for a, _ in m): used.append((best, prim))
            if fr == 0 and not self.atoms[best][2] and lo % 2: odd.append(best)
            acc = {}; pw = {(): F1}; cur = 0
            for k in sorted(byint):
                while cur < k - lo:
                    pw = self.mulp(pw, prim); cur += 1
                    if len(pw) > limit: return None
                if len(pw) * len(byint[k]) > 20 * limit: return None
                acc = self.addp(acc, self.mulp(byint[k], pw))
            p = acc
            if not p or len(p) > limit: return None
        return None
    def trig_abs(self, s):
        if not any(self.atoms[a][0] == "sin" for m in s for a, _ in m): return s
        o = {}
        for m, c in s.items():
            for mm, k in self.trig({m: c}).items(): o[mm] = o.get(mm, F0) + abs(k)
        return o
    def near_zero(self, p, tol, s=None):
        """all coefficients vanish up to rounding of the float constants in the source"""
        def groups(pp, ab):
            g = {}
            for m, c in pp.items():
                cm = 1.0; vm = []
                for a, e in m:
                    k, d, pos, rf = self.atoms[a]
                    if k in ("p", "pi") or (k == "E" and d == ()) or (k == "L" and d and all(mm == () for mm, _ in d)): cm *= rf ** float(e)
                    elif k in ("sin", "cos", "E", "asin", "acos", "atan") and self.const_data(k, d): cm *= rf ** float(e)
                    else: vm.append((a, round(float(e), 9)))
                g.setdefault(tuple(vm), []).append(abs(float(c) * cm) if ab else float(c) * cm)
            return g
        g = groups(p, False); gs = groups(s, True) if s is not None else None
        for k, v in g.items():
            sc = max(abs(x) for x in v)
            if gs is not None: sc = max(sc, math.fsum(gs.get(k, [0.0])))
            if not abs(math.fsum(v)) <= tol * sc: return False
        return True
    def const_data(self, k, d):
        ms = [d] if k == "E" else [m for m, _ in d]
        return all(self.atoms[a][0] in ("p", "pi") for m in ms for a, _ in m)
    def equal(self, a, b, tol=None):
        a, b = self.norm(a), self.norm(b)
        return self.is_zero(self.addp(a, b, -F1), tol, self.absscale(a, b) if tol else None)
    def absscale(self, a, b):
        s = {m: abs(c) for m, c in a.items()}
        for m, c in b.items(): s[m] = s.get(m, F0) + abs(c)
        return s

_fc = {}
def factor(n):
    """prime factorisation by trial division; a large unfactored cofactor is kept as one 'prime' (sound: treated as opaque base)"""
    r = _fc.get(n)
    if r is not None: return r
    m = n; r = {}
    p = 2
    while p * p <= m and p < 20000:
        while m % p == 0: r[p] = r.get(p, 0) + 1; m //= p
        p += 1 if p == 2 else 2
    if m > 1: r[m] = r.get(m, 0) + 1
    _fc[n] = r
    return r
