"""Interval branch-and-bound back end for inequalities over a bounded box: the box comes from the facts of the path (single-variable linear
conditions) and from hard preconditions only.  Interval arithmetic is outward rounded (mpmath.iv), so acceptance is a proof.  A polynomial in one
variable is bounded through its Bernstein coefficients, which removes the dependency problem for tight tolerances."""
import heapq, time
from fractions import Fraction
import mpmath
from mpmath import iv
from math import comb
from .terms import *

class Fail(Exception): pass

def bounds(norm, dom, facts, atoms):
    """variable atom -> [lo, hi] (Fractions or None)"""
    B = {a: [None, None] for a in atoms}
    for a in atoms:
        t = norm.atoms[a][1]; h = getattr(dom, "hard", {}).get(t.args[0])
        if h:
            for k in (0, 1):
                if h[k] is not None: B[a][k] = Fraction(h[k]).limit_denominator(10**12) if not isinstance(h[k], int) else Fraction(h[k])
        elif dom.positive(t.args[0]) and B[a][0] is None: B[a][0] = Fraction(0)
    for key, al in facts.sign.items():
        p = dict(key); ms = [m for m in p if m]
        if len(ms) != 1 or len(ms[0]) != 1: continue
        (a, e), = ms[0]
        if a not in B or e != 1: continue
        c1, c0 = p[ms[0]], p.get((), Fraction(0)); z = -c0 / c1        # sign(c1*(v - z)) in al
        up = ("+" in al) if c1 > 0 else ("-" in al); dn = ("-" in al) if c1 > 0 else ("+" in al)
        if not dn: B[a][0] = z if B[a][0] is None else max(B[a][0], z)
        if not up: B[a][1] = z if B[a][1] is None else min(B[a][1], z)
    return B

def base_vars(norm, p):
    out = set(); seen = set(); st = [a for m in p for a, _ in m]
    while st:
        a = st.pop()
        if a in seen: continue
        seen.add(a); k, d, _, _ = norm.atoms[a]
        if k == "v": out.add(a)
        elif k in ("pi", "p"): pass
        elif k == "E": st += [b for b, _ in d]
        elif k == "P": st.append(d[0]); st += [b for b, _ in d[1]]
        elif k in ("S", "L", "sin", "cos", "asin", "acos", "atan"): st += [b for m, _ in d for b, _ in m]
        else: raise Fail(k)
    return out

def frac(c): return iv.mpf(c.numerator) / iv.mpf(c.denominator)
def ipow(x, e):
    if e.denominator == 1:
        n = int(e)
        if n < 0:
            if x.a <= 0 <= x.b: raise Fail("division by an interval containing zero")
            return 1 / (x ** (-n))
        return x ** n
    if x.a <= 0:
        if x.b <= 0: raise Fail("root of a negative interval")
        if e < 0: raise Fail("root of zero")
        return iv.mpf([0, (iv.exp(frac(e) * iv.log(iv.mpf(x.b)))).b])
    return iv.exp(frac(e) * iv.log(x))

class Ev:
    def __init__(self, norm, box): self.n = norm; self.box = box; self.c = {}
    def atom(self, a):
        r = self.c.get(a)
        if r is not None: return r
        k, d, pos, _ = self.n.atoms[a]
        if k == "v": r = self.box[a]
        elif k == "pi": r = +iv.pi
        elif k == "p": r = iv.mpf(int(d))
        elif k == "S": r = self.poly(dict(d))
        elif k == "E": r = iv.exp(self.mono(d))
        elif k == "L":
            x = self.poly(dict(d))
            if x.a <= 0: raise Fail("log")
            r = iv.log(x)
        elif k == "sin": r = iv.sin(self.poly(dict(d)))
        elif k == "cos": r = iv.cos(self.poly(dict(d)))
        elif k == "P":
            x = self.atom(d[0])
            if x.a <= 0: raise Fail("power")
            r = iv.exp(self.mono(d[1]) * iv.log(x))
        else: raise Fail(k)
        self.c[a] = r
        return r
    def mono(self, m):
        r = iv.mpf(1)
        for a, e in m: r = r * ipow(self.atom(a), e)
        return r
    def poly(self, p):
        r = iv.mpf(0)
        for m, c in p.items(): r = r + frac(c) * self.mono(m)
        return r

def univariate(norm, p, ev):
    """-> (atom, {degree: interval coefficient}) if p is a polynomial of one variable with constant coefficients"""
    vs = base_vars(norm, p)
    if len(vs) != 1: return None
    (x,) = vs; co = {}
    for m, c in p.items():
        d = 0; rest = []
        for a, e in m:
            if a == x: d = e
            else: rest.append((a, e))
        if base_vars(norm, {tuple(rest): 1}): return None
        if d != int(d) or d < 0 or d > 12: return None
        co[int(d)] = co.get(int(d), iv.mpf(0)) + frac(c) * ev.mono(tuple(rest))
    return x, co

def bernstein(co, lo, hi):
    """range of sum co[k] x^k over [lo,hi] -> list of Bernstein coefficients (intervals)"""
    n = max(co) if co else 0; w = hi - lo
    # shift to t in [0,1]
    q = [iv.mpf(0)] * (n + 1)
    for k, c in co.items():
        for j in range(k + 1): q[j] = q[j] + c * comb(k, j) * frac(lo) ** (k - j) * frac(w) ** j
    return [sum((iv.mpf(comb(i, j)) / comb(n, j) * q[j] for j in range(i + 1)), iv.mpf(0)) for i in range(n + 1)]

def prove(norm, dom, p, strict, facts, budget=3.0, maxbox=3000):
    """p > 0 (strict) or p >= 0 on the box of the facts"""
    old = iv.prec; iv.prec = 160
    try:
        vs = base_vars(norm, p)
        if len(vs) > 3: return False
        B = bounds(norm, dom, facts, vs)
        if any(b[0] is None or b[1] is None for b in B.values()): return False
        ok = lambda x: x.a > 0 if strict else x.a >= 0
        u = univariate(norm, p, Ev(norm, {}) ) if len(vs) == 1 else None
        t0 = time.time(); n = 0
        if u is not None:
            x, co = u; st = [tuple(B[x])]
            while st:
                lo, hi = st.pop(); n += 1
                if n > maxbox or time.time() - t0 > budget: return False
                if all(ok(b) for b in bernstein(co, lo, hi)): continue
                if hi - lo == 0: return False
                mid = (lo + hi) / 2
                # a definite counterexample ends the search
                v = bernstein(co, mid, mid)[0]
                if v.b < 0: return False
                st += [(lo, mid), (mid, hi)]
            return True
        iv.prec = 64
        order = sorted(vs); st = [tuple(tuple(B[a]) for a in order)]
        while st:
            box = st.pop(); n += 1
            if n > maxbox or time.time() - t0 > budget: return False
            try: v = Ev(norm, {a: iv.mpf([frac(lo).a, frac(hi).b]) for a, (lo, hi) in zip(order, box)}).poly(p)
            except Fail: v = None
            if v is not None and ok(v): continue
            k = max(range(len(box)), key=lambda j: (box[j][1] - box[j][0]) / ((B[order[j]][1] - B[order[j]][0]) or 1))
            lo, hi = box[k]
            if hi == lo: return False
            mid = (lo + hi) / 2
            for s in ((lo, mid), (mid, hi)): st.append(box[:k] + (s,) + box[k + 1:])
        return True
    except (Fail, ZeroDivisionError, ValueError, OverflowError): return False
    finally: iv.prec = old
