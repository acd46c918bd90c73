"""Term-level interval reasoning with exact and infinite end points: decides sign claims such as 0 <= 1 - exp(g (exp(-h) - 1)) for all g, h > 0 from the
structure of the term.  Ranges of variables: positive inputs [0, inf), hard preconditions, single-variable path facts.  tanhc(x) = tanh(x)/x lies in [0, 1]."""
from fractions import Fraction
import mpmath
from .terms import *
from . import interval
INF = float("inf"); NINF = -INF
class Fail(Exception): pass
def mulz(a, b): return Fraction(0) if a == 0 or b == 0 else (a * b if not (isinstance(a, float) or isinstance(b, float)) else (INF if (a > 0) == (b > 0) else NINF))
def addz(a, b, up):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float) and a != b: return INF if up else NINF
        return a if isinstance(a, float) else b
    return a + b
def out(x, up):
    """mpf -> Fraction rounded outward"""
    m, e = x.man_exp if not isinstance(x, tuple) else x
    f = Fraction(int(m)) * (Fraction(2) ** int(e)); d = abs(f) / 10 ** 40
    return f + d if up else f - d
def mpx(f, x):
    old = mpmath.mp.dps; mpmath.mp.dps = 60
    try: return f(mpmath.mpf(x.numerator) / x.denominator)
    finally: mpmath.mp.dps = old
def mono(f, lo, hi, exact, l, h):
    """increasing function on [lo, hi]; exact: {argument: value}, l / h limits at -inf / +inf"""
    r = []
    for x, up in ((lo, False), (hi, True)):
        if x == NINF: r.append(l)
        elif x == INF: r.append(h)
        elif x in exact: r.append(exact[x])
        else: r.append(out(mpx(f, x), up))
    return tuple(r)
Z, I1 = Fraction(0), Fraction(1)
class TIV:
    def __init__(self, norm, dom, facts): self.norm = norm; self.dom = dom; self.facts = facts; self.c = {}; self.vb = {}
    def var(self, t):
        n = t.args[0]; lo, hi = NINF, INF
        h = getattr(self.dom, "hard", {}).get(n)
        if h:
            if h[0] is not None: lo = Fraction(h[0]).limit_denominator(10 ** 12)
            if h[1] is not None: hi = Fraction(h[1]).limit_denominator(10 ** 12)
        if self.dom.positive(n) and lo < 0: lo = Z
        if self.facts is not None:
            try:
                p = self.norm.norm(t); (m,) = p; ((a, e),) = m
                if e == 1 and p[m] == 1:
                    b = interval.bounds(self.norm, self.dom, self.facts, [a])[a]
                    if b[0] is not None: lo = max(lo, b[0])
                    if b[1] is not None: hi = min(hi, b[1])
            except Exception: pass
        return lo, hi
    def ev(self, t):
        r = self.c.get(t.id)
        if r is None: r = self.ev_(t); self.c[t.id] = r
        return r
    def ev_(self, t):
        op = t.op
        if op == "c": return t.args[0], t.args[0]
        if op == "pi": return Fraction(314159265358979, 10 ** 14), Fraction(314159265358980, 10 ** 14)
        if op == "v": return self.var(t)
        if op == "+":
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            return addz(a[0], b[0], False), addz(a[1], b[1], True)
        if op == "*":
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            ps = [mulz(x, y) for x in a for y in b]
            if t.args[0] is t.args[1]: ps = [max(p, Z) for p in ps]
            return min(ps), max(ps)
        if op == "^":
            b = t.args[1]
            if b.op != "c": raise Fail("exponent")
            e = b.args[0]; lo, hi = self.ev(t.args[0])
            if e < 0:
                l, h = self.pw(lo, hi, -e)
                if l < 0 < h or (l == 0 == h): raise Fail("division")
                inv = lambda x, z: (z if x == 0 else (Z if isinstance(x, float) else 1 / x))
                return (inv(h, None), inv(l, INF)) if l >= 0 else (inv(h, NINF), inv(l, None))
            return self.pw(lo, hi, e)
        if op == "fn":
            n = t.args[0]
            if n == "tanhc": return Z, I1
            lo, hi = self.ev(t.args[1])
            if n == "exp": return mono(mpmath.exp, lo, hi, {Z: I1}, Z, INF)
            if n == "tanh": return mono(mpmath.tanh, lo, hi, {Z: Z}, -I1, I1)
            if n == "sinh": return mono(mpmath.sinh, lo, hi, {Z: Z}, NINF, INF)
            if n == "atan": return mono(mpmath.atan, lo, hi, {Z: Z}, Fraction(-16, 10), Fraction(16, 10))
            if n == "log":
                if lo < 0: raise Fail("log")
                l = NINF if lo == 0 else None
                a, b = mono(mpmath.log, I1 if lo == 0 else lo, hi, {I1: Z}, NINF, INF)
                return (NINF if lo == 0 else a), (NINF if hi == 0 else b)
            if n in ("sin", "cos"): return -I1, I1
            raise Fail(n)
        raise Fail(op)
    def pw(self, lo, hi, e):
        if e.denominator == 1 and e.numerator % 2 == 0:
            f = lambda x: INF if isinstance(x, float) else x ** int(e)
            a, b = f(lo), f(hi)
            return (Z if lo <= 0 <= hi else min(a, b)), max(a, b)
        if e.denominator == 1:
            f = lambda x: x if isinstance(x, float) else x ** int(e)
            return f(lo), f(hi)
        if lo < 0: raise Fail("root")
        ee = mpmath.mpf(e.numerator) / e.denominator
        return mono(lambda x: mpmath.power(x, mpmath.mpf(e.numerator) / e.denominator), lo, hi, {Z: Z, I1: I1}, NINF, INF)
def prove(norm, dom, l, r, rel, facts):
    T = TIV(norm, dom, facts)
    try:
        a, b = T.ev(l), T.ev(r)
        if (a[1] <= b[0] if rel == "<=" else a[1] < b[0]) and not (isinstance(a[1], float) or isinstance(b[0], float)): return True
        d = T.ev(sub(r, l))[0]
        return d >= 0 if rel == "<=" else d > 0
    except (Fail, ZeroDivisionError, OverflowError): return False
