"""Hash-consed term language over the reals (with integer index expressions), used as the
logic of the verification conditions.  Every arithmetic operator of the executed numpy code is mapped to
exactly one operator of this language; floats are read as the simplest rational within 1 part in 2**50."""
from fractions import Fraction
import math, zlib

class Unsupported(Exception):
    """The construct is outside the verifier's subset (never reported as a violation by itself)."""

class Infeasible(Exception):
    pass

# ----------------------------------------------------------------------------------------------- rationals
_qcache = {}
def q(x):
    """float/int -> Fraction, floats as simplest rational within 2^-50 relative."""
    if isinstance(x, Fraction): return x
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    x = float(x)
    r = _qcache.get(x)
    if r is None:
        if x != x or x in (math.inf, -math.inf): raise Unsupported("non-finite constant %r" % x)
        f = Fraction(x)
        if f.denominator == 1: r = f
        else: r = simplest(f, abs(f) / (1 << 50))
        _qcache[x] = r
    return r

def simplest(f, eps):
    if f < 0: return -simplest(-f, eps)
    lo, hi = f - eps, f + eps
    def sb(lo, hi):
        fl = lo.numerator // lo.denominator
        if fl == lo: return Fraction(fl)
        if fl + 1 <= hi: return Fraction(fl + 1)
        return fl + 1 / sb(1 / (hi - fl), 1 / (lo - fl))
    return sb(lo, hi)

# ----------------------------------------------------------------------------------------------- integers
class SymInt:
    """linear integer expression: const + sum coef*sym"""
    __slots__ = ("c", "m", "_h")
    def __init__(self, c=0, m=()):
        self.c = c; self.m = tuple(sorted((k, v) for k, v in m if v)); self._h = hash((self.c, self.m))
    @staticmethod
    def sym(name): return SymInt(0, ((name, 1),))
    def simp(self): return self.c if not self.m else self
    @staticmethod
    def of(x):
        if isinstance(x, SymInt): return x
        try: return SymInt(int(x))
        except Exception: raise Unsupported("integer expression from %r" % (x,))
    def __add__(self, o):
        if isinstance(o, float): return Term.of(self) + o
        if not isinstance(o, (int, SymInt)) and not _isnpint(o): return NotImplemented
        o = SymInt.of(o); d = dict(self.m)
        for k, v in o.m: d[k] = d.get(k, 0) + v
        return SymInt(self.c + o.c, d.items()).simp()
    __radd__ = __add__
    def __neg__(self): return SymInt(-self.c, [(k, -v) for k, v in self.m]).simp()
    def __sub__(self, o):
        if isinstance(o, float): return Term.of(self) - o
        if not isinstance(o, (int, SymInt)) and not _isnpint(o): return NotImplemented
        return self + (-SymInt.of(o))
    def __rsub__(self, o): return (-self) + o if not isinstance(o, float) else o - Term.of(self)
    def __mul__(self, o):
        if isinstance(o, (int,)) or _isnpint(o): return SymInt(self.c * int(o), [(k, v * int(o)) for k, v in self.m]).simp()
        if isinstance(o, SymInt):
            if not o.m: return self * o.c
            raise Unsupported("nonlinear integer product")
        if isinstance(o, (float, Fraction)): return Term.of(self) * o
        return NotImplemented
    __rmul__ = __mul__
    def __truediv__(self, o): return Term.of(self) / Term.of(o)
    def __rtruediv__(self, o): return Term.of(o) / Term.of(self)
    def __floordiv__(self, o):
        if isinstance(o, int) and o and self.c % o == 0 and all(v % o == 0 for _, v in self.m):
            return SymInt(self.c // o, [(k, v // o) for k, v in self.m]).simp()
        raise Unsupported("floor division of symbolic integer")
    def __mod__(self, o):
        if isinstance(o, int) and all(v % o == 0 for _, v in self.m): return self.c % o
        raise Unsupported("mod of symbolic integer")
    def key(self): return (self.c, self.m)
    def same(self, o): return isinstance(o, SymInt) and self.c == o.c and self.m == o.m
    def __hash__(self): return self._h
    def __eq__(self, o):
        if isinstance(o, (int, SymInt)) or _isnpint(o):
            d = SymInt.of(self - o)
            if not d.m: return d.c == 0
            return bool(ieq(self, o))
        return False
    def __ne__(self, o): return not (self == o)
    def __lt__(self, o): return bool(ile(self + 1, o))
    def __le__(self, o): return bool(ile(self, o))
    def __gt__(self, o): return bool(ile(SymInt.of(o) + 1, self))
    def __ge__(self, o): return bool(ile(o, self))
    def __bool__(self): return self != 0
    def __index__(self): raise Unsupported("symbolic integer %r used where a concrete one is needed" % self)
    __int__ = __index__
    def __float__(self): raise Unsupported("float(symbolic integer)")
    def subst(self, d):
        r = self.c
        for k, v in self.m: r = r + v * d.get(k, SymInt.sym(k))
        return r
    def __repr__(self):
        s = "+".join((("%d*" % v if v != 1 else "") + k) for k, v in self.m)
        return "(%s%+d)" % (s, self.c) if self.c else s or str(self.c)

def _isnpint(o):
    return type(o).__module__ == "numpy" and hasattr(o, "dtype") and getattr(o.dtype, "kind", "") in "iu" and getattr(o, "shape", ()) == ()

# ----------------------------------------------------------------------------------------------- terms
_table = {}
ORACLE = None          # set by explore.Explorer

class Term:
    __slots__ = ("op", "args", "id", "__weakref__")
    __array_ufunc__ = None if False else None
    __array_priority__ = 10.0
    # numpy must treat Term as an opaque scalar object: delete the attribute so that object arrays work
    @staticmethod
    def mk(op, *args):
        key = (op,) + tuple(a.id if isinstance(a, Term) else (a.key() if isinstance(a, SymInt) else a) for a in args)
        t = _table.get(key)
        if t is None:
            t = object.__new__(Term); t.op = op; t.args = args; t.id = len(_table) + 1; _table[key] = t
        return t
    @staticmethod
    def of(x):
        if isinstance(x, Term): return x
        if isinstance(x, SymInt):
            if not x.m: return C(x.c)
            return Term.mk("int", x)
        if isinstance(x, (int, float, Fraction, bool)): return C(q(x))
        if hasattr(x, "dtype") and getattr(x, "shape", None) == () :
            if x.dtype == object: return Term.of(x.item())
            if x.dtype.kind in "fiub": return C(q(x.item()))
        if hasattr(x, "item") and getattr(x, "size", 0) == 1: return Term.of(x.item())
        raise Unsupported("cannot lift %r to a term" % type(x))
    # ------------------------------------------------------------------ structure
    @property
    def is_const(self): return self.op == "c"
    @property
    def is_bool(self): return self.op in BOOLOPS
    def __hash__(self): return self.id
    def __repr__(self): return show(self)
    def __format__(self, f): return show(self)
    # ------------------------------------------------------------------ arithmetic
    def __add__(s, o): return _bin(add, s, o)
    def __radd__(s, o): return _bin(add, o, s)
    def __sub__(s, o): return _bin(sub, s, o)
    def __rsub__(s, o): return _bin(sub, o, s)
    def __mul__(s, o): return _bin(mul, s, o)
    def __rmul__(s, o): return _bin(mul, o, s)
    def __truediv__(s, o): return _bin(div, s, o)
    def __rtruediv__(s, o): return _bin(div, o, s)
    def __pow__(s, o): return _bin(power, s, o)
    def __rpow__(s, o): return _bin(power, o, s)
    def __neg__(s): return mul(C(-1), s)
    def __pos__(s): return s
    def __abs__(s): return absolute(s)
    # ------------------------------------------------------------------ comparisons
    def __lt__(s, o): return _bin(lt, s, o)
    def __le__(s, o): return _bin(le, s, o)
    def __gt__(s, o): return _bin(lambda a, b: lt(b, a), s, o)
    def __ge__(s, o): return _bin(lambda a, b: le(b, a), s, o)
    def __eq__(s, o):
        try: return _bin(eq, s, o)
        except Unsupported: return NotImplemented
    def __ne__(s, o):
        try: r = _bin(eq, s, o)
        except Unsupported: return NotImplemented
        return r if r is NotImplemented else bnot(r)
    def __and__(s, o): return band(s, bof(o))
    __rand__ = __and__
    def __or__(s, o): return bor(s, bof(o))
    __ror__ = __or__
    def __invert__(s): return bnot(s)
    def __bool__(s):
        if s.op == "T": return True
        if s.op == "F": return False
        if s.op == "c": return s.args[0] != 0
        if not s.is_bool: s = bnot(eq(s, C(0)))
        if s.op in "TF": return s.op == "T"
        if ORACLE is None: raise Unsupported("truth value of symbolic condition %s" % show(s))
        return ORACLE.decide(s)
    def __float__(s):
        if s.op == "c": return float(s.args[0])
        if not free_vars(s):
            return float(evalf(s, {}))
        raise Unsupported("float() of a symbolic value")
    def __int__(s):
        if s.op == "c" and s.args[0].denominator == 1: return int(s.args[0])
        raise Unsupported("int() of a symbolic value")
    def __complex__(s): return complex(float(s))
    # ------------------------------------------------------------------ numpy object-array protocol
    def sqrt(s): return power(s, C(Fraction(1, 2)))
    def cbrt(s): return power(s, C(Fraction(1, 3)))
    def square(s): return mul(s, s)
    def exp(s): return fn("exp", s)
    def log(s): return fn("log", s)
    def log10(s): return div(fn("log", s), fn("log", C(10)))
    def log2(s): return div(fn("log", s), fn("log", C(2)))
    def log1p(s): return fn("log", add(C(1), s))
    def expm1(s): return sub(fn("exp", s), C(1))
    def sin(s): return fn("sin", s)
    def cos(s): return fn("cos", s)
    def tan(s): return fn("tan", s)
    def arcsin(s): return fn("asin", s)
    def arccos(s): return fn("acos", s)
    def arctan(s): return fn("atan", s)
    def sinh(s): return fn("sinh", s)
    def cosh(s): return fn("cosh", s)
    def tanh(s): return fn("tanh", s)
    def conjugate(s): return s
    def reciprocal(s): return div(C(1), s)
    def deg2rad(s): return s * PI / 180
    radians = deg2rad
    def rad2deg(s): return s * 180 / PI
    degrees = rad2deg
    def item(s): return s
    def copy(s): return s
    @property
    def real(s): return s
    @property
    def imag(s): return C(0)

del Term.__array_ufunc__

BOOLOPS = {"T", "F", "lt", "le", "eq", "ile", "ieq", "and", "or", "not", "any", "bvar"}

def C(x):
    if isinstance(x, Term): return x
    if isinstance(x, Fraction):
        if type(x.numerator) is not int or type(x.denominator) is not int: x = Fraction(int(x.numerator), int(x.denominator))      # numpy integers
        return Term.mk("c", x)
    return Term.mk("c", q(x))
TRUE = Term.mk("T"); FALSE = Term.mk("F")
PI = Term.mk("pi")
ZERO = C(0); ONE = C(1)

def V(name, *idx): return Term.mk("v", name, *[i.simp() if isinstance(i, SymInt) else i for i in idx])

def _bin(f, a, b):
    try:
        return f(Term.of(a), Term.of(b))
    except Unsupported:
        for z in (a, b):
            if not isinstance(z, (Term, int, float, Fraction, SymInt)): return NotImplemented
        raise

def add(a, b):
    if a.op == "c" and b.op == "c": return C(a.args[0] + b.args[0])
    if a is ZERO: return b
    if b is ZERO: return a
    return Term.mk("+", a, b)
def mul(a, b):
    if a.op == "c" and b.op == "c": return C(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    return Term.mk("*", a, b)
def sub(a, b): return add(a, mul(C(-1), b))
def div(a, b):
    if b.op == "c":
        if b.args[0] == 0: raise Unsupported("division by constant zero")
        return mul(a, C(1 / b.args[0]))
    return mul(a, power(b, C(-1)))
def power(a, b):
    if b.op == "c":
        e = b.args[0]
        if e == 0: return ONE
        if e == 1: return a
        if a.op == "c" and e.denominator == 1:
            if a.args[0] == 0 and e < 0: raise Unsupported("0 ** negative")
            if abs(e) <= 64: return C(a.args[0] ** int(e))
        if a.op == "c" and a.args[0] in (0, 1): return a
        if a.op == "^" and e.denominator == 1 and a.args[1].op == "c" and a.args[1].args[0].denominator == 1:
            return power(a.args[0], C(a.args[1].args[0] * e))
    return Term.mk("^", a, b)
def fn(name, a):
    if a.op == "c":
        if a.args[0] == 0: return {"exp": ONE, "sin": ZERO, "cos": ONE, "tan": ZERO, "asin": ZERO, "atan": ZERO, "sinh": ZERO, "cosh": ONE, "tanh": ZERO}.get(name) or Term.mk("fn", name, a)
        if name == "log" and a.args[0] == 1: return ZERO
    return Term.mk("fn", name, a)
def uf(name, *args): return Term.mk("uf", name, *args)
def ite(c, a, b):
    c = bof(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return Term.mk("ite", c, a, b)
def absolute(a):
    if a.op == "c": return C(abs(a.args[0]))
    return ite(lt(a, ZERO), mul(C(-1), a), a)
def maximum(a, b): return ite(lt(a, b), b, a)
def minimum(a, b): return ite(lt(b, a), b, a)
def sign(a): return ite(lt(a, ZERO), C(-1), ite(lt(ZERO, a), ONE, ZERO))

def bof(c):
    if isinstance(c, Term):
        if c.is_bool: return c
        return bnot(eq(c, ZERO))
    return TRUE if c else FALSE
def is_round(a): return a.op == "uf" and a.args[0] == "round"
def lt(a, b):
    if a.op == "c" and b.op == "c": return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b: return FALSE
    # round-to-nearest against a constant (ties, a null set, are not distinguished)
    if is_round(a) and b.op == "c": return lt(a.args[1], C(math.ceil(b.args[0]) - Fraction(1, 2)))
    if is_round(b) and a.op == "c": return lt(C(math.floor(a.args[0]) + Fraction(1, 2)), b.args[1])
    return Term.mk("lt", a, b)
def le(a, b):
    if a.op == "c" and b.op == "c": return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b: return TRUE
    return bnot(lt(b, a))          # total order on reals
def eq(a, b):
    if a.op == "c" and b.op == "c": return TRUE if a.args[0] == b.args[0] else FALSE
    if a is b: return TRUE
    if is_round(b) and a.op == "c": a, b = b, a
    if is_round(a) and b.op == "c":
        if b.args[0].denominator != 1: return FALSE
        return band(lt(C(b.args[0] - Fraction(1, 2)), a.args[1]), lt(a.args[1], C(b.args[0] + Fraction(1, 2))))
    return Term.mk("eq", a, b) if a.id < b.id else Term.mk("eq", b, a)
def ile(a, b):
    d = SymInt.of(SymInt.of(b) - a)            # a <= b  <=> d >= 0
    if not d.m: return TRUE if d.c >= 0 else FALSE
    return Term.mk("ile", d)
def ieq(a, b):
    d = SymInt.of(SymInt.of(b) - a)
    if not d.m: return TRUE if d.c == 0 else FALSE
    if d.m[0][1] < 0: d = SymInt.of(-d)
    return Term.mk("ieq", d)
def bnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return Term.mk("not", a)
def band(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE or a is b: return a
    return Term.mk("and", a, b)
def bor(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE or a is b: return a
    return Term.mk("or", a, b)

# ----------------------------------------------------------------------------------------------- traversal
def subterms(*roots):
    """all sub-terms, children before parents, shared nodes once"""
    seen = set(); out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id); stack.append((t, True))
        for a in t.args:
            if isinstance(a, Term) and a.id not in seen: stack.append((a, False))
    return out

_fv = {}
def free_vars(t):
    r = _fv.get(t.id)
    if r is None:
        r = frozenset(s for s in subterms(t) if s.op in ("v", "int"))
        _fv[t.id] = r
    return r

def rebuild(t, leaf, cache=None):
    """rewrite bottom-up; leaf(t) returns a replacement or None (for any node, after children are rebuilt)."""
    cache = {} if cache is None else cache
    for s in subterms(t):
        if s.id in cache: continue
        args = [cache[a.id] if isinstance(a, Term) else a for a in s.args]
        if all(x is y for x, y in zip(args, s.args)): n = s
        elif s.op == "+": n = add(*args)
        elif s.op == "*": n = mul(*args)
        elif s.op == "^": n = power(*args)
        elif s.op == "fn": n = fn(*args)
        elif s.op == "ite": n = ite(*args)
        elif s.op == "lt": n = lt(*args)
        elif s.op == "eq": n = eq(*args)
        elif s.op == "not": n = bnot(*args)
        elif s.op == "and": n = band(*args)
        elif s.op == "or": n = bor(*args)
        else: n = Term.mk(s.op, *args)
        r = leaf(n)
        cache[s.id] = n if r is None else r
    return cache[t.id]

def subst_index(t, d, cache=None):
    """substitute integer symbols (index variables)"""
    def leaf(s):
        if s.op == "v" and any(isinstance(i, SymInt) for i in s.args[1:]):
            return V(s.args[0], *[i.subst(d) if isinstance(i, SymInt) else i for i in s.args[1:]])
        if s.op == "int": return Term.of(s.args[0].subst(d))
        if s.op == "ile":
            x = SymInt.of(s.args[0].subst(d)); return ile(0, x)
        if s.op == "ieq":
            x = SymInt.of(s.args[0].subst(d)); return ieq(0, x)
    return rebuild(t, leaf, cache)

def subst_vars(t, d, cache=None):
    """d: Term(var) -> Term"""
    return rebuild(t, lambda s: d.get(s) if s.op == "v" else None, cache)

# ----------------------------------------------------------------------------------------------- derivative
def diff(t, v, cache=None):
    """symbolic derivative of t with respect to the variable node v (ite: branchwise)"""
    cache = {} if cache is None else cache
    for s in subterms(t):
        if s.id in cache: continue
        o = s.op
        if s is v: r = ONE
        elif s.is_bool or o in ("c", "pi", "v", "int"): r = ZERO
        elif o == "+": r = add(cache[s.args[0].id], cache[s.args[1].id])
        elif o == "*":
            a, b = s.args
            r = add(mul(cache[a.id], b), mul(a, cache[b.id]))
        elif o == "^":
            a, b = s.args; da = cache[a.id]; db = cache[b.id]
            r = ZERO
            if da is not ZERO: r = mul(mul(b, power(a, sub(b, ONE))), da)
            if db is not ZERO: r = add(r, mul(mul(s, fn("log", a)), db))
        elif o == "fn":
            n, a = s.args; da = cache[a.id]
            if da is ZERO: r = ZERO
            else: r = mul(dfn(n, a, s), da)
        elif o == "ite":
            r = ite(s.args[0], cache[s.args[1].id], cache[s.args[2].id])
        elif o == "uf":
            if s.args[0] == "round": r = ZERO
            elif any(cache[a.id] is not ZERO for a in s.args[1:]): 
                r = ZERO
                for k, a in enumerate(s.args[1:]):
                    if cache[a.id] is not ZERO: r = add(r, mul(uf("D%d:%s" % (k, s.args[0]), *s.args[1:]), cache[a.id]))
            else: r = ZERO
        else: raise Unsupported("diff of " + o)
        cache[s.id] = r
    return cache[t.id]

def dfn(n, a, s):
    if n == "exp": return s
    if n == "log": return power(a, C(-1))
    if n == "sin": return fn("cos", a)
    if n == "cos": return mul(C(-1), fn("sin", a))
    if n == "tan": return power(fn("cos", a), C(-2))
    if n == "sinh": return fn("cosh", a)
    if n == "cosh": return fn("sinh", a)
    if n == "tanh": return power(fn("cosh", a), C(-2))
    if n == "asin": return power(sub(ONE, mul(a, a)), C(Fraction(-1, 2)))
    if n == "acos": return mul(C(-1), power(sub(ONE, mul(a, a)), C(Fraction(-1, 2))))
    if n == "atan": return power(add(ONE, mul(a, a)), C(-1))
    raise Unsupported("derivative of " + n)

# ----------------------------------------------------------------------------------------------- evaluation
def evalf(t, env, mp=None, cache=None):
    """numeric value; env maps variable Terms (and integer symbols by name) to numbers.  mp: mpmath context or None (floats)."""
    cache = {} if cache is None else cache
    if mp is None:
        F = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos,
             "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh}
        num = float; pi = math.pi
    else:
        F = {k: getattr(mp, k) for k in ("exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh")}
        num = lambda fr: mp.mpf(fr.numerator) / fr.denominator if isinstance(fr, Fraction) else mp.mpf(fr); pi = mp.pi
    F["tanhc"] = lambda x: F["tanh"](x) / x if x else num(1)
    def iv(x): 
        return x.c + sum(v * env[k] for k, v in x.m) if isinstance(x, SymInt) else x
    def need(u):
        return cache[u.id]
    # lazy evaluation of ite: iterative with explicit stack
    stack = [t]
    while stack:
        s = stack[-1]
        if s.id in cache: stack.pop(); continue
        o = s.op
        if o == "ite":
            c = s.args[0]
            if c.id not in cache: stack.append(c); continue
            br = s.args[1] if cache[c.id] else s.args[2]
            if br.id not in cache: stack.append(br); continue
            cache[s.id] = cache[br.id]; stack.pop(); continue
        if o in ("and", "or"):
            a, b = s.args
            if a.id not in cache: stack.append(a); continue
            if (o == "and") != bool(cache[a.id]): cache[s.id] = cache[a.id]; stack.pop(); continue
            if b.id not in cache: stack.append(b); continue
            cache[s.id] = cache[b.id]; stack.pop(); continue
        pend = [a for a in s.args if isinstance(a, Term) and a.id not in cache]
        if pend and o != "any": stack.extend(pend); continue
        if o == "c": r = num(s.args[0])
        elif o == "pi": r = +pi
        elif o == "v":
            r = env.get(s)
            if r is None: r = env["?"](s)
        elif o == "int": r = num(iv(s.args[0]))
        elif o == "+": r = need(s.args[0]) + need(s.args[1])
        elif o == "*": r = need(s.args[0]) * need(s.args[1])
        elif o == "^":
            a = need(s.args[0]); b = s.args[1]
            if b.op == "c" and b.args[0].denominator == 1: r = a ** int(b.args[0])
            else:
                if a < 0: raise ValueError("negative base")
                r = a ** need(b)
        elif o == "fn":
            r = F[s.args[0]](need(s.args[1]))
            if isinstance(r, complex) or (mp is not None and isinstance(r, mp.mpc)): raise ValueError("complex")
        elif o == "T": r = True
        elif o == "F": r = False
        elif o == "uf" and s.args[0] == "round": r = num(round(need(s.args[1]))) if mp is None else mp.nint(need(s.args[1]))
        elif o == "lt": r = need(s.args[0]) < need(s.args[1])
        elif o == "eq": r = need(s.args[0]) == need(s.args[1])
        elif o == "ile": r = iv(s.args[0]) >= 0
        elif o == "ieq": r = iv(s.args[0]) == 0
        elif o == "not": r = not need(s.args[0])
        elif o in ("any", "bvar", "uf"): r = env["!"](s, lambda u: evalf(u, env, mp, cache))
        else: raise Unsupported("eval of " + o)
        cache[s.id] = r; stack.pop()
    return cache[t.id]

# ----------------------------------------------------------------------------------------------- printing
def show(t, depth=0):
    o = t.op
    if depth > 14: return "..."
    d = depth + 1
    if o == "c":
        f = t.args[0]
        return str(f) if f.denominator < 10 ** 6 else repr(float(f))
    if o == "pi": return "pi"
    if o == "v": return t.args[0] + ("[%s]" % ",".join(map(str, t.args[1:])) if len(t.args) > 1 else "")
    if o == "int": return str(t.args[0])
    if o == "+": return "(%s + %s)" % (show(t.args[0], d), show(t.args[1], d))
    if o == "*": return "%s*%s" % (show(t.args[0], d), show(t.args[1], d))
    if o == "^": return "(%s)^(%s)" % (show(t.args[0], d), show(t.args[1], d))
    if o in ("fn", "uf"): return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if o == "ite": return "ite(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    if o in ("T", "F"): return o
    if o == "lt": return "%s < %s" % (show(t.args[0], d), show(t.args[1], d))
    if o == "eq": return "%s = %s" % (show(t.args[0], d), show(t.args[1], d))
    if o == "ile": return "0 <= %s" % (t.args[0],)
    if o == "ieq": return "0 = %s" % (t.args[0],)
    if o == "not": return "!(%s)" % show(t.args[0], d)
    if o in ("and", "or"): return "(%s %s %s)" % (show(t.args[0], d), o, show(t.args[1], d))
    return "%s%r" % (o, t.args)

def vhash(*xs):
    return zlib.crc32(repr(xs).encode()) / 4294967296.0
