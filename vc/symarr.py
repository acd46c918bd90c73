"""Symbolic numpy: OA (concrete shape, object ndarray subclass), SA (symbolic length arrays: index -> term), Gath (masked
gathers), DualT (first-order complex-step numbers) and the numpy facade that is injected into the modules of the code
under verification.  Semantics follow numpy 1.26 for the supported subset; everything else raises Unsupported."""
import numpy as np
import numbers, builtins, math, types, sys
from fractions import Fraction
from . import terms as T
from .terms import *

# =============================================================================================== complex step numbers
class DualT:
    """re + im*h*1j with h -> 0 (first order)"""
    __slots__ = ("re", "im")
    __array_priority__ = 20.0
    def __init__(self, re, im): self.re = Term.of(re); self.im = Term.of(im)
    @staticmethod
    def of(x):
        if isinstance(x, DualT): return x
        if isinstance(x, (complex, np.complexfloating)): return DualT(x.real, x.imag)
        return DualT(Term.of(x), ZERO)
    @staticmethod
    def _o(o):
        if isinstance(o, np.ndarray) and o.shape == (): o = o.view(np.ndarray).item()
        elif isinstance(o, np.ndarray) or (not isinstance(o, (Term, DualT)) and hasattr(o, "ndim") and not isinstance(o, np.generic) and getattr(o, "ndim", 0)): return None
        elif isinstance(o, (list, tuple, str, dict)) or o is None: return None
        return DualT.of(o)
    def _bin(f):
        def g(s, o):
            o = DualT._o(o)
            return NotImplemented if o is None else f(s, o)
        return g
    __add__ = _bin(lambda s, o: DualT(s.re + o.re, s.im + o.im))
    __radd__ = __add__
    __sub__ = _bin(lambda s, o: DualT(s.re - o.re, s.im - o.im))
    __rsub__ = _bin(lambda s, o: DualT(o.re - s.re, o.im - s.im))
    __mul__ = _bin(lambda s, o: DualT(s.re * o.re, s.im * o.re + s.re * o.im))
    __rmul__ = __mul__
    def _div(s, o): return DualT(s.re / o.re, (s.im * o.re - s.re * o.im) / (o.re * o.re) if o.im is not ZERO else s.im / o.re)
    __truediv__ = _bin(_div)
    __rtruediv__ = _bin(lambda s, o: DualT._div(o, s))
    def _pow(s, o):
        r = s.re ** o.re; d = ZERO
        if s.im is not ZERO: d = o.re * s.re ** (o.re - 1) * s.im
        if o.im is not ZERO: d = d + r * fn("log", s.re) * o.im
        return DualT(r, d)
    __pow__ = _bin(_pow)
    __rpow__ = _bin(lambda s, o: DualT._pow(o, s))
    def __neg__(s): return DualT(-s.re, -s.im)
    def __pos__(s): return s
    def __abs__(s): return absolute(s.re)
    __lt__ = _bin(lambda s, o: s.re < o.re)
    __le__ = _bin(lambda s, o: s.re <= o.re)
    __gt__ = _bin(lambda s, o: s.re > o.re)
    __ge__ = _bin(lambda s, o: s.re >= o.re)
    __eq__ = _bin(lambda s, o: s.re == o.re)
    __ne__ = _bin(lambda s, o: s.re != o.re)
    def __format__(s, spec): return "<%s>" % show(s.re)[:60]
    def __hash__(s): return hash((s.re, s.im))
    def __bool__(s): return bool(s.re)
    def __float__(s): raise TypeError("can't convert complex to float")
    @property
    def real(s): return s.re
    @property
    def imag(s): return s.im
    def conjugate(s): return DualT(s.re, -s.im)
    def item(s): return s
    def copy(s): return s
    def __repr__(s): return "DualT(%s, %s)" % (show(s.re), show(s.im))

def is_sym(x): return isinstance(x, (Term, DualT, SymInt))

def _old_bin(f, a, b): pass
_tb = T._bin
def _bin2(f, a, b):
    for x in (a, b):
        if isinstance(x, (complex, np.complexfloating)):
            name = {add: "__add__", sub: "__sub__", mul: "__mul__", div: "__truediv__", power: "__pow__"}.get(f)
            if name is None: return f(DualT.of(a).re, DualT.of(b).re)
            return getattr(DualT.of(a), name)(DualT.of(b))
        if isinstance(x, np.ndarray) and x.shape != (): return NotImplemented
    return _tb(f, a, b)
T._bin = _bin2

# =============================================================================================== elementwise functions
def L(x):
    """lift a scalar to Term or DualT"""
    if isinstance(x, (Term, DualT)): return x
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object: return L(x.view(np.ndarray).ravel()[0])
    if isinstance(x, (complex, np.complexfloating)): return DualT.of(x)
    if isinstance(x, (float, np.floating)) and (x != x or x in (math.inf, -math.inf)): return INF if x == math.inf else (NINF if x == -math.inf else NAN)
    if isinstance(x, (bool, np.bool_)): return TRUE if x else FALSE
    return Term.of(x)
NAN = uf("nan"); INF = uf("inf"); NINF = uf("-inf")
def num(x):
    """boolean terms used as numbers"""
    if isinstance(x, Term) and x.is_bool: return ite(x, ONE, ZERO)
    return x
def as_dtype(dt):
    """conversion of one element to the dtype: booleans count 0 and 1; truncation to integers only where the value is known to be whole"""
    try: k = np.dtype(fixdt(dt)).kind
    except TypeError: k = "f"
    if k == "b": return bof
    if k not in "iu": return num
    def whole(x):
        if isinstance(x, Term):
            if x.is_bool: return num(x)
            if x.op == "c": return C(math.trunc(x.args[0]))
            if x.op == "int" or is_round(x): return x
            raise Unsupported("truncation of a symbolic value")
        return x
    return whole
def un(fre, dfre=None):
    def g(x):
        x = num(L(x))
        if isinstance(x, DualT):
            if dfre is None: raise TypeError("ufunc not supported for complex input")
            return DualT(fre(x.re), dfre(x.re) * x.im if x.im is not ZERO else ZERO)
        return fre(x)
    return g
def fnu(name): return un(lambda a: fn(name, a), lambda a: T.dfn(name, a, fn(name, a)))
def bi(op):
    def g(a, b):
        a, b = num(L(a)), num(L(b)); return op(a, b)
    return g
def cmp(f):
    def g(a, b):
        a, b = num(L(a)), num(L(b))
        if isinstance(a, DualT): a = a.re
        if isinstance(b, DualT): b = b.re
        for x, other, s in ((a, b, 1), (b, a, -1)):
            if x is INF or x is NINF or x is NAN: return _cmpinf(f, a, b)
        return f(a, b)
    return g
def _cmpinf(f, a, b):
    if a is NAN or b is NAN: return TRUE if f is _ne else FALSE
    v = lambda x: C(1) if x is INF else (C(-1) if x is NINF else C(0))
    return f(v(a), v(b))
def _ne(a, b): return bnot(eq(a, b))
_lt = lambda a, b: lt(a, b)
_le = lambda a, b: le(a, b)
_gt = lambda a, b: lt(b, a)
_ge = lambda a, b: le(b, a)
def re(x): return x.re if isinstance(x, DualT) else x
def sel(c, a, b):
    """np.where on scalars"""
    c = bof(re(L(c)))
    if c is TRUE: return a
    if c is FALSE: return b
    a, b = L(a), L(b)
    if isinstance(a, DualT) or isinstance(b, DualT):
        a, b = DualT.of(num(a)), DualT.of(num(b)); return DualT(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if a.is_bool or b.is_bool: return bor(band(c, bof(a)), band(bnot(c), bof(b)))
    return ite(c, a, b)
def fmax(a, b):
    a, b = num(L(a)), num(L(b))
    return sel(cmp(_lt)(a, b), b, a)
def fmin(a, b):
    a, b = num(L(a)), num(L(b))
    return sel(cmp(_lt)(b, a), b, a)
def fclip(x, lo, hi):
    r = x
    if lo is not None: r = fmax(r, lo)
    if hi is not None: r = fmin(r, hi)
    return r
def fabs_(x):
    x = num(L(x))
    return absolute(re(x))
def fsign(x):
    x = num(L(x))
    if isinstance(x, DualT): return DualT(sign(x.re), ZERO)
    return sign(x)
def farctan2(y, x):
    y, x = num(L(y)), num(L(x))
    if isinstance(y, DualT) or isinstance(x, DualT): raise TypeError("arctan2 not supported for complex")
    base = fn("atan", y / x)
    if x.op == "c" and x.args[0] > 0: return base
    if DOMAIN_POS(x): return base
    return ite(lt(ZERO, x), base, ite(lt(y, ZERO), base - PI, base + PI))
def DOMAIN_POS(x): return False
def floor_(x):
    x = num(L(x))
    if isinstance(x, Term) and x.op == "c": return C(math.floor(x.args[0]))
    raise Unsupported("floor of a symbolic value")
def ceil_(x):
    x = num(L(x))
    if isinstance(x, Term) and x.op == "c": return C(math.ceil(x.args[0]))
    raise Unsupported("ceil of a symbolic value")
def round_(x):
    x = num(L(x))
    if isinstance(x, DualT): return DualT(round_(x.re), ZERO)
    if x.op == "c": return C(round(x.args[0]))
    return uf("round", x)
def bb(f):
    return lambda a, b: f(bof(re(L(a))), bof(re(L(b))))
_nanmemo = {}
def nan_of(t):
    """the condition under which numpy's value of t is nan: an even root or logarithm of a negative number is evaluated"""
    r = _nanmemo.get(t.id)
    if r is not None: return r
    for s in T.subterms(t):
        if s.id in _nanmemo: continue
        o = s.op
        if s is NAN: r = TRUE
        elif o == "ite":
            c = s.args[0]
            r = bor(_nanmemo[c.id], bor(band(c, _nanmemo[s.args[1].id]), band(bnot(c), _nanmemo[s.args[2].id])))
        else:
            r = FALSE
            for a in s.args:
                if isinstance(a, Term): r = bor(r, _nanmemo[a.id])
            if o == "^" and not (s.args[1].op == "c" and s.args[1].args[0].denominator == 1): r = bor(r, lt(s.args[0], ZERO))
            elif o == "fn" and s.args[0] == "log": r = bor(r, lt(s.args[1], ZERO))
            elif o == "fn" and s.args[0] in ("asin", "acos"): r = bor(r, bor(lt(ONE, s.args[1]), lt(s.args[1], C(-1))))
        _nanmemo[s.id] = r
    return _nanmemo[t.id]
def isnan_(x):
    x = L(x)
    if x is NAN: return TRUE
    if isinstance(x, DualT): x = x.re
    if isinstance(x, Term) and not x.is_bool: return nan_of(x)
    return FALSE
def isfinite_(x): return bnot(bor(isnan_(x), isinf_(x)))
def isinf_(x): return TRUE if any(L(x) is z for z in (INF, NINF)) else FALSE
def floordiv(a, b):
    a, b = num(L(a)), num(L(b))
    if isinstance(a, Term) and isinstance(b, Term) and a.op == "c" and b.op == "c": return C(a.args[0] // b.args[0])
    raise Unsupported("floor division")
def mod_(a, b):
    a, b = num(L(a)), num(L(b))
    if isinstance(a, Term) and isinstance(b, Term) and a.op == "c" and b.op == "c": return C(a.args[0] % b.args[0])
    raise Unsupported("mod")

def pow_(a, b):
    if isinstance(b, Term) and isinstance(a, Term): return power(a, b)
    return DualT.of(a) ** b

def ldexp(x): raise Unsupported("ldexp")

EW = {
    "add": bi(lambda a, b: a + b), "subtract": bi(lambda a, b: a - b), "multiply": bi(lambda a, b: a * b),
    "divide": bi(lambda a, b: a / b), "true_divide": bi(lambda a, b: a / b), "power": bi(pow_), "float_power": bi(pow_),
    "negative": un(lambda a: -a, lambda a: C(-1)), "positive": lambda a: L(a),
    "square": un(lambda a: a * a, lambda a: 2 * a), "sqrt": un(lambda a: a.sqrt(), lambda a: C(Fraction(1, 2)) * power(a, C(Fraction(-1, 2)))),
    "cbrt": un(lambda a: a.cbrt()), "reciprocal": un(lambda a: ONE / a, lambda a: C(-1) / (a * a)),
    "exp": fnu("exp"), "log": fnu("log"), "sin": fnu("sin"), "cos": fnu("cos"), "tan": fnu("tan"), "arcsin": fnu("asin"), "arccos": fnu("acos"),
    "arctan": fnu("atan"), "sinh": fnu("sinh"), "cosh": fnu("cosh"), "tanh": fnu("tanh"),
    "log10": un(lambda a: a.log10(), lambda a: ONE / (a * fn("log", C(10)))), "log2": un(lambda a: a.log2(), lambda a: ONE / (a * fn("log", C(2)))),
    "log1p": un(lambda a: a.log1p(), lambda a: ONE / (1 + a)), "expm1": un(lambda a: a.expm1(), lambda a: fn("exp", a)),
    "exp2": un(lambda a: power(C(2), a), lambda a: power(C(2), a) * fn("log", C(2))),
    "absolute": fabs_, "fabs": fabs_, "sign": fsign,
    "maximum": fmax, "minimum": fmin, "fmax": fmax, "fmin": fmin, "clip": fclip,
    "less": cmp(_lt), "less_equal": cmp(_le), "greater": cmp(_gt), "greater_equal": cmp(_ge), "equal": cmp(eq), "not_equal": cmp(_ne),
    "logical_and": bb(band), "logical_or": bb(bor), "bitwise_and": bb(band), "bitwise_or": bb(bor), "logical_xor": bb(lambda a, b: bor(band(a, bnot(b)), band(b, bnot(a)))),
    "logical_not": lambda a: bnot(bof(re(L(a)))), "invert": lambda a: bnot(bof(re(L(a)))),
    "isnan": isnan_, "isfinite": isfinite_, "isinf": isinf_,
    "arctan2": farctan2, "hypot": bi(lambda a, b: (a * a + b * b) ** C(Fraction(1, 2))), "conjugate": lambda a: L(a).conjugate(), "conj": lambda a: L(a).conjugate(),
    "deg2rad": un(lambda a: a.deg2rad(), lambda a: PI / 180), "radians": un(lambda a: a.deg2rad(), lambda a: PI / 180),
    "rad2deg": un(lambda a: a.rad2deg(), lambda a: 180 / PI), "degrees": un(lambda a: a.rad2deg(), lambda a: 180 / PI),
    "rint": round_, "floor": floor_, "ceil": ceil_, "floor_divide": floordiv, "remainder": mod_, "mod": mod_,
    "heaviside": bi(lambda a, b: ite(lt(re(a), ZERO), ZERO, ite(eq(re(a), ZERO), re(b), ONE))),
}
NIN = {k: 1 for k in EW}
for k in ("add subtract multiply divide true_divide power float_power maximum minimum fmax fmin less less_equal greater greater_equal equal not_equal logical_and "
          "logical_or bitwise_and bitwise_or logical_xor arctan2 hypot floor_divide remainder mod heaviside").split(): NIN[k] = 2
NIN["clip"] = 3
UF = {k: np.frompyfunc(f, NIN[k], 1) for k, f in EW.items()}
def opn(name): return UF[name]

# =============================================================================================== concrete-shape arrays
def plain(x):
    """-> plain object ndarray of lifted scalars"""
    if isinstance(x, OA): return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object: return _lift(x)
        return _lift(x.astype(object) if x.dtype.kind != "b" else x)
    if isinstance(x, (Term, DualT)):
        r = np.empty((), object); r[()] = x; return r
    if isinstance(x, SymInt):
        r = np.empty((), object); r[()] = Term.of(x); return r
    if isinstance(x, (list, tuple)): return toarray(x)
    r = np.empty((), object); r[()] = L(x); return r
_lift = np.frompyfunc(L, 1, 1)
def _lift_arr(x):
    r = np.frompyfunc(L, 1, 1)(x)
    if not isinstance(r, np.ndarray):
        o = np.empty((), object); o[()] = r; return o
    return r
_lift = _lift_arr
def toarray(x):
    """nested list -> plain object array"""
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, SA) for e in x): raise Unsupported("array() of symbolic-length arrays")
        parts = [toarray(e) for e in x]
        if not parts: return np.empty((0,), object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts): raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        r = np.empty((len(parts),) + sh, object)
        for i, p in enumerate(parts): r[i] = p if sh else p[()]
        return r
    return plain(x)
def wrap(r, realonly=False):
    if isinstance(r, np.ndarray):
        if r.dtype == object or r.dtype == bool and False:
            r = r.view(OA); return r
        return r
    return r

class OA(np.ndarray):
    __array_priority__ = 30.0
    def __array_finalize__(self, o): self.realonly = getattr(o, "realonly", False)
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(isinstance(x, (SA, Gath)) for x in inputs): return NotImplemented
        name = ufunc.__name__
        kw.pop("dtype", None); kw.pop("casting", None); kw.pop("subok", None); kw.pop("order", None)
        where = kw.pop("where", True)
        if name == "matmul":
            a, b = (plain(x) for x in inputs)
            r = np.matmul(a, b)
            return self._fin(r, out)
        if name not in UF: raise Unsupported("ufunc " + name)
        u = UF[name]
        args = [plain(x) for x in inputs]
        if method == "__call__":
            r = u(*args)
            if where is not True:
                base = plain(out[0]) if out else None
                if base is None: raise Unsupported("ufunc where= without out")
                r = UFWHERE(plain(where), r, base)
        elif method == "reduce":
            r = _reduce(u, name, args[0], **kw)
        elif method == "accumulate":
            kw.pop("keepdims", None); r = u.accumulate(args[0], **{k: v for k, v in kw.items() if k == "axis" and v is not None})
        elif method == "outer": r = u.outer(*args)
        elif method == "at":
            idx = inputs[1]
            if name == "add":
                tgt = inputs[0].view(np.ndarray)
                np.add.at(tgt, idx, plain(inputs[2]))
                return None
            raise Unsupported("ufunc.at")
        else: raise Unsupported("ufunc method " + method)
        return self._fin(r, out)
    def _fin(self, r, out):
        if out is not None and out[0] is not None:
            o = out[0]
            if isinstance(o, OA): 
                v = r
                if o.realonly: v = UFRE(v)
                o.view(np.ndarray)[...] = v
            elif isinstance(o, np.ndarray): o[...] = r
            return o
        if isinstance(r, np.ndarray): return r.view(OA)
        return scal(r)
    def __array_function__(self, func, types_, args, kw):
        f = FUNCS.get(func.__name__)
        if f is not None: return f(*args, **kw)
        r = super().__array_function__(func, types_, args, kw)
        return r
    def _key(self, k):
        """concretise index: boolean terms are decided, integer terms must be constant"""
        if isinstance(k, tuple): return tuple(self._key(x) for x in k)
        if isinstance(k, Gath): raise Unsupported("index by gathered array")
        if isinstance(k, OA) or (isinstance(k, np.ndarray) and k.dtype == object):
            flat = [self._kel(x) for x in k.ravel().tolist()]
            dt = bool if flat and isinstance(flat[0], bool) else int
            return np.array(flat, dtype=dt).reshape(k.shape)
        if isinstance(k, list): return [self._kel(x) if is_sym(x) else x for x in k]
        if is_sym(k): return self._kel(k)
        if isinstance(k, slice): return slice(*[self._kel(x) if is_sym(x) else x for x in (k.start, k.stop, k.step)])
        return k
    def _kel(self, x):
        if isinstance(x, Term):
            if x.is_bool: return bool(x)
            if x.op == "c": return int(x)
        if isinstance(x, (bool, np.bool_)): return bool(x)
        if isinstance(x, (int, np.integer)): return int(x)
        raise Unsupported("symbolic index")
    def __getitem__(self, k):
        if isinstance(k, MaskIdx): k = (k.mask,)
        if isinstance(k, tuple) and len(k) == 1: k = k[0]
        if isinstance(k, MaskIdx): k = k.mask
        m = symmask(k)
        if m is not None and m.shape == self.shape: return Gath(m, self.copy())
        r = super().__getitem__(self._key(k))
        return r
    def __setitem__(self, k, v):
        if isinstance(k, tuple) and len(k) == 1: k = k[0]
        if isinstance(k, MaskIdx): k = k.mask
        if isinstance(v, SA): raise Unsupported("assign symbolic-length array into concrete array")
        m = symmask(k)
        if m is not None and m.shape == self.shape:
            vv = v.full if isinstance(v, Gath) else v
            if isinstance(v, Gath) and not v.same(m): raise Unsupported("assignment from a different gather")
            vp = plain(vv)
            if not isinstance(v, Gath) and vp.size != 1: raise Unsupported("masked assignment of an array")
            if self.realonly: vp = UFRE(vp)
            if not isinstance(v, Gath): vp = vp.reshape(())
            self.view(np.ndarray)[...] = UFWHERE(m, vp, self.view(np.ndarray)); return
        if isinstance(v, Gath): raise Unsupported("assignment from gather")
        vp = plain(v)
        if self.realonly: vp = UFRE(vp)
        if vp.shape == () : vp = vp[()]
        nd = self.view(np.ndarray)
        key = self._key(k)
        tgt = nd[key]
        if not isinstance(tgt, np.ndarray) and isinstance(vp, np.ndarray):
            if vp.size == 1: vp = vp.ravel()[0]
            else: raise ValueError("setting an array element with a sequence.")
        nd[key] = vp
    def astype(self, dt, copy=True, **k):
        r = self.copy()
        if _isreal_dt(dt):
            r = UFRE(r.view(np.ndarray)).view(OA) if r.shape else r; r.realonly = True
            f = as_dtype(dt); x = r.view(np.ndarray)
            for i in np.ndindex(x.shape): x[i] = f(x[i])
        elif _isbool_dt(dt): 
            x = r.view(np.ndarray)
            for i in np.ndindex(x.shape): x[i] = bof(x[i])
        elif _iscomplex_dt(dt): r.realonly = False
        return r
    @property
    def real(self): return _nda(UFRE(self.view(np.ndarray)))
    @real.setter
    def real(self, v): raise Unsupported("assign to .real")
    @property
    def imag(self): return _nda(UFIM(self.view(np.ndarray)))
    @imag.setter
    def imag(self, v): raise Unsupported("assign to .imag")
    def item(self, *a):
        return self.view(np.ndarray).item(*a)
    def __float__(self): return float(self.item())
    def __bool__(self):
        if self.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.view(np.ndarray).ravel()[0])
    def clip(self, lo=None, hi=None, **k): return FUNCS["clip"](self, lo, hi)
    def round(self, *a, **k): raise Unsupported("round")
    def nonzero(self): return FUNCS["where"](self)
    def any(self, axis=None, out=None, keepdims=False): return FUNCS["any"](self, axis=axis)
    def all(self, axis=None, out=None, keepdims=False): return FUNCS["all"](self, axis=axis)
    def argmax(self, *a, **k): raise Unsupported("argmax")
    def argmin(self, *a, **k): raise Unsupported("argmin")
    def argsort(self, *a, **k): raise Unsupported("argsort")
    def sort(self, *a, **k): raise Unsupported("sort")
    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return np.add.reduce(self, axis=axis) / n

def scal(r):
    """results of full reductions / 0-d: scalar Terms behave like numpy scalars"""
    return r
def _nda(r):
    if isinstance(r, np.ndarray): return r.view(OA)
    o = np.empty((), object); o[()] = r; return o.view(OA)
def _arr(f, n):
    u = np.frompyfunc(f, n, 1)
    def g(*a):
        r = u(*a)
        if not isinstance(r, np.ndarray):
            o = np.empty((), object); o[()] = r; return o
        return r
    return g
UFRE = _arr(lambda x: re(x), 1)
UFIM = _arr(lambda x: x.im if isinstance(x, DualT) else ZERO, 1)
UFWHERE = _arr(sel, 3)
def symmask(k):
    """k as an object boolean mask array when it contains symbolic booleans"""
    if isinstance(k, (OA, np.ndarray)) and k.dtype == object and k.size:
        flat = k.view(np.ndarray).ravel().tolist()
        if all(isinstance(x, (bool, np.bool_)) or (isinstance(x, Term) and x.is_bool) for x in flat):
            if any(isinstance(x, Term) and x is not TRUE and x is not FALSE for x in flat): return k.view(np.ndarray)
    return None
def _reduce(u, name, a, axis=0, keepdims=False, initial=None, **kw):
    if initial is not None and type(initial).__name__ == "_NoValueType": initial = None
    if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim) or a.ndim <= 1:
        flat = a.ravel().tolist()
        if name in ("add", "multiply", "logical_and", "logical_or") and initial is None:
            initial = {"add": ZERO, "multiply": ONE, "logical_and": TRUE, "logical_or": FALSE}[name]
        r = initial
        for x in flat: r = x if r is None else EW[name](r, x)
        if r is None: raise ValueError("zero-size array to reduction operation")
        if keepdims:
            o = np.empty((1,) * a.ndim, object); o.ravel()[0] = r; return o
        return r
    if isinstance(axis, tuple): raise Unsupported("reduce over several axes")
    out = np.apply_along_axis(lambda v: _reduce1(name, v, initial), axis, a) if False else _axis_reduce(name, a, axis, initial)
    if keepdims: out = np.expand_dims(out, axis)
    return out
def _axis_reduce(name, a, axis, initial):
    m = np.moveaxis(a, axis, -1); sh = m.shape[:-1]
    out = np.empty(sh, object)
    for i in np.ndindex(*sh):
        r = initial if initial is not None else {"add": ZERO, "multiply": ONE, "logical_and": TRUE, "logical_or": FALSE}.get(name)
        for x in m[i].tolist(): r = x if r is None else EW[name](r, x)
        out[i] = r
    return out

class MaskIdx:
    """the (single-element) tuple np.where(mask) returns, for symbolic masks of one dimension"""
    def __init__(self, mask): self.mask = mask
    def __getitem__(self, i):
        if i == 0: return self
        raise Unsupported("np.where index component")
    def __len__(self): raise Unsupported("len of np.where(symbolic mask)")
    @property
    def size(self): return MLen(self.mask)
    @property
    def shape(self): return (MLen(self.mask),)
    @property
    def ndim(self): return 1

class MLen:
    """number of true entries of a symbolic mask"""
    def __init__(self, mask): self.mask = mask
    def _any(self): return f_any(self.mask)
    def __gt__(self, o):
        if o == 0: return self._any()
        raise Unsupported("count of a symbolic mask")
    def __ge__(self, o):
        if o == 1: return self._any()
        raise Unsupported("count of a symbolic mask")
    def __eq__(self, o):
        if isinstance(o, int) and o == 0: return bnot(bof(self._any()))
        if isinstance(o, MLen) and o.mask is self.mask: return True
        raise Unsupported("count of a symbolic mask")
    def __ne__(self, o): return bnot(bof(self == o))
    def __lt__(self, o):
        if o == 1: return bnot(bof(self._any()))
        raise Unsupported("count of a symbolic mask")
    def __bool__(self): return bool(self._any())
    __hash__ = object.__hash__

class Gath:
    """full[mask] for a symbolic mask, kept at full size"""
    __array_priority__ = 50.0
    def __init__(self, mask, full): self.mask = mask; self.full = full
    def same(self, m):
        if m is self.mask: return True
        if isinstance(m, SA) != isinstance(self.mask, SA): return False
        if isinstance(m, SA): return m.equal_elems(self.mask)
        return m.shape == self.mask.shape and all(x is y for x, y in zip(m.ravel().tolist(), self.mask.ravel().tolist()))
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method != "__call__": raise Unsupported("reduction of gather")
        args = []
        for x in inputs:
            if isinstance(x, Gath):
                if not x.same(self.mask): raise Unsupported("mixed gathers")
                args.append(x.full)
            elif isinstance(x, (SA, np.ndarray, list)) and getattr(x, "size", 2) != 1: raise Unsupported("gather with array")
            else: args.append(x)
        f = self.full
        r = f.__array_ufunc__(ufunc, method, *args)
        if out is not None: self.full = r; return self
        return Gath(self.mask, r)
    def __array_function__(self, func, types_, args, kw): raise Unsupported("np.%s of gather" % func.__name__)
    def copy(self): return Gath(self.mask, self.full.copy())
    def astype(self, *a, **k): return self
    def __getitem__(self, k): raise Unsupported("index of gather")
    def __len__(self): raise Unsupported("len of gather")
    @property
    def size(self): return MLen(self.mask)
    @property
    def shape(self): return (MLen(self.mask),)
    @property
    def real(self): return Gath(self.mask, self.full.real)
    @property
    def imag(self): return Gath(self.mask, self.full.imag)

# =============================================================================================== symbolic-length arrays
_fresh = [0]
def fresh(p="k"):
    _fresh[0] += 1
    return SymInt.sym("$%s%d" % (p, _fresh[0]))
def dsame(a, b):
    if isinstance(a, SymInt): return a.same(b) if isinstance(b, SymInt) else False
    return not isinstance(b, SymInt) and int(a) == int(b)
def bshape(*shs):
    n = builtins.max(len(s) for s in shs); out = []
    for i in range(1, n + 1):
        d = 1
        for s in shs:
            if len(s) >= i:
                x = s[-i]
                if not isinstance(x, SymInt) and x == 1: continue
                if not isinstance(d, SymInt) and d == 1: d = x
                elif not dsame(d, x): 
                    if isinstance(d, SymInt) or isinstance(x, SymInt):
                        if d == x: continue            # decided by the oracle
                        raise ValueError("operands could not be broadcast together")
                    raise ValueError("operands could not be broadcast together")
        out.append(d)
    return tuple(reversed(out))
def isx(i): return SymInt.of(i)
def ishape(sh):
    if isinstance(sh, (int, np.integer, SymInt)): sh = (sh,)
    return tuple(int(x) if not isinstance(x, SymInt) else x for x in sh)
def has_symdim(sh): return any(isinstance(x, SymInt) for x in sh)

class SA:
    __array_priority__ = 40.0
    def __init__(self, shape, f, realonly=False):
        self.shape = ishape(shape); self.f = f; self.ver = 0; self.parent = None; self.realonly = realonly; self.cache = {}
    # ---------------------------------------------------------------- elements
    def at(self, *idx):
        self._chk()
        k = tuple(i.key() if isinstance(i, SymInt) else int(i) for i in idx)
        r = self.cache.get(k)
        if r is None:
            o = T.ORACLE; n0 = o.ndec if o is not None else 0
            r = L(self.f(*[i if isinstance(i, SymInt) else int(i) for i in idx]))
            if o is None or o.ndec == n0: self.cache[k] = r       # a value that depends on path decisions is not cached
        return r
    def _chk(self):
        if self.parent is not None and self.parent[0].ver != self.parent[1]: raise Unsupported("stale view of a symbolic array")
    def snap(self):
        f, c = self.f, self.cache
        return SA(self.shape, f, self.realonly)
    def view_(self, shape, f):
        r = SA(shape, f, self.realonly); r.parent = (self, self.ver); return r
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self):
        r = 1
        for d in self.shape: r = d * r
        return r
    @property
    def dtype(self): return np.dtype(object)
    @property
    def T(self):
        if self.ndim < 2: return self
        n = self.ndim
        return self.view_(self.shape[::-1], lambda *i: self.at(*i[::-1]))
    def __len__(self):
        if not isinstance(self.shape[0], SymInt): return self.shape[0]
        raise Unsupported("len() of a symbolic-length array")
    def __iter__(self):
        if self.ndim and not isinstance(self.shape[0], SymInt): return (self[i] for i in range(self.shape[0]))
        raise Unsupported("iteration over a symbolic-length array")
    def equal_elems(self, o):
        if self.ndim != o.ndim or not all(dsame(a, b) for a, b in zip(self.shape, o.shape)): return False
        idx = [SymInt.sym("$eq%d" % i) for i in range(self.ndim)]
        return self.at(*idx) is o.at(*idx)
    # ---------------------------------------------------------------- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(isinstance(x, Gath) for x in inputs): return NotImplemented
        name = ufunc.__name__
        if name not in EW: raise Unsupported("ufunc %s on symbolic-length array" % name)
        if method == "reduce":
            ax = kw.get("axis", 0)
            return sa_reduce(name, inputs[0], ax, kw.get("keepdims", False))
        if method != "__call__": raise Unsupported("ufunc.%s on symbolic-length array" % method)
        if kw.get("where", True) is not True: raise Unsupported("ufunc where=")
        r = ew(name, *inputs)
        if out is not None and out[0] is not None:
            out[0][...] = r; return out[0]
        return r
    def __array_function__(self, func, types_, args, kw):
        f = FUNCS.get(func.__name__)
        if f is not None: return f(*args, **kw)
        raise Unsupported("np.%s on a symbolic-length array" % func.__name__)
    # ---------------------------------------------------------------- indexing
    def _slices(self, key):
        """-> (result shape, function result idx -> source idx, list of result-dim meta) ; key is a tuple of int/SymInt/slice/None/Ellipsis"""
        if not isinstance(key, tuple): key = (key,)
        nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - nreal) + key[p + 1:]
        else: key = key + (slice(None),) * (self.ndim - nreal)
        sh = []; maps = []; d = 0
        for k in key:
            if k is None: sh.append(1); maps.append(("new",)); continue
            n = self.shape[d]; d += 1
            if isinstance(k, slice):
                st, en, sp = k.start, k.stop, k.step
                st, en = (int(x) if isinstance(x, Term) else x for x in (st, en))
                if sp in (None, 1):
                    st = 0 if st is None else st; en = n if en is None else en
                    if isinstance(st, (int, np.integer)) and st < 0: st = n + st
                    if isinstance(en, (int, np.integer)) and en < 0: en = n + en
                    if isinstance(n, (int, np.integer)):
                        st = builtins.min(st, n); en = builtins.min(en, n)
                    else:
                        # clipping decided by the oracle
                        if isinstance(en, (int, np.integer)) or not SymInt.of(en).same(SymInt.of(n)):
                            if SymInt.of(en) - n != 0 and bool(ile(isx(n) + 1, en)): en = n
                    ln = en - st
                    if isinstance(ln, SymInt) and bool(ile(isx(ln) + 1, 0)): ln = 0
                    sh.append(ln); maps.append(("sl", st))
                elif sp == -1 and st is None and en is None:
                    sh.append(n); maps.append(("rev", n))
                else: raise Unsupported("strided slice of symbolic-length array")
            elif isinstance(k, (int, np.integer, SymInt)) or (isinstance(k, Term) and k.op == "c"):
                if isinstance(k, Term): k = int(k)
                if isinstance(k, (int, np.integer)) and k < 0: k = n + int(k)
                if not (isinstance(n, (int, np.integer)) and isinstance(k, (int, np.integer))):
                    if not bool(band(ile(0, k), ile(isx(k) + 1, n))): raise IndexError("index out of bounds")
                elif not 0 <= k < n: raise IndexError("index %d is out of bounds for axis with size %d" % (k, n))
                maps.append(("ix", k))
            else: raise Unsupported("index %r into symbolic-length array" % type(k))
        return tuple(sh), maps
    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        if isinstance(key, MaskIdx): key = key.mask
        if isinstance(key, (SA, OA)):
            if isinstance(key, SA) and key.ndim == self.ndim and all(dsame(a, b) for a, b in zip(key.shape, self.shape)):
                idx = [SymInt.sym("$mq%d" % i) for i in range(self.ndim)]
                e = key.at(*idx)
                if isinstance(e, Term) and e.is_bool: return Gath(key.snap(), self.snap())
            if isinstance(key, SA) and key.ndim == 1 and self.ndim == 1:
                kk = key.snap(); s = self.snap()
                return SA(key.shape, lambda i: s.at(toidx(kk.at(i))))
            raise Unsupported("fancy index of symbolic-length array")
        if isinstance(key, (list, np.ndarray)): raise Unsupported("fancy index of symbolic-length array")
        sh, maps = self._slices(key)
        def src(i):
            i = list(i); out = []
            for m in maps:
                if m[0] == "new": i.pop(0)
                elif m[0] == "ix": out.append(m[1])
                elif m[0] == "sl": out.append(i.pop(0) + m[1])
                else: out.append(m[1] - 1 - i.pop(0))
            return out
        if not sh: return self.at(*src(()))
        return self.view_(sh, lambda *i: self.at(*src(i)))
    def __setitem__(self, key, v):
        if self.parent is not None: raise Unsupported("assignment through a view of a symbolic-length array")
        if isinstance(key, tuple) and len(key) == 1: key = key[0]
        if isinstance(key, MaskIdx): key = key.mask
        old = self.snap(); ro = self.realonly
        cv = (lambda x: re(L(x))) if ro else L
        if isinstance(key, SA):
            idx = [SymInt.sym("$mq%d" % i) for i in range(key.ndim)]
            e = key.at(*idx)
            if not (isinstance(e, Term) and e.is_bool): raise Unsupported("fancy assignment")
            m = key.snap()
            if isinstance(v, Gath):
                if not v.same(m): raise Unsupported("assignment from a different gather")
                g = v.full.snap() if isinstance(v.full, SA) else SA(self.shape, lambda *i: L(v.full))
                nf_ = lambda *i: sel(m.at(*i), cv(g.at(*i)), old.at(*i))
            else:
                if isinstance(v, (SA, np.ndarray)) and getattr(v, "shape", ()) not in ((), (1,)): raise Unsupported("masked assignment of an array")
                val = cv(scalar_of(v)); nf_ = lambda *i: sel(m.at(*i), val, old.at(*i))
        else:
            if isinstance(key, (OA, np.ndarray, list)): raise Unsupported("fancy assignment")
            sh, maps = self._slices(key)
            if isinstance(v, Gath): raise Unsupported("assignment from gather")
            va = tosa(v)
            vsh = va.shape
            while len(vsh) > len(sh) and vsh[0] == 1: va = va[0] if isinstance(va, SA) else va; vsh = va.shape
            bs = bshape(sh, va.shape) if sh or va.shape else ()
            if len(bs) != len(sh) or not all(dsame(a, b) for a, b in zip(bs, sh)):
                for a, b in zip(bs, sh):
                    if not dsame(a, b): raise ValueError("could not broadcast input array into shape")
            va = va.snap()
            full = all(m[0] in ("sl", "new") and (m[0] == "new" or (isinstance(m[1], int) and m[1] == 0)) for m in maps) and \
                   all(dsame(a, b) for a, b in zip([s for s, m in zip(sh, [m for m in maps if m[0] != "ix"]) if m[0] != "new"], self.shape)) and len([m for m in maps if m[0] == "sl"]) == self.ndim
            if full:
                keep = [i for i, m in enumerate(maps) if m[0] == "new"]
                def nf_(*i):
                    j = list(i)
                    for k in keep: j.insert(k, 0)
                    return cv(bat(va, j))
            else:
                def nf_(*i):
                    cond = TRUE; j = []; d = 0
                    si = iter(sh)
                    for m in maps:
                        if m[0] == "new": next(si); j.append(0); continue
                        x = i[d]; d += 1
                        if m[0] == "ix": cond = band(cond, ieq(x, m[1]))
                        elif m[0] == "sl":
                            ln = next(si); cond = band(cond, band(ile(m[1], x), ile(isx(x) + 1, m[1] + ln))); j.append(x - m[1])
                        else: next(si); j.append(m[1] - 1 - x)
                    if cond is FALSE: return old.at(*i)
                    if cond is TRUE: return cv(bat(va, j))
                    if T.ORACLE is not None: return cv(bat(va, j)) if bool(cond) else old.at(*i)
                    return sel(cond, cv(bat(va, j)), old.at(*i))
        self.f = nf_; self.cache = {}; self.ver += 1
    # ---------------------------------------------------------------- methods
    def copy(self, *a, **k): return self.snap()
    def astype(self, dt, **k):
        s = self.snap()
        if _isreal_dt(dt): f = as_dtype(dt); return SA(self.shape, lambda *i: f(re(s.at(*i))), True)
        if _isbool_dt(dt): return SA(self.shape, lambda *i: bof(s.at(*i)), True)
        return SA(self.shape, s.f, False)
    def flatten(self, *a): return self.reshape(-1).copy()
    def ravel(self, *a, **k): return self.reshape(-1)
    def reshape(self, *sh, **k):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        core = [d for d in self.shape if not (not isinstance(d, SymInt) and d == 1)]
        if sh == (-1,) or sh == -1: 
            tgt = (core[0],) if len(core) == 1 else (1,) if not core else None
            if tgt is None: raise Unsupported("ravel of a multi-dimensional symbolic array")
        else:
            tgt = list(sh); tc = [d for d in tgt if isinstance(d, SymInt) or d not in (1, -1)]
            if -1 in [d for d in tgt if not isinstance(d, SymInt)]:
                rest = list(core)
                for d in tc:
                    if rest and any(dsame(d, r) for r in rest): rest.pop([dsame(d, r) for r in rest].index(True))
                    else: raise Unsupported("reshape")
                if len(rest) > 1: raise Unsupported("reshape")
                tgt = [(rest[0] if rest else 1) if (not isinstance(d, SymInt) and d == -1) else d for d in tgt]
                tc = [d for d in tgt if isinstance(d, SymInt) or d != 1]
            if len(tc) != len(core) or not all(dsame(a, b) for a, b in zip(tc, core)):
                raise Unsupported("reshape %s -> %s" % (self.shape, tuple(sh)))
            tgt = tuple(tgt)
        me = self
        spos = [i for i, d in enumerate(self.shape) if isinstance(d, SymInt) or d != 1]
        tpos = [i for i, d in enumerate(tgt) if isinstance(d, SymInt) or d != 1]
        def f(*i):
            j = [0] * me.ndim
            for a, b in zip(spos, tpos): j[a] = i[b]
            return me.at(*j)
        return self.view_(tgt, f)
    def squeeze(self, *a): 
        core = tuple(d for d in self.shape if isinstance(d, SymInt) or d != 1); return self.reshape(core)
    def any(self, *a, **k): return sa_any(self)
    def all(self, *a, **k):
        return bnot(sa_any(ew("logical_not", self)))
    def sum(self, axis=None, **k): return sa_reduce("add", self, axis, k.get("keepdims", False))
    def max(self, axis=None, **k): return sa_reduce("maximum", self, axis, False)
    def min(self, axis=None, **k): return sa_reduce("minimum", self, axis, False)
    def dot(self, o): raise Unsupported("dot on symbolic-length array")
    def fill(self, v): self[...] = v
    def item(self):
        raise Unsupported("item() of symbolic-length array")
    def clip(self, lo=None, hi=None, **k): return FUNCS["clip"](self, lo, hi)
    def transpose(self, *a): return self.T
    @property
    def real(self): s = self.snap(); return SA(self.shape, lambda *i: re(s.at(*i)))
    @property
    def imag(self): s = self.snap(); return SA(self.shape, lambda *i: s.at(*i).im if isinstance(s.at(*i), DualT) else ZERO)
    def __bool__(self): raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
    def __float__(self): raise Unsupported("float(symbolic array)")
    def __repr__(self): return "SA%s" % (self.shape,)
def _mkop(name, swap=False):
    u = getattr(np, name)
    def g(self, o):
        if isinstance(o, Gath): return NotImplemented
        return ew(name, o, self) if swap else ew(name, self, o)
    return g
for _n, _o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv"), ("power", "pow")):
    setattr(SA, "__%s__" % _o, _mkop(_n)); setattr(SA, "__r%s__" % _o, _mkop(_n, True))
    def _iop(self, o, _n=_n):
        self[...] = ew(_n, self, o); return self
    setattr(SA, "__i%s__" % _o, _iop)
for _n, _o in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne"), ("logical_and", "and"), ("logical_or", "or")):
    setattr(SA, "__%s__" % _o, _mkop(_n))
SA.__hash__ = object.__hash__
SA.__rand__ = SA.__and__; SA.__ror__ = SA.__or__
SA.__neg__ = lambda s: ew("negative", s)
SA.__pos__ = lambda s: s
SA.__abs__ = lambda s: ew("absolute", s)
SA.__invert__ = lambda s: ew("logical_not", s)
for _n, _o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv"), ("power", "pow"), ("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge")):
    pass
def _gop(name, swap=False):
    def g(self, o):
        u = getattr(np, name)
        return self.__array_ufunc__(u, "__call__", *((o, self) if swap else (self, o)))
    return g
for _n, _o in (("add", "add"), ("subtract", "sub"), ("multiply", "mul"), ("true_divide", "truediv"), ("power", "pow")):
    setattr(Gath, "__%s__" % _o, _gop(_n)); setattr(Gath, "__r%s__" % _o, _gop(_n, True))
for _n, _o in (("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq")):
    setattr(Gath, "__%s__" % _o, _gop(_n))
Gath.__neg__ = lambda s: s.__array_ufunc__(np.negative, "__call__", s)
Gath.__abs__ = lambda s: s.__array_ufunc__(np.absolute, "__call__", s)
Gath.__hash__ = object.__hash__

def toidx(t):
    if isinstance(t, Term):
        if t.op == "c": return int(t)
        if t.op == "int": return t.args[0]
        if t.op == "ite" and T.ORACLE is not None: return toidx(t.args[1] if bool(t.args[0]) else t.args[2])
        if t.op in "+*":
            a, b = (toidx(x) for x in t.args)
            return a + b if t.op == "+" else a * b
    if isinstance(t, (int, np.integer, SymInt)): return t
    raise Unsupported("symbolic index value")
def scalar_of(v):
    if isinstance(v, SA):
        if v.shape == (): return v.at()
        if v.shape == (1,): return v.at(0)
        raise Unsupported("array where a scalar is needed")
    if isinstance(v, np.ndarray):
        if v.size == 1: return L(v.ravel()[0]) if not isinstance(v, OA) else v.view(np.ndarray).ravel()[0]
        raise Unsupported("array where a scalar is needed")
    return L(v)
def tosa(x):
    if isinstance(x, SA): return x
    if isinstance(x, Gath): raise Unsupported("gather with a full array")
    a = plain(x)
    if isinstance(x, np.ndarray): a = a.copy()          # elements are read lazily: later in-place updates must not show
    if a.ndim == 0:
        e = a[()]; return SA((), lambda: e)
    def f(*i):
        if all(not isinstance(k, SymInt) for k in i): return a[tuple(i)]
        # symbolic index into a concrete axis of length 1
        j = []
        for k, n in zip(i, a.shape):
            if not isinstance(k, SymInt): j.append(k)
            elif n == 1: j.append(0)
            else:
                for v in range(n):
                    if v == n - 1 or bool(ieq(k, v)): j.append(v); break
        return a[tuple(j)]
    return SA(a.shape, f)
def bat(s, idx):
    """element of s at broadcast index idx"""
    n = s.ndim; i = list(idx)[len(idx) - n:] if n else []
    return s.at(*[0 if (not isinstance(d, SymInt) and d == 1) else k for k, d in zip(i, s.shape)])
def ew(name, *args):
    for a in args:
        if isinstance(a, Gath): return a.__array_ufunc__(getattr(np, name), "__call__", *args)
    ss = [tosa(a) for a in args]
    ss = [s.snap() for s in ss]
    sh = bshape(*[s.shape for s in ss])
    f = EW[name]
    return SA(sh, lambda *i: f(*[bat(s, i) for s in ss]))
def sa_any(m):
    m = m.snap(); idx = []; syms = []
    for d in m.shape:
        if isinstance(d, SymInt): s = SymInt.sym("?%d" % len(syms)); syms.append((s, d)); idx.append(s)
        else: idx.append(None)
    # expand concrete dims
    terms = [TRUE] and []
    conc = [range(d) for d in m.shape if not isinstance(d, SymInt)]
    import itertools
    for c in itertools.product(*conc):
        c = list(c); ii = [x if x is not None else c.pop(0) for x in idx]
        e = bof(re(m.at(*ii)))
        terms.append(e)
    e = FALSE
    for t in terms: e = bor(e, t)
    if e is TRUE or e is FALSE: return e
    if not any(k[0] == "?" for k in intsyms(e)): return e
    return Term.mk("any", e, len(syms))
def intsyms(t):
    out = set()
    for s in subterms(t):
        for a in s.args:
            if isinstance(a, SymInt): out |= {k for k, _ in a.m}
    return out
class RedT:
    """max / min over a symbolic length: only its comparison with a value is expressible (a quantified condition)"""
    __array_priority__ = 60.0
    def __init__(self, name, a): self.name = name; self.a = a
    def _q(self, rel, o):
        mx = self.name == "maximum"
        neg = {"less": "greater_equal", "less_equal": "greater", "greater": "less_equal", "greater_equal": "less"}
        exists = rel in ("greater", "greater_equal") if mx else rel in ("less", "less_equal")
        if exists: return sa_any(ew(rel, self.a, o))
        return bnot(sa_any(ew(neg[rel], self.a, o)))
    def __lt__(self, o): return self._q("less", o)
    def __le__(self, o): return self._q("less_equal", o)
    def __gt__(self, o): return self._q("greater", o)
    def __ge__(self, o): return self._q("greater_equal", o)
    def __format__(self, f): return repr(self)
    def __repr__(self): return "<%s over a symbolic length>" % self.name
    def _no(self, *a): raise Unsupported("%s-reduction over a symbolic length" % self.name)
    def _expr(self, *a): return RedX(self.name, self.a)            # an expression of it: only printable
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _expr
    __eq__ = __ne__ = __float__ = __bool__ = item = _no
    __hash__ = object.__hash__
class RedX(RedT):
    def _q(self, rel, o): self._no()
def sa_reduce(name, a, axis, keepdims):
    if name in ("logical_or",): return sa_any(tosa(a))
    if name == "logical_and": return bnot(sa_any(ew("logical_not", a)))
    a = tosa(a).snap()
    if axis is None:
        if not has_symdim(a.shape):
            import itertools
            r = None
            for i in itertools.product(*[range(d) for d in a.shape]):
                x = a.at(*i); r = x if r is None else EW[name](r, x)
            return r
        if name in ("maximum", "minimum") and not keepdims: return RedT(name, a)
        raise Unsupported("%s-reduction over a symbolic length" % name)
    if isinstance(axis, tuple): raise Unsupported("reduction over several axes")
    axis = axis % a.ndim
    n = a.shape[axis]
    if isinstance(n, SymInt) and a.ndim == 1 and name in ("maximum", "minimum") and not keepdims: return RedT(name, a)
    if isinstance(n, SymInt): raise Unsupported("%s-reduction over a symbolic length" % name)
    sh = a.shape[:axis] + a.shape[axis + 1:]
    def f(*i):
        r = None
        for k in range(n):
            x = a.at(*(i[:axis] + (k,) + i[axis:])); r = x if r is None else EW[name](r, x)
        return r
    r = SA(sh, f) if sh else f()
    if keepdims: return r.reshape(a.shape[:axis] + (1,) + a.shape[axis + 1:])
    return r

# =============================================================================================== numpy functions
FUNCS = {}
def impl(*names):
    def d(f):
        for n in names: FUNCS[n] = f
        return f
    return d
def anysa(*xs): return any(isinstance(x, (SA, Gath)) for x in xs)
def anysym(*xs):
    for x in xs:
        if is_sym(x) or isinstance(x, (OA, SA, Gath)): return True
        if isinstance(x, (list, tuple)) and anysym(*x): return True
    return False
def _isreal_dt(dt):
    dt = fixdt(dt)
    if dt is None: return False
    if dt is float or dt is int: return True
    try: return np.dtype(dt).kind in "fiu"
    except TypeError: return False
def _isbool_dt(dt):
    try: return np.dtype(fixdt(dt)).kind == "b"
    except TypeError: return False
def _iscomplex_dt(dt):
    dt = fixdt(dt)
    try: return np.dtype(dt).kind == "c"
    except TypeError: return False

CSMODE = [False]
def full(shape, v, dtype=None):
    dtype = fixdt(dtype)
    ml = shape if isinstance(shape, MLen) else (shape[0] if isinstance(shape, tuple) and len(shape) == 1 and isinstance(shape[0], MLen) else None)
    if ml is not None: return Gath(ml.mask, full(ml.mask.shape, v, dtype))
    sh = ishape(shape)
    if has_symdim(sh):
        if isinstance(v, (SA, OA, np.ndarray)) and getattr(v, "shape", ()) != ():
            r = SA(sh, lambda *i: ZERO); r[...] = v; return r
        v = L(scalar_of(v))
        return SA(sh, lambda *i: v, dtype is None or _isreal_dt(dtype))
    if dtype is not None:
        try:
            if np.dtype(dtype).kind in "bOSU": return np.full(sh, v, dtype=dtype)
            if np.dtype(dtype).kind in "iu" and not anysym(v): return np.full(sh, v, dtype=dtype)
        except TypeError: pass
    r = np.empty(sh, object); a = plain(v)
    if a.ndim == 0: r.fill(a[()])
    else: r[...] = a
    r = r.view(OA); r.realonly = dtype is None or _isreal_dt(dtype)
    return r
def f_zeros(shape, dtype=None, order="C", **k): return full(shape, ZERO, dtype)
def f_ones(shape, dtype=None, order="C", **k): return full(shape, ONE, dtype)
def f_empty(shape, dtype=None, order="C", **k): return full(shape, uf("uninit"), dtype)
def f_full(shape, v, dtype=None, **k):
    r = full(shape, v, dtype)
    if anysym(v) and dtype is None and isinstance(r, (OA, SA)): r.realonly = not _hasdual(v)
    return r
def _hasdual(v):
    if isinstance(v, DualT): return True
    if isinstance(v, OA): return any(isinstance(x, DualT) for x in v.view(np.ndarray).ravel().tolist())
    return False
def like(v0):
    def g(a, dtype=None, **k):
        if isinstance(a, SA): r = SA(a.shape, lambda *i: v0); r.realonly = _isreal_dt(dtype); return r
        sh = np.shape(a)
        r = full(sh, v0, dtype)
        if isinstance(r, OA) and dtype is None: r.realonly = not (isinstance(a, OA) and (not a.realonly) and (CSMODE[0] or _hasdual(a)))
        return r
    return g
f_zeros_like, f_ones_like, f_empty_like = like(ZERO), like(ONE), like(uf("uninit"))
def f_full_like(a, v, dtype=None, **k):
    r = f_zeros_like(a, dtype); r[...] = v; return r
for n, f in (("zeros_like", f_zeros_like), ("ones_like", f_ones_like), ("empty_like", f_empty_like), ("full_like", f_full_like)): FUNCS[n] = f

def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    dtype = fixdt(dtype)
    if isinstance(x, range): x = list(x)
    if isinstance(x, SA): return x.astype(dtype) if dtype is not None else x.copy()
    if isinstance(x, Gath): return x
    if isinstance(x, SymInt): return _nda(L(x))
    if isinstance(x, (list, tuple)) and any(isinstance(e, SA) for e in x): return f_stack(x)
    if dtype is not None and dtype is not object:
        try:
            if np.dtype(dtype).kind in "bSUiu" and not anysym(x): return np.array(x, dtype=dtype)
        except TypeError: pass
    if not anysym(x):
        a = np.array(x, dtype=dtype, ndmin=ndmin)
        if a.dtype.kind not in "fiuc": return a
        if a.dtype.kind in "iu" and not anysym(x): return a
        x = a
    r = toarray(x) if not isinstance(x, np.ndarray) else plain(x)
    r = np.array(r, dtype=object, copy=True)
    while r.ndim < ndmin: r = r[None]
    r = r.view(OA)
    if dtype is not None and _isreal_dt(dtype): r = UFRE(r.view(np.ndarray)).view(OA) if r.shape else r; r.realonly = True
    elif not anysym(x): r.realonly = True
    return r
def f_asarray(x, dtype=None, **k):
    dtype = fixdt(dtype)
    if isinstance(x, (OA, SA)) and dtype is None: return x
    if isinstance(x, np.ndarray) and x.dtype.kind in "biuSU" and dtype is None: return x
    return f_array(x, dtype)
@impl("atleast_1d")
def f_atleast_1d(*xs):
    def g(x):
        if isinstance(x, SA): return x if x.ndim else x.reshape((1,))
        a = f_asarray(x); return a if a.ndim else a.reshape(1)
    return g(xs[0]) if len(xs) == 1 else [g(x) for x in xs]
@impl("atleast_2d")
def f_atleast_2d(x):
    if isinstance(x, SA): return x if x.ndim >= 2 else (x[None, :] if x.ndim == 1 else x.reshape((1, 1)))
    a = f_asarray(x); return a if a.ndim >= 2 else a.reshape((1, -1))
def f_arange(*a, dtype=None, **k):
    dtype = fixdt(dtype)
    a = [int(x) if isinstance(x, Term) and x.op == "c" and x.args[0].denominator == 1 else x for x in a]
    if any(isinstance(x, SymInt) for x in a):
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if sp == -1: return SA((st - en,), lambda i: Term.of(st - i))
        if sp != 1: raise Unsupported("arange with symbolic bound and step")
        return SA((en - st,), lambda i: Term.of(i + st))
    if any(is_sym(x) for x in a):
        if all(isinstance(x, (Term, int, float)) and (not isinstance(x, Term) or x.op == "c") for x in a):
            a = [float(x) if isinstance(x, Term) else x for x in a]
        else: raise Unsupported("arange of symbolic values")
    r = np.arange(*a, dtype=dtype)
    if r.dtype.kind == "f": return f_array(r)
    return r
def f_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not endpoint or retstep: raise Unsupported("linspace options")
    if isinstance(num, Term): num = int(num)
    if isinstance(a, (np.ndarray,)) and a.size > 1 or isinstance(b, np.ndarray) and b.size > 1:
        if isinstance(num, SymInt) or isinstance(a, SA) or isinstance(b, SA) or axis != 0: raise Unsupported("linspace of arrays")
        A, B_ = np.broadcast_arrays(np.asarray(plain(a)), np.asarray(plain(b)))
        r = np.empty((num,) + A.shape, object)
        for j in np.ndindex(*A.shape):
            x0, x1 = L(A[j]), L(B_[j])
            for i in range(num): r[(i,) + j] = x0 if i == 0 or num == 1 else (x1 if i == num - 1 else x0 + (x1 - x0) * C(Fraction(i, num - 1)))
        return r.view(OA)
    sh1 = np.shape(a) if not isinstance(a, SA) else a.shape
    sh2 = np.shape(b) if not isinstance(b, SA) else b.shape
    a0 = scalar_of(a); b0 = scalar_of(b)
    ex = (1,) if (sh1 == (1,) or sh2 == (1,)) else ()
    if isinstance(num, SymInt):
        n1 = Term.of(num - 1)
        r = SA((num,) + ex, lambda i, *r: a0 + (b0 - a0) * (Term.of(i) / n1))
        if bool(ieq(num, 1)): r = SA((1,) + ex, lambda i, *r: a0)
        return r
    r = np.empty((num,), object)
    for i in range(num): r[i] = a0 if i == 0 or num == 1 else (b0 if i == num - 1 else a0 + (b0 - a0) * C(Fraction(i, num - 1)))
    r = r.reshape((num,) + ex).view(OA)
    return r
@impl("where")
def f_where(c, *ab):
    if not ab:
        if isinstance(c, SA): return MaskIdx(c.snap())
        m = symmask(c) if isinstance(c, np.ndarray) else None
        if m is not None:
            if m.ndim == 1: return MaskIdx(m.view(OA))
            raise Unsupported("np.where of multi-dim symbolic mask")
        return np.where(np.array([bool(x) for x in plain(c).ravel().tolist()]).reshape(np.shape(c)))
    a, b = ab
    if anysa(c, a, b):
        c, a, b = (tosa(x).snap() for x in (c, a, b))
        sh = bshape(c.shape, a.shape, b.shape)
        return SA(sh, lambda *i: sel(bat(c, i), bat(a, i), bat(b, i)))
    return _nda(UFWHERE(plain(c), plain(a), plain(b)))
@impl("clip")
def f_clip(x, lo=None, hi=None, **k):
    r = x
    if lo is not None: r = np_ew("maximum", r, lo)
    if hi is not None: r = np_ew("minimum", r, hi)
    return r
def np_ew(name, *a):
    if anysa(*a): return ew(name, *a)
    r = UF[name](*[plain(x) for x in a])
    return _nda(r) if isinstance(r, np.ndarray) or any(isinstance(x, np.ndarray) for x in a) else r
@impl("any")
def f_any(x, axis=None, **k):
    if isinstance(x, SA): return sa_any(x)
    r = _reduce(None, "logical_or", UF["logical_or"](plain(x), plain(FALSE)) if np.shape(x) else plain(bof(L(x))), axis=axis)
    return _nda(r) if isinstance(r, np.ndarray) else r
@impl("all")
def f_all(x, axis=None, **k):
    if isinstance(x, SA): return bnot(sa_any(ew("logical_not", x)))
    r = _reduce(None, "logical_and", UF["logical_or"](plain(x), plain(FALSE)) if np.shape(x) else plain(bof(L(x))), axis=axis)
    return _nda(r) if isinstance(r, np.ndarray) else r
def red(name):
    def g(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
        if isinstance(x, SA): return sa_reduce(name, x, axis, keepdims)
        if isinstance(x, Gath): raise Unsupported("reduction of gather")
        r = _reduce(None, name, plain(x), axis=axis, keepdims=bool(keepdims) if type(keepdims) is bool else False)
        return _nda(r) if isinstance(r, np.ndarray) else r
    return g
_rsum = red("add")
def f_sum(x, *a, **k):
    """sums of sizes stay integers"""
    if not a and not k and isinstance(x, (list, tuple, np.ndarray)) and any(isinstance(e, SymInt) for e in np.ravel(np.asarray(x, object))) and all(isinstance(e, (int, np.integer, SymInt)) for e in np.ravel(np.asarray(x, object))):
        t = 0
        for e in np.ravel(np.asarray(x, object)): t = e + t if isinstance(e, SymInt) else t + int(e)
        return t
    return _rsum(x, *a, **k)
@impl("cumsum")
def f_cumsum_sizes(a, axis=None, **k):
    if isinstance(a, (list, tuple)) and any(isinstance(e, SymInt) for e in a) and all(isinstance(e, (int, np.integer, SymInt)) for e in a):
        out = []; t = 0
        for e in a: t = e + t if isinstance(e, SymInt) else t + e; out.append(t)
        return out
    return f_cumsum(a, axis, **k)
FUNCS["sum"] = f_sum; FUNCS["prod"] = red("multiply")
for n in ("max", "amax"): FUNCS[n] = red("maximum")
for n in ("min", "amin"): FUNCS[n] = red("minimum")
@impl("mean")
def f_mean(x, axis=None, **k):
    n = (np.size(x) if axis is None else np.shape(x)[axis]) if not isinstance(x, SA) else (x.size if axis is None else x.shape[axis])
    return FUNCS["sum"](x, axis=axis) / n
@impl("concatenate")
def f_concatenate(xs, axis=0, **k):
    xs = list(xs)
    if not anysa(*xs):
        return np.concatenate([plain(f_asarray(x)) for x in xs], axis=axis).view(OA) if anysym(*xs) else _c(np.concatenate(xs, axis=axis))
    ss = [tosa(x).snap() for x in xs]
    nd = ss[0].ndim; ax = axis % nd
    offs = [0]
    for s in ss: offs.append(offs[-1] + s.shape[ax])
    sh = ss[0].shape[:ax] + (offs[-1],) + ss[0].shape[ax + 1:]
    def f(*i):
        k = i[ax]
        for j, s in enumerate(ss):
            if j == len(ss) - 1 or bool(ile(isx(k) + 1, offs[j + 1])):
                return s.at(*(i[:ax] + (k - offs[j],) + i[ax + 1:]))
    return SA(sh, f)
def _c(a): return f_array(a) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a
@impl("hstack")
def f_hstack(xs, **k):
    xs = [f_atleast_1d(x) for x in xs]
    return f_concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)
@impl("vstack")
def f_vstack(xs, **k): return f_concatenate([f_atleast_2d(x) for x in xs], axis=0)
@impl("append")
def f_append(a, b, axis=None):
    if axis is None: return f_concatenate([f_ravel(a), f_ravel(b)])
    return f_concatenate([a, b], axis=axis)
@impl("insert")
def f_insert(a, k, v, axis=None):
    if axis not in (None, 0) or not isinstance(k, (int, np.integer)): raise Unsupported("np.insert")
    a = f_ravel(a) if axis is None else a
    return f_concatenate([a[:k], f_atleast_1d(v), a[k:]])
@impl("ravel")
def f_ravel(a, *r, **k): return a.ravel() if isinstance(a, SA) else f_asarray(a).ravel()
@impl("stack")
def f_stack(xs, axis=0, **k):
    if axis != 0 or not anysa(*xs):
        if anysa(*xs): raise Unsupported("np.stack axis")
        return np.stack([plain(f_asarray(x)) for x in xs], axis=axis).view(OA)
    ss = [tosa(x).snap() for x in xs]
    sh = bshape(*[s.shape for s in ss])
    def f(k, *i):
        if isinstance(k, SymInt):
            for j, s in enumerate(ss):
                if j == len(ss) - 1 or bool(ieq(k, j)): return bat(s, i)
        return bat(ss[k], i)
    return SA((len(ss),) + sh, f)
@impl("tile")
def f_tile(a, reps):
    if isinstance(reps, (SymInt,)) or (isinstance(reps, tuple) and any(isinstance(x, SymInt) for x in reps)) or isinstance(a, SA):
        s = tosa(a).snap()
        if s.ndim == 0 or s.shape == (1,):
            e = s.at() if s.ndim == 0 else s.at(0)
            return SA(ishape(reps), lambda *i: e)
        raise Unsupported("np.tile of symbolic length")
    return _c(np.tile(a, reps)) if not anysym(a) else np.tile(plain(a), reps).view(OA)
@impl("repeat")
def f_repeat(a, reps, axis=None):
    if isinstance(reps, SymInt) or isinstance(a, SA):
        s = tosa(a).snap()
        if s.ndim == 0 or s.shape == (1,):
            e = s.at() if s.ndim == 0 else s.at(0); return SA((reps,), lambda *i: e)
        raise Unsupported("np.repeat of symbolic length")
    return _c(np.repeat(a, reps, axis)) if not anysym(a) else np.repeat(plain(a), reps, axis).view(OA)
@impl("reshape")
def f_reshape(a, sh, **k): return a.reshape(sh) if isinstance(a, SA) else f_asarray(a).reshape(sh)
@impl("squeeze")
def f_squeeze(a, axis=None): return a.squeeze() if isinstance(a, SA) else plain(a).squeeze(axis).view(OA) if axis is not None else _nda(plain(a).squeeze())
@impl("transpose")
def f_transpose(a, *r): return a.T if isinstance(a, SA) else np.transpose(plain(a), *r).view(OA)
@impl("copy")
def f_copy(a, *r, **k): return a.copy() if isinstance(a, (SA, OA)) else f_array(a)
@impl("shape")
def f_shape(a): return a.shape if isinstance(a, (SA, np.ndarray)) else np.shape(a) if not is_sym(a) else ()
@impl("size")
def f_size(a, axis=None): return a.size if isinstance(a, (SA, np.ndarray)) else (1 if is_sym(a) else np.size(a))
@impl("ndim")
def f_ndim(a): return a.ndim if isinstance(a, (SA, np.ndarray)) else 0
@impl("isscalar")
def f_isscalar(a): return is_sym(a) or np.isscalar(a)
@impl("real")
def f_real(a): return a.real
@impl("imag")
def f_imag(a): return a.imag
@impl("dot")
def f_dot(a, b, **k):
    if anysa(a, b): raise Unsupported("np.dot on symbolic length")
    r = np.dot(plain(f_asarray(a)), plain(f_asarray(b)))
    return _nda(r) if isinstance(r, np.ndarray) else r
def f_cumsum(a, axis=None, **k):
    if anysa(a): raise Unsupported("cumsum on symbolic length")
    p = plain(a); p = p.ravel() if axis is None else p
    return UF["add"].accumulate(p, axis=axis or 0).view(OA)
@impl("diff")
def f_diff(a, n=1, axis=-1, **k):
    if n != 1: raise Unsupported("diff n")
    if isinstance(a, SA):
        if a.ndim != 1: raise Unsupported("diff")
        return a[1:] - a[:-1]
    p = plain(a); p = np.moveaxis(p, axis, -1)
    return np.moveaxis(UF["subtract"](p[..., 1:], p[..., :-1]), -1, axis).view(OA)
@impl("flip")
def f_flip(a, axis=None):
    if isinstance(a, SA): return a[::-1]
    return np.flip(plain(a), axis).view(OA)
@impl("trapz", "trapezoid")
def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = f_asarray(y)
    if x is None: d = dx
    else: d = f_diff(f_asarray(x))
    return FUNCS["sum"]((y[..., 1:] + y[..., :-1]) / 2 * d, axis=axis)
@impl("eye", "identity")
def f_eye(n, m=None, k=0, dtype=None, **kw):
    if isinstance(n, SymInt): return SA((n, n if m is None else m), lambda i, j: ite(ieq(i + k, j), ONE, ZERO) if not (i is j) else ONE)
    return f_array(np.eye(n, m, k))
@impl("diag")
def f_diag(a, k=0):
    if anysa(a): raise Unsupported("diag")
    return np.diag(plain(a), k).view(OA)
@impl("linalg.norm", "norm")
def f_norm(a, ord=None, axis=None, **k):
    if ord not in (None, 2) or (axis is None and np.ndim(a) > 1): raise Unsupported("norm")
    return np_ew("sqrt", FUNCS["sum"](np_ew("multiply", a, a), axis=axis))
@impl("append")
def f_append2(a, b, axis=None): return f_append(a, b, axis)
@impl("array_equal")
def f_array_equal(a, b): return f_all(np_ew("equal", a, b))
@impl("allclose", "isclose")
def f_allclose(*a, **k): raise Unsupported("allclose on symbolic values")
@impl("around", "round", "round_")
def f_round(x, decimals=0, **k):
    if decimals != 0: raise Unsupported("rounding to decimals")
    return ew("rint", x) if anysa(x) else np_ew("rint", x)
@impl("floor_divide", "interp", "argsort", "argmax", "argmin", "sort", "unique", "searchsorted", "polyfit")
def f_unsup(*a, **k): raise Unsupported("numpy function on symbolic values")
@impl("broadcast_to")
def f_broadcast_to(a, sh, **k):
    sh = ishape(sh)
    if has_symdim(sh) or isinstance(a, SA):
        s = tosa(a).snap(); return SA(sh, lambda *i: bat(s, i))
    return np.broadcast_to(plain(a), sh).copy().view(OA)
@impl("expand_dims")
def f_expand_dims(a, axis):
    if isinstance(a, SA):
        n = a.ndim + 1; axis %= n
        return a[tuple([slice(None)] * axis + [None])]
    return np.expand_dims(plain(a), axis).view(OA)
@impl("polyval")
def f_polyval(p, x):
    r = ZERO
    for c in (p if not isinstance(p, np.ndarray) else plain(p).tolist()): r = r * x + c
    return r

class Facade:
    """stands for the numpy module inside the code under verification"""
    _over = dict(zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full, zeros_like=f_zeros_like, ones_like=f_ones_like, empty_like=f_empty_like,
                 full_like=f_full_like, array=f_array, asarray=f_asarray, asanyarray=f_asarray, arange=f_arange, linspace=f_linspace, pi=PI,
                 e=fn("exp", ONE), inf=math.inf, eye=f_eye, identity=f_eye)
    def __init__(self):
        self.linalg = LinAlg()
    def __getattr__(self, n):
        o = Facade._over.get(n)
        if o is not None: return o
        real = getattr(np, n)
        if isinstance(real, np.ufunc): return UfuncWrap(real.__name__, real)
        if n in FUNCS:
            f = FUNCS[n]
            def g(*a, **k):
                if anysym(*a, *k.values()): return f(*a, **k)
                if "dtype" in k: k["dtype"] = fixdt(k["dtype"])
                r = real(*a, **k)
                return _c(r) if isinstance(r, np.ndarray) else r
            return g
        if callable(real) and not isinstance(real, type):
            def g(*a, **k):
                if "dtype" in k: k["dtype"] = fixdt(k["dtype"])
                r = real(*a, **k)
                if isinstance(r, np.ndarray) and r.dtype.kind == "f" and not isinstance(r, OA): return f_array(r)
                if isinstance(r, (list, tuple)) and any(isinstance(x, np.ndarray) and x.dtype.kind == "f" for x in r): return type(r)([_c(x) for x in r]) if type(r) in (list, tuple) else r
                return r
            return g
        return real
class LinAlg:
    def __getattr__(self, n):
        if n == "norm": return FUNCS["norm"]
        real = getattr(np.linalg, n)
        def g(*a, **k):
            aa = [_const_float(x) for x in a]
            if any(x is None for x in aa): raise Unsupported("np.linalg.%s on symbolic values" % n)
            return _c(real(*aa, **k))
        return g
def _const_float(x):
    if isinstance(x, OA):
        try: return np.array([float(e) for e in x.view(np.ndarray).ravel().tolist()]).reshape(x.shape)
        except (Unsupported, TypeError): return None
    if isinstance(x, SA): return None
    return x
class UfuncWrap:
    def __init__(self, name, real): self.name = name; self.real = real; self.__name__ = name
    def __call__(self, *a, out=None, where=True, **k):
        if not anysym(*a) and not anysym(where): 
            r = self.real(*a, where=where, **k) if out is None else self.real(*a, out=out, where=where, **k)
            if isinstance(r, np.ndarray) and r.dtype.kind == "f": return f_array(r)
            if isinstance(r, (float, np.floating)) and self.name in EW and all(isinstance(x, (int, float, np.number)) for x in a):
                # exact constant folding instead of rounding
                try: return EW[self.name](*a)
                except Exception: return r
            return r
        if out is not None or where is not True:
            if out is not None: o = out[0] if isinstance(out, tuple) else out; return o.__array_ufunc__(self.real, "__call__", *a, out=(o,), where=where)
            raise Unsupported("ufunc where=")
        for x in a:
            if isinstance(x, (Gath,)): return x.__array_ufunc__(self.real, "__call__", *a)
        if self.name == "matmul": return f_dot(*a)
        if anysa(*a): return ew(self.name, *a)
        if self.name not in EW: raise Unsupported("ufunc " + self.name)
        return np_ew(self.name, *a)
    def __getattr__(self, n):
        if n in ("reduce", "accumulate", "outer", "at"):
            real = getattr(self.real, n); name = self.name
            def g(*a, **k):
                if n == "reduce" and isinstance(a[0], SA): return sa_reduce(name, a[0], k.get("axis", 0), False)
                return real(*[f_asarray(x) if i == 0 else x for i, x in enumerate(a)], **k)
            return g
        return getattr(self.real, n)

class MathFacade:
    _m = dict(sin="sin", cos="cos", tan="tan", asin="arcsin", acos="arccos", atan="arctan", atan2="arctan2", exp="exp", log="log", log10="log10", sqrt="sqrt", fabs="absolute",
              sinh="sinh", cosh="cosh", tanh="tanh", pow="power", radians="deg2rad", degrees="rad2deg", hypot="hypot", floor="floor", ceil="ceil", isnan="isnan")
    pi = PI; e = fn("exp", ONE); inf = math.inf; nan = math.nan
    def __getattr__(self, n):
        if n in self._m:
            f = EW[self._m[n]]
            def g(*a):
                a = [scalar_of(x) if isinstance(x, (np.ndarray, SA)) else x for x in a]
                if n in ("floor", "ceil") and not any(is_sym(x) for x in a): return getattr(math, n)(*a)
                if n == "log" and len(a) == 2: return f(a[0]) / f(a[1])
                return f(*a)
            return g
        return getattr(math, n)
NPF = Facade()
MATHF = MathFacade()
_rev = {id(getattr(np, k)): k for k in list(Facade._over) + list(FUNCS) if hasattr(np, k)}
_rev.update({id(getattr(np, k)): k for k in EW if hasattr(np, k)})

def sym_range(*a):
    a = [int(x) if isinstance(x, Term) else x for x in a]
    if any(isinstance(x, SymInt) for x in a): return f_arange(*a)
    return builtins.range(*a)
class _RangeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.range)
    def __call__(cls, *a): return sym_range(*a)
class SRange(metaclass=_RangeMeta): pass
def sym_len(x):
    if isinstance(x, (MaskIdx, Gath)): return MLen(x.mask)
    if isinstance(x, SA) and x.ndim: return x.shape[0]
    return builtins.len(x)
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.int, SymInt))
    def __call__(cls, x=0, *a):
        if isinstance(x, SymInt): return x
        if isinstance(x, (OA, SA)): x = scalar_of(x)
        if isinstance(x, Term):
            if x.op == "int": return x.args[0]
            if x.op == "c": return builtins.int(x.args[0])
        return builtins.int(x, *a)
class SInt(metaclass=_IntMeta): pass
class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.float, Term))
    def __call__(cls, x=0.0):
        if isinstance(x, SymInt): return Term.of(x)
        if isinstance(x, (Term, DualT)): 
            if isinstance(x, DualT): raise TypeError("can't convert complex to float")
            return x
        if isinstance(x, (OA, SA)): 
            v = scalar_of(x)
            return re(v)
        return builtins.float(x)
class SFloat(metaclass=_FloatMeta): pass
BUILTINS = {"range": SRange, "len": sym_len, "int": SInt, "float": SFloat}
def fixdt(dt): return builtins.float if dt is SFloat else (builtins.int if dt is SInt else dt)
def sym_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if anysym(*xs) and not k:
        r = xs[0]
        for x in xs[1:]: r = sel(cmp(_lt)(r, x), x, r)
        return r
    return builtins.max(*a, **k)
def sym_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if anysym(*xs) and not k:
        r = xs[0]
        for x in xs[1:]: r = sel(cmp(_lt)(x, r), x, r)
        return r
    return builtins.min(*a, **k)

def install(mod):
    """replace numpy/math names in a loaded module's globals by the facade (reversible)"""
    saved = {}
    g = mod.__dict__
    for k, v in list(g.items()):
        if k.startswith("__"): continue
        n = None
        if v is np: n = NPF
        elif v is np.linalg: n = NPF.linalg
        elif v is math: n = MATHF
        elif isinstance(v, types.ModuleType) and v.__name__ in ("scipy.sparse",): 
            from . import spf; n = spf.SPF
        elif isinstance(v, types.BuiltinFunctionType) and getattr(math, v.__name__, None) is v and v.__name__ in MathFacade._m: n = getattr(MATHF, v.__name__)
        elif id(v) in _rev and (callable(v)) and getattr(np, _rev[id(v)], None) is v: n = getattr(NPF, _rev[id(v)])
        if n is None and type(v) is builtins.float and v == math.pi: n = PI
        if n is not None: saved[k] = v; g[k] = n
    for k, v in BUILTINS.items():
        if k not in g: saved[k] = _ABSENT; g[k] = v
    return saved
_ABSENT = object()
def uninstall(mod, saved):
    for k, v in saved.items():
        if v is _ABSENT: mod.__dict__.pop(k, None)
        else: mod.__dict__[k] = v
