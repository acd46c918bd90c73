"""U01-U03: vector and equation utilities.  The relation / equation list given to the component's public API is the specification; the claims are
stated entry by entry against that list, "N" standing for a symbolic vector size."""
from ..contract import contract
from ..terms import *
from ..component import Cfg
import numpy as np

def sz(v, nn):
    if isinstance(v, str): return nn
    if isinstance(v, (list, tuple)): return type(v)(sz(x, nn) for x in v)
    return v
def kw(d, nn): return {a: sz(b, nn) if a in ("vec_size", "vec_sizes", "length") else b for a, b in d.items()}
def builder(eqs, meth, ctor=False):
    def b(cls, nn):
        if ctor: c = cls(*eqs[0][0], **kw(eqs[0][1], nn)); rest = eqs[1:]
        else: c = cls(); rest = eqs
        for a, d in rest: getattr(c, meth)(*a, **kw(d, nn))
        return c
    return b
def ecfg(eqs, meth, tag, ctor=False, **k):
    sym = any(isinstance(x, str) for _, d in eqs for n in ("vec_size", "vec_sizes") for x in np.ravel([d.get(n, 0)]) if isinstance(x, str))
    return lambda cls: Cfg(cls, build=builder(eqs, meth, ctor), tag=tag, nnslot=True, extra=eqs, modes=(["sym", 1, 2] if sym else [3]), **k)

# ------------------------------------------------------------------ U02
def shape(vs, i, length, nn):
    v = vs[i] if isinstance(vs, (list, tuple)) else vs
    return sz(v, nn)
def entries(k, size, length):
    """index tuples of the output to be checked: the generic node for symbolic sizes, all entries otherwise"""
    rows = [k.node] if isinstance(size, str) else (range(size) if k.node is None or k.nodeint == 0 else [])
    return [(r,) if length == 1 else (r, c) for r in rows for c in range(length)]
def bc(vs, i, e):
    """broadcast of a scalar input"""
    v = vs[i] if isinstance(vs, (list, tuple)) else vs
    return ((0,) + e[1:]) if v == 1 else e
def outsize(vs):
    if isinstance(vs, (list, tuple)): return "N" if any(isinstance(v, str) for v in vs) else max(vs)
    return vs
def addsub(k):
    for a, d in k.cfg.extra:
        out, ins = a[0], a[1]; vs = d.get("vec_size", 1); L = d.get("length", 1); sf = d.get("scaling_factors") or [1] * len(ins); u = d.get("units")
        if not isinstance(k.node, int) or k.node == 0:
            for n in [out] + list(ins): k.unit("%s: %s is declared in the equation's unit" % (out, n), n, u)
        for e in entries(k, outsize(vs), L):
            k.eq("%s%s = scaled sum of its inputs" % (out, "" if isinstance(outsize(vs), str) else list(e)), k.o(out, u, at=e), sum((C(s) * k.i(n, u, at=bc(vs, j, e)) for j, (n, s) in enumerate(zip(ins, sf))), C(0)))
def muldiv(k):
    for a, d in k.cfg.extra:
        out, ins = a[0], a[1]; vs = d.get("vec_size", 1); L = d.get("length", 1); dv = d.get("divide") or [False] * len(ins); us = d.get("input_units") or [None] * len(ins)
        if not isinstance(k.node, int) or k.node == 0:
            for n, u in zip(ins, us): k.unit("%s: %s is declared in the stated unit" % (out, n), n, u)
        for e in entries(k, outsize(vs), L):
            r = C(d.get("scaling_factor", 1))
            for j, n in enumerate(ins):
                x = k.i(n, "raw", at=bc(vs, j, e)); r = r / x if dv[j] else r * x
            tag = "" if isinstance(outsize(vs), str) else list(e)
            k.eq("%s%s = scaled product of its inputs, marked ones divided" % (out, tag), k.o(out, "raw", at=e), r)
            # in physical units as well: the declared output unit is the product of the input units
            f = C(1)
            for j, n in enumerate(ins):
                if us[j]: f = f / k.i(n, at=bc(vs, j, e)) * k.i(n, "raw", at=bc(vs, j, e)) if dv[j] else f * k.i(n, at=bc(vs, j, e)) / k.i(n, "raw", at=bc(vs, j, e))
            if any(us): k.eq("%s%s declared in the unit of the product" % (out, tag), k.o(out, at=e), k.o(out, "raw", at=e) * f)
A = lambda eqs, tag, **k: ecfg(eqs, "add_equation", tag, **k)
ADD = [
    A([(("s", ["a", "b", "c"]), dict(scaling_factors=[1, -1, 2.5], units="kg"))], "3 scalars"),
    A([(("s", ["a", "b"]), dict(vec_size="N", units="kg")), (("t", ["d", "e"]), dict(scaling_factors=[-1, 3]))], "vector and scalar equations"),
    A([(("s", ["a", "b"]), dict(vec_size=3, length=2, scaling_factors=[2, -3])), (("t", ["d", "e", "f"]), dict(vec_size=[1, "N", "N"], scaling_factors=[1, -2, 3], units="ft"))], "matrix, broadcast"),
    A([(("u", ["a", "b", "c", "d"]), dict(vec_size=["N", 1, "N", 1], scaling_factors=[0.5, -1, 0, 4], units="degF"))], "mixed broadcast"),
    A([(("m", ["a", "b"]), dict(vec_size=[1, 2], length=3, scaling_factors=[-1, 1]))], "row broadcast"),
    A([(("s", ["a", "b"]), dict(vec_size=2, scaling_factors=[1, -1], units="m")), (("w", ["p"]), dict(vec_size="N", scaling_factors=[-2]))], "constructor then equation", ctor=True),
    A([(("w", ["p", "q", "r", "s", "t", "v"]), dict(scaling_factors=[1, 2, 3, -4, 5, -6], vec_size="N")), (("x", ["p2"]), dict()), (("y", ["p3", "p4"]), dict(vec_size=2))], "three equations"),
]
MUL = [
    A([(("s", ["a", "b", "c"]), dict(divide=[False, True, False], input_units=["kg", "min", "ft"], scaling_factor=2.5))], "3 scalars", pos=("*",)),
    A([(("s", ["a", "b"]), dict(vec_size="N", divide=[True, True], scaling_factor=-3, input_units=["h", None])), (("t", ["d", "e"]), dict())], "vector and scalar equations", pos=("*",)),
    A([(("s", ["a", "b"]), dict(vec_size=3, length=2)), (("t", ["d", "e", "f"]), dict(vec_size=[1, "N", "N"], divide=[False, False, True], input_units=["km", "lbf", "s"]))], "matrix, broadcast", pos=("*",)),
    A([(("t", ["d", "e", "f"]), dict(vec_size=["N", 1, 1], divide=[True, False, True], scaling_factor=0.5))], "broadcast divide", pos=("*",)),
    A([(("t", ["d", "e", "f", "g"]), dict(vec_size=["N", "N", 1, "N"], divide=[False, True, True, False], scaling_factor=7.0, input_units=["kW", "kW", "lb", "ft**2"]))], "units in and out", pos=("*",)),
    A([(("s", ["a", "b"]), dict(vec_size=2, divide=[True, False], scaling_factor=4.0)), (("m", ["g", "h"]), dict(vec_size=[2, 1], length=2, divide=[False, True]))], "constructor then equation", ctor=True, pos=("*",)),
]
def again(c, n=2):
    """the same component, set up n times"""
    def f(cls):
        x = c(cls); x.setups = n; x.tag += ", set up %d times" % n
        return x
    return f
contract("U02", "AddSubtractComp", cfgs=ADD + [again(c) for c in ADD] + [again(ADD[2], 3)])(addsub)
contract("U02", "ElementMultiplyDivideComp", cfgs=MUL + [again(c) for c in MUL] + [again(MUL[2], 3)])(muldiv)

# ------------------------------------------------------------------ U01
def pos_of(sizes, j): return sum((s for s in sizes[:j]), 0)
def parts(k, d):
    """(member index, index inside the member, index in the joined vector)"""
    vs = d["vec_sizes"]; L = d.get("length", 1); nn = k.nn; S = [sz(v, nn) for v in vs]
    for j, v in enumerate(vs):
        off = pos_of(S, j)
        for r in ([k.node] if isinstance(v, str) else range(v)):
            for c in ([()] if L == 1 else [(x,) for x in range(L)]): yield j, (r,) + c, (off + r,) + c
def concat(k):
    for (out, ins), d in k.cfg.extra:
        for j, ei, eo in parts(k, d): k.eq("%s: entry %s of %s at its place" % (out, list(ei) if not isinstance(ei[0], SymInt) else "i", ins[j]), k.o(out, d.get("units"), at=eo), k.i(ins[j], d.get("units"), at=ei))
def split(k):
    for (outs, inp), d in k.cfg.extra:
        for j, ei, eo in parts(k, d): k.eq("%s: entry %s of %s at its place" % (inp, list(ei) if not isinstance(ei[0], SymInt) else "i", outs[j]), k.o(outs[j], d.get("units"), at=ei), k.i(inp, d.get("units"), at=eo))
Rl = lambda eqs, tag, **k: ecfg(eqs, "add_relation", tag, **k)
contract("U01", "VectorConcatenateComp", cfgs=[
    Rl([(("o", ["a", "b", "c"]), dict(vec_sizes=[3, 1, 2], units="kg")), (("p", ["d", "e"]), dict(vec_sizes=[2, 2], length=3))], "two relations"),
    Rl([(("o", ["a", "b", "c"]), dict(vec_sizes=[2, "N", 1], units="kg"))], "symbolic middle"),
    Rl([(("o", ["a", "b"]), dict(vec_sizes=["N", "N"], units="ft")), (("p", ["d", "e", "f"]), dict(vec_sizes=[1, 1, 1]))], "symbolic"),
    Rl([(("o", ["a", "b", "c", "d"]), dict(vec_sizes=["N", 1, "N", 3]))], "symbolic four"),
    Rl([(("o", ["a", "b"]), dict(vec_sizes=[1, "N"], length=2))], "symbolic matrix"),
    Rl([(("o", ["a", "b"]), dict(vec_sizes=[2, 4])), (("p", ["c", "d", "e"]), dict(vec_sizes=[1, 5, 2], units="s"))], "constructor", ctor=True),
    Rl([(("o", ["a"]), dict(vec_sizes=[4], length=2)), (("p", ["d", "e"]), dict(vec_sizes=[1, 3], length=4)), (("q", ["g", "h"]), dict(vec_sizes=[3, 1], units="K"))], "three relations")])(concat)
contract("U01", "VectorSplitComp", cfgs=[
    Rl([((["a", "b", "c"], "i"), dict(vec_sizes=[3, 1, 2], units="kg")), ((["d", "e"], "j"), dict(vec_sizes=[2, 2], length=3))], "two relations"),
    Rl([((["a", "b", "c"], "x"), dict(vec_sizes=[2, "N", 1], units="kg"))], "symbolic middle"),
    Rl([((["a", "b"], "x"), dict(vec_sizes=["N", "N"], units="ft")), ((["d", "e", "f"], "y"), dict(vec_sizes=[1, 1, 1]))], "symbolic"),
    Rl([((["a", "b", "c", "d"], "x"), dict(vec_sizes=["N", 1, "N", 3]))], "symbolic four"),
    Rl([((["a", "b"], "x"), dict(vec_sizes=[1, "N"], length=2))], "symbolic matrix"),
    Rl([((["a", "b"], "i"), dict(vec_sizes=[2, 4])), ((["c", "d", "e"], "j"), dict(vec_sizes=[1, 5, 2], units="s"))], "constructor", ctor=True),
    Rl([((["a"], "i"), dict(vec_sizes=[4], length=2)), ((["d", "e"], "j"), dict(vec_sizes=[1, 3], length=4)), ((["g", "h"], "l"), dict(vec_sizes=[3, 1], units="K"))], "three relations")])(split)

# ------------------------------------------------------------------ U03
@contract("U03", "SelectorComp", modes=["sym", 1, 2])
def selector(k):
    names = list(k.opt("input_names")); s = k.i("selector", "raw"); r = k.o("result", "raw")
    for j, n in enumerate(names):
        if k.case(s > C(j) - C("0.5"), s < C(j) + C("0.5")): k.eq("selector value %d returns input %d" % (j, j), r, k.i(n, "raw"))
@contract("U03", "LinearInterpolator", modes=[2, 3, 4, 7])
def interp(k):
    n = k.nn; a, b = k.i("start_val", "raw", at=0), k.i("end_val", "raw", at=0)
    k.eq("equal steps from start to end", k.o("vec", "raw"), a + (b - a) * C(k.node if not isinstance(k.node, SymInt) else 0) / C(n - 1))
def extremum(sign):
    def f(k):
        out = "max" if sign > 0 else "min"; m = k.o(out, "raw", at=0); n = k.nn; xs = [k.i("array", "raw", at=(j,)) for j in range(n)]
        for j, x in enumerate(xs):
            if sign > 0: k.le("bounds entry %d" % j, x, m)
            else: k.le("bounds entry %d" % j, m, x)
        e = C(1)
        for x in xs: e = e * (m - x)
        k.eq("is one of the entries", e, C(0))
    return f
contract("U03", "MaxComp", modes=[1, 2, 3, 4], label="max", bounded="array lengths 1..4")(extremum(1))
contract("U03", "MinComp", modes=[1, 2, 3, 4], label="min", bounded="array lengths 1..4")(extremum(-1))
LAB = [["a", "aa", 2.0, "kg"], ["b", "bb", np.ones(3), "m"], ["c", "cc", np.array([1.0, 2.0]), None], ["d", "dd", 7, "degF"], ["e", "ee", np.ones((2, 3)), "ft/s"]]
def label(k):
    for i, o, v, u in LAB:
        for e in np.ndindex(np.shape(v) or (1,)): k.eq("%s%s unchanged under its new name" % (i, list(e)), k.o(o, u or "raw", at=e), k.i(i, u or "raw", at=e))
        k.eq("%s: value in SI units unchanged" % i, k.o(o, at=(0,) * max(1, np.ndim(v))), k.i(i, at=(0,) * max(1, np.ndim(v))))
import copy
contract("U03", "DVLabel", cfgs=[lambda cls: Cfg(cls, build=lambda c: c(copy.deepcopy(LAB)), tag="5 labels")])(label)
