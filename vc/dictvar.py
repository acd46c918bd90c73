"""U03: sources driven by a dictionary.  The functions' real bodies run on a nested dictionary whose values are arbitrary: the code only moves them,
so a sentinel stands for every value; the number of levels is enumerated."""
import time, numbers
import numpy as np
import openmdao.api as om
from . import configs
from .unit import Result

class Num(numbers.Number):
    """an arbitrary number"""
    def __init__(self, n): self.n = n
    def __repr__(self): return "<number %s>" % self.n
    def _no(self, *a): raise TypeError("arithmetic on a stored value")
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __float__ = _no
    __hash__ = object.__hash__
def arr(n, shape):
    a = np.empty(shape, object)
    for i in np.ndindex(*shape): a[i] = Num("%s%s" % (n, list(i)))
    return a
DECOY = lambda: {"value": Num("decoy"), "units": "decoy"}
def tree(path, leaf):
    d = leaf
    for n in reversed(path): d = {**{n + "x": DECOY(), "z": DECOY(), "value": Num("decoy"), "units": "decoy"}, n: d}
    return d
PATHS = [("a",), ("a", "b"), ("ac", "geom", "wing"), ("ac", "geom", "ac", "geom"), ("value",), ("a", "value"), ("units", "units", "u")]
LEAVES = [("number with unit", Num("v"), "kg"), ("number without unit", Num("v"), None), ("number, unit not listed", Num("v"), Ellipsis), ("vector", arr("v", (3,)), "ft"), ("matrix", arr("v", (2, 3)), "degF"), ("one entry", arr("v", (1,)), None)]
def same(got, val):
    w = np.array([val], dtype=object) if isinstance(val, Num) else val
    g = np.asarray(got, dtype=object)
    return g.shape == w.shape and all(g[i] is w[i] for i in np.ndindex(*w.shape))
def leaf(v, u):
    d = {"value": v}
    if u is not Ellipsis: d["units"] = u
    return d
def symbolic(cls, sep):
    """(label, ok, detail) for add_output_from_dict, IndepVarComp.add_output replaced by its contract"""
    for path in PATHS:
        for name, v, u in LEAVES:
            calls = []; old = om.IndepVarComp.add_output
            om.IndepVarComp.add_output = lambda self, *a, **k: calls.append((a, k))
            try:
                d = tree(path, leaf(v, u)); c = cls(d); n = sep.join(path)
                if sep == "|": c.add_output_from_dict(n)
                else: c.add_output_from_dict(n, separator=sep)
            finally: om.IndepVarComp.add_output = old
            uu = None if u is Ellipsis else u
            a = dict(calls[0][1]) if len(calls) == 1 else {}
            for w, x in zip(("name", "val", "shape", "units"), calls[0][0] if len(calls) == 1 else ()): a.setdefault(w, x)
            shape = (1,) if isinstance(v, Num) else v.shape
            yield "%s under %d levels: the stored value, unit and shape under the structured name" % (name, len(path)), len(calls) == 1 and a.get("name") == n and same(a.get("val"), v) and a.get("units") == uu and tuple(np.atleast_1d(a.get("shape", shape))) == shape and not any(a.get(x) for x in ("factor", "ref0")), "%s %s -> %s" % (n, leaf(v, u), calls)
def dymos(cls):
    for path in PATHS:
        for name, v, u in LEAVES:
            for opts in ({}, {"opt": True}, {"dynamic": True}):
                calls = []
                class Traj: _phases = {"p1": 0, "p2": 0, "p3": 0}
                t = Traj(); t.add_design_parameter = lambda *a, **k: calls.append((a, k))
                cls(tree(path, leaf(v, u)), t).add_output_from_dict("|".join(path), **opts)
                uu = None if u is Ellipsis else u
                a = dict(calls[0][1]) if len(calls) == 1 else {}
                for w, x in zip(("name",), calls[0][0] if calls else ()): a.setdefault(w, x)
                n = "|".join(path)
                yield "%s under %d levels: stored value and unit as a parameter of every phase%s" % (name, len(path), "".join(" " + o for o in opts)), len(calls) == 1 and a["name"] == n and same(a["val"], v) and a["units"] == uu and a["targets"] == {p: [n] for p in Traj._phases} and a.get("opt", False) == opts.get("opt", False) and a.get("dynamic", False) == opts.get("dynamic", False), "%s" % (calls,)
REAL = {"ac": {"S": {"value": 12.5, "units": "m**2"}, "n": {"value": 3}, "w": {"v": {"value": np.array([1.5, -2.0, 0.0]), "units": "degF"}, "M": {"value": np.arange(6.0).reshape(2, 3), "units": None}, "z": {"value": np.float64(0.0), "units": "kg"}}}, "top": {"value": -7, "units": "ft"}}
NAMES = ["ac|S", "ac|n", "ac|w|v", "ac|w|M", "ac|w|z", "top"]
def real(cls):
    """the outputs of an assembled problem"""
    p = om.Problem(reports=False); c = p.model.add_subsystem("c", cls(REAL))
    for n in NAMES: c.add_output_from_dict(n)
    p.setup(); p.final_setup(); p.run_model()
    for n in NAMES:
        d = REAL
        for x in n.split("|"): d = d[x]
        m = p.model._var_allprocs_abs2meta["output"]["c." + n]
        yield "assembled: %s outputs its stored value in its stored unit" % n, np.array_equal(np.ravel(p.get_val("c." + n)), np.ravel(d["value"])) and p.get_val("c." + n).shape == (np.shape(d["value"]) or (1,)) and m["units"] == d.get("units"), "%r %r" % (p.get_val("c." + n), m["units"])
    for bad in ("ac|missing", "ac|w"):
        try: c2 = cls(REAL); c2.add_output_from_dict(bad); ok = False
        except KeyError: ok = True
        yield "a name without a stored value is refused", ok, bad

def run(seed=1):
    t0 = time.time(); R = Result("dictionary-driven sources"); seen = set()
    D = configs.find("DictIndepVarComp"); Y = configs.find("DymosDesignParamsFromDict")
    from openconcept.utilities import dict_indepvarcomp as mod
    D = D or mod.DictIndepVarComp; Y = Y or mod.DymosDesignParamsFromDict
    R.functions += [c.__module__ + "." + c.__name__ for c in (D, Y)]; R.bounded.append("dictionary depth 1 to 4 (stored values and units arbitrary)")
    for kind, gen in (("proved: case enumeration", lambda: symbolic(D, "|")), ("proved: case enumeration", lambda: symbolic(D, ":")), ("proved: case enumeration", lambda: dymos(Y)), ("bounded: real run", lambda: real(D))):
        try: res = list(gen())
        except TypeError as e: R.notes.append("outside the subset: %r" % e); continue
        except Exception as e: res = [("the source can be built", False, repr(e))]
        for lab, ok, det in res:
            if ok: R.count(kind)
            else:
                R.count("refuted")
                if lab not in seen:
                    seen.add(lab); R.viol.append(dict(label=lab, key=["DictIndepVarComp", lab], replay=dict(call=lab, observed=det), detail=det))
    R.cross = len(NAMES); R.t = time.time() - t0
    return R
