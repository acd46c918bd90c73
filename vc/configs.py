"""Instances of the repository's components put under contract: every component class found in the packages is taken with its default
options (float options symbolic); structural options (ints, flags, lists) are enumerated here."""
import importlib, inspect, pkgutil, sys
import numpy as np
import openmdao.api as om
from .component import Cfg, NN
from openmdao.core.explicitcomponent import ExplicitComponent
from openmdao.core.implicitcomponent import ImplicitComponent

_cache = {}
def modules():
    if "m" not in _cache:
        import openconcept
        ms = []
        for m in pkgutil.walk_packages(openconcept.__path__, "openconcept."):
            if ".tests" in m.name or ".examples" in m.name: continue
            try: ms.append(importlib.import_module(m.name))
            except ImportError as e: _cache.setdefault("import_errors", []).append((m.name, str(e)))
        _cache["m"] = ms
    return _cache["m"]

def classes():
    """all component classes of the package -> {name: class}"""
    if "c" not in _cache:
        out = {}
        for mod in modules():
            for n, c in list(vars(mod).items()):
                if inspect.isclass(c) and issubclass(c, (ExplicitComponent, ImplicitComponent)) and c.__module__ == mod.__name__:
                    out[(mod.__name__[len("openconcept."):], n)] = c
        _cache["c"] = out
    return _cache["c"]

def find(name):
    for (m, n), c in classes().items():
        if n == name: return c
    for mod in modules():
        c = vars(mod).get(name)
        if inspect.isclass(c): return c
    return None

AREA = {   # property -> module prefixes
    "D01": ("utilities.",),
    "D02": ("mission.", "atmospherics.", "aerodynamics.", "geometry.", "stability."),
    "D03": ("propulsion.", "energy_storage."),
    "D04": ("thermal.",),
    "D05": ("weights.", "costs."),
}
SKIP = {"DictIndepVarComp": "has outputs only, no derivatives", "OASDataGen": "trains a surrogate by running OpenAeroStruct (outside the verifier's subset)", "VLMDataGen": "trains a surrogate by running OpenAeroStruct (outside the verifier's subset)",
        "DymosDesignParamsFromDict": "helper class, not a component"}

def B(f): return lambda cls: f(cls)

def _addsub(specs):
    def b(cls):
        c = cls()
        for a, k in specs: c.add_equation(*a, **k)
        return c
    return b
def _relation(specs):
    def b(cls):
        c = cls()
        for a, k in specs: c.add_relation(*a, **k)
        return c
    return b
def _integ(ints, **opts):
    def b(cls):
        c = cls(**opts)
        return c
    b.ints = ints
    return b

class ICfg(Cfg):
    """Integrator: add_integrand is called after setup, as OpenMDAO users do"""
    def __init__(self, cls, ints, opts, tag, nn):
        super().__init__(cls, opts=dict(opts, num_nodes=nn), tag=tag)
        self.ints = ints; self.fixed_nn = nn; self.modes = [nn]
    def make(self):
        c = self.cls(**self.opts)
        ints = self.ints; orig = type(c).setup
        def setup():
            orig(c)
            for a, k in ints: c.add_integrand(*a, **k)
        c.setup = setup
        return c

QI = [(("q",), dict(units="kg")), (("e",), dict(rate_name="p", start_name="e0", end_name="e1", rate_units="kW"))]
QF = [(("f",), dict(units="kg", final_only=True)), (("z",), dict(units="kg", zero_start=True)), (("zf",), dict(units="kg", zero_start=True, final_only=True))]

def integrator_cfgs(cls, sizes=(3, 5, 7)):
    out = []
    for meth in ("simpson", "bdf3"):
        for ts in ("dt", "duration", "bounds"):
            for nn in [s for s in sizes if s >= (5 if meth == "bdf3" else 3)]:   # BDF3 needs four intervals: with 3 nodes the scheme cannot be built (setup raises)
                out.append(ICfg(cls, QI if nn != 5 else QI + QF, dict(method=meth, time_setup=ts, diff_units="s"), "%s,%s,%d" % (meth, ts, nn), nn))
    for ts in ("dt", "duration"): out.append(ICfg(cls, QI, dict(method="simpson", time_setup=ts, diff_units="s"), "%s,1" % ts, 1))
    return out
def old_integrator_cfgs(cls):
    out = []
    def put(tag, n, **o): out.append(Cfg(cls, dict(dict(num_nodes=n, quantity_units="kg", diff_units="s"), **o), tag=tag, modes=[n]))
    for ts in ("dt", "duration", "bounds"):
        put("simpson,%s,1" % ts, 1, method="simpson", time_setup=ts)
    put("bdf3,1,zero_start", 1, method="bdf3", zero_start=True)
    for meth in ("simpson", "bdf3"):
        for ts in ("dt", "duration", "bounds"):
            for n in (3, 5, 9):
                if n >= (5 if meth == "bdf3" else 3): put("%s,%s,%d" % (meth, ts, n), n, method=meth, time_setup=ts)
            put("%s,%s,final_only" % (meth, ts), 5, method=meth, time_setup=ts, final_only=True)
            put("%s,%s,zero_start,final_only" % (meth, ts), 5, method=meth, time_setup=ts, final_only=True, zero_start=True)
        put(meth + ",segments", 5, method=meth, segment_names=["a", "b", "c"], segments_to_count=["a", "c"])
        for cnt in (["b", "c"], ["b"], ["c"]): put("%s,segments,count %s" % (meth, "".join(cnt)), 5, method=meth, segment_names=["a", "b", "c"], segments_to_count=cnt)
        put(meth + ",4 segments", 5, method=meth, segment_names=["a", "b", "c", "d"], segments_to_count=["a", "c"])
        put(meth + ",9 nodes", 9, method=meth, segment_names=["a", "b"])
        put(meth + ",zero_start", 5, method=meth, segment_names=["a", "b"], zero_start=True)
        put(meth + ",final_only", 5, method=meth, segment_names=["a", "b"], final_only=True)
        put(meth + ",count,final_only,zero_start", 5, method=meth, segment_names=["a", "b", "c"], segments_to_count=["b"], final_only=True, zero_start=True)
    put("simpson,3 nodes", 3, method="simpson", segment_names=["a", "b"], segments_to_count=["b"])
    for z in (False, True):
        put("one node" + ",zero_start" * z, 1, zero_start=z)
        put("one node,segments" + ",zero_start" * z, 1, zero_start=z, segment_names=["a", "b"])
    return out
def fd_cfgs(cls):
    out = []
    for order in (2, 4):
        for segs in (None, ["climb", "cruise"], ["climb", "cruise", "descent"]):
            for n in (2, 3, 5):
                out.append(Cfg(cls, dict(segment_names=segs, num_intervals=n, order=order, quantity_units="m", diff_units="s"), tag="%s,%d,%s" % (order, n, len(segs or [0])), modes=[1]))
    return out

def explicit():
    """class name -> list of Cfg (num_nodes modes are added by the caller)"""
    X = {}
    def put(name, *cfgs, **k):
        c = find(name)
        if c is None: return
        X.setdefault(name, []).extend([f(c) for f in cfgs])
    C = lambda opts=None, tag="", **k: (lambda cls: Cfg(cls, opts=opts, tag=tag, **k))
    # ---- utilities
    put("AddSubtractComp",
        C(build=_addsub([(("s", ["a", "b", "c"]), dict(scaling_factors=[1, -1, 2.5], units="kg"))]), tag="3 scalars"),
        C(build=_addsub([(("s", ["a", "b"]), dict(vec_size=NN_(), units="kg")), (("t", ["d", "e"]), dict(scaling_factors=[-1, 3]))]), tag="vector + scalar equations"),
        C(build=_addsub([(("s", ["a", "b"]), dict(vec_size=3, length=2, scaling_factors=[2, -3])), (("t", ["d", "e", "f"]), dict(vec_size=[1, 4, 4], scaling_factors=[1, -2, 3]))]), tag="matrix, broadcast"),
        C(build=lambda cls: cls("s", ["a", "b"], vec_size=2, scaling_factors=[1, -1], units="m"), tag="constructor"))
    put("ElementMultiplyDivideComp",
        C(build=_addsub([(("s", ["a", "b", "c"]), dict(divide=[False, True, False], input_units=["kg", "s", "m"], scaling_factor=2.5))]), tag="3 scalars", pos=("*",)),
        C(build=_addsub([(("s", ["a", "b"]), dict(vec_size=NN_(), divide=[True, True], scaling_factor=-3)), (("t", ["d", "e"]), dict())]), tag="vector + scalar equations", pos=("*",)),
        C(build=_addsub([(("s", ["a", "b"]), dict(vec_size=3, length=2)), (("t", ["d", "e", "f"]), dict(vec_size=[1, 4, 4], divide=[False, False, True]))]), tag="matrix, broadcast", pos=("*",)),
        C(build=_addsub([(("t", ["d", "e", "f"]), dict(vec_size=[3, 1, 1], divide=[True, False, True], scaling_factor=0.5))]), tag="broadcast divide", pos=("*",)),
        C(build=lambda cls: cls("s", ["a", "b"], vec_size=2, divide=[True, False], scaling_factor=4.0), tag="constructor", pos=("*",)))
    put("VectorConcatenateComp",
        C(build=_relation([(("o", ["a", "b", "c"]), dict(vec_sizes=[3, 1, 2], units="kg")), (("p", ["d", "e"]), dict(vec_sizes=[2, 2], length=3))]), tag="two relations"),
        C(build=lambda cls: cls("o", ["a", "b"], vec_sizes=[2, 4]), tag="constructor"))
    put("VectorSplitComp",
        C(build=_relation([((["a", "b", "c"], "i"), dict(vec_sizes=[3, 1, 2], units="kg")), ((["d", "e"], "j"), dict(vec_sizes=[2, 2], length=3))]), tag="two relations"),
        C(build=lambda cls: cls(["a", "b"], "i", vec_sizes=[2, 4]), tag="constructor"))
    c = find("Integrator")
    if c: X["Integrator"] = integrator_cfgs(c)
    c = find("OldIntegrator")
    if c: X["OldIntegrator"] = old_integrator_cfgs(c)
    c = find("FirstDerivative")
    if c: X["FirstDerivative"] = fd_cfgs(c)
    put("SelectorComp", *[C(dict(input_names=n), tag="%d inputs" % len(n), dom={"selector": (0.0, len(n) - 1.0)}) for n in (["A"], ["A", "B"], ["A", "B", "C"], list("ABCDE"))])
    put("DVLabel", C(build=lambda cls: cls([["a", "aa", 2.0, "kg"], ["b", "bb", np.ones(3), "m"], ["c", "cc", np.array([1.0, 2.0]), None]]), tag="3 labels"))
    put("LinearInterpolator", C(dict(num_nodes=2)), C(dict(units="m"), tag="units"))
    put("MaxComp", C(modes=[1, 2, 3])); put("MinComp", C(modes=[1, 2, 3]))
    # ---- aerodynamics
    put("PolarDrag", C(), C(dict(vec_CD0=True), tag="vec_CD0"))
    put("TrapezoidalPlanformMesh", *[C(dict(num_x=a, num_y=b), tag="%dx%d" % (a, b)) for a, b in ((1, 2), (2, 3), (3, 2), (1, 7))])
    put("SectionPlanformMesh", *[C(dict(num_x=a, num_y=b, num_sections=s, scale_area=sc), tag="%sx%s,%d sections,%s" % (a, b, s, sc), dom=SECDOM) for a, b, s, sc in ((1, 2, 2, True), (2, 3, 2, False), (1, 4, 3, True), (2, 4, 3, False), (2, [1, 3], 3, True), (1, [3, 1, 2], 4, False), (1, [2, 1, 3], 4, True))])
    for n in ("ThicknessChordRatioInterp", "SectionLinearInterp"):
        put(n, *[C(dict(num_y=a, num_sections=s, cos_spacing=cs), tag="%s,%d sections,cos=%s" % (a, s, cs), dom=SECDOM) for a, s in ((2, 2), (5, 2), (5, 3), ([1, 3], 3), ([3, 1, 2], 4)) for cs in (True, False)])
    put("WaveDragFromSections", *[C(dict(num_sections=s, idx_sec_start=i, idx_sec_end=j, specify_area_norm=sp), tag="%d sections %s:%s %s" % (s, i, j, "area" if sp else ""), dom=SECDOM, modes=[1, 2])
                                  for s, i, j, sp in ((2, 0, None, False), (3, 0, None, True), (4, 1, 2, False), (3, 1, None, False))])
    for n in ("WingSweepFromSections", "WingAreaFromSections", "WingMACFromSections"):
        put(n, *[C(dict(num_sections=s, idx_sec_start=i, idx_sec_end=j), tag="%d sections %s:%s" % (s, i, j), dom=SECDOM) for s, i, j in ((2, 0, None), (3, 0, None), (4, 1, 2), (3, 1, None), (4, 0, 1))])
    # ---- mission
    put("FlipVectorComp", C(), C(dict(negative=True, units="m/s"), tag="negative"))
    # ---- propulsion
    put("PowerSplit", C(), C(dict(rule="fixed"), tag="fixed"))
    put("WeightCalc", C(), C(dict(num_blades=3), tag="3 blades"))
    put("ConstantPropEfficiency", *[C(dict(vec_size=n), tag=str(n)) for n in (1, 3)])
    # ---- thermal
    put("HeatPipeThermalResistance", C(), C(dict(vapor_resistance=True), tag="vapor"))
    # ---- weights, costs
    put("VstabWeight_JetTransport", C(), C(dict(T_tail=True), tag="T_tail"))
    put("FuselageWeight_JetTransport", C(), C(dict(K_door=1.12, K_lg=1.12), tag="K"))
    put("TurbopropOperatingCost", C(), C(dict(n_components=3, n_batteries=1), tag="batteries"), C(dict(n_components=2), tag="2 components"))
    # ---- atmospherics (num_nodes has no default)
    for (m, n), c in classes().items():
        if m.startswith("atmospherics.") and n not in X:
            X[n] = [Cfg(c, dict(num_nodes=2))]
    return X

SECDOM = {"*taper*": (0.3, 1.0), "x_LE_sec": (0.0, 4.0), "chord_sec": (0.5, 3.0), "toverc*": (0.08, 0.2)}
class _NNMark(int): pass
def NN_():
    """vec_size stands for num_nodes: symbolic in mode 'sym'"""
    return NNSLOT
class NNSlot: pass
NNSLOT = 3
def _dictcomp(cls):
    c = cls({"ac": {"g": {"S": {"value": 12.5, "units": "m**2"}, "v": {"value": np.array([1.0, 2.0, 4.0]), "units": "kg"}}, "n": {"value": 3.0}}})
    c.add_output_from_dict("ac|g|S"); c.add_output_from_dict("ac|g|v"); c.add_output_from_dict("ac|n")
    return c

# preconditions / domains of physically meaningful inputs, by class (applied to every instance of the class)
DOMAINS = {
    "VacuumWallThickness": {"hard:length": (1e-6, None)},          # below 1e-6 m the code treats the cylinder as absent
}
def apply_domains(cfg):
    d = DOMAINS.get(cfg.cls.__name__)
    if d:
        for k, v in d.items(): cfg.dom.setdefault(k, v)
    return cfg

def cfgs_for(prop):
    X = explicit(); out = []
    for (m, n), c in sorted(classes().items()):
        if not m.startswith(AREA[prop]) or n in SKIP: continue
        for cf in X.get(n) or [Cfg(c)]: out.append(apply_domains(cf))
    return out

def cfgs_of(cls):
    """all configurations of one class"""
    x = explicit().get(cls.__name__)
    return x or [Cfg(cls)]
