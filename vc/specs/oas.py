"""N02: aerodynamic databases and drag polars built on OpenAeroStruct.  The flow solution itself (OpenAeroStruct, and the interpolation in the tables)
is an arbitrary function; the contracts say which wing, flight condition and table it is asked about and what is done with the answer."""
from ..contract import contract
from ..terms import *
from .geometry import half_area, frac
import numpy as np
from fractions import Fraction as F

GRID = dict(Mach_train=np.array([0.1, 0.3, 0.5, 0.6]), alpha_train=np.linspace(-6, 12, 4), alt_train=np.linspace(0, 9000.0, 4))
WING = {"ac|geom|wing|S_ref": (20.0, 400.0), "ac|geom|wing|AR": (5.0, 12.0), "ac|geom|wing|taper": (0.2, 1.0), "ac|geom|wing|c4sweep": (0.0, 40.0), "fltcond|q": (500.0, 2e4), "fltcond|CL": (0.1, 0.8), "fltcond|M": (0.15, 0.55), "fltcond|h": (100.0, 8000.0), "ac|aero|CD_nonwing": (0.0, 0.05), "fltcond|TempIncrement": (-10.0, 20.0)}
def tables(k, *names):
    for n in names:
        sh = (4, 4, 4)
        for i in np.ndindex(*sh): k.eq("the interpolated %s table is the one generated" % n, k.v("aero_surrogate.%s_train" % n, at=i), k.v("training_data.%s_train" % n, at=i))
    for n, o, u in (("fltcond|M", "Mach_train", None), ("alpha", "alpha_train", "deg"), ("fltcond|h", "alt_train", "m")):
        g = k.grid("aero_surrogate", n, u); k.eq("the %s grid has the requested number of points" % n, C(len(g)), C(len(GRID[o])))
        for x, y in zip(g, GRID[o]): k.eq("the table is read on the %s grid it was generated on" % n, C(q(x)) + 100, C(q(float(y))) + 100)
def trimmed(k, CL, alpha="alpha_bal.alpha"):
    k.eq("angle of attack: lift coefficient of the database", k.v("lhs:" + alpha), CL); k.eq("... equals the required one", k.v("rhs:" + alpha), k.i("fltcond|CL"))
def polar(k):
    k.eq("drag = dynamic pressure x reference area x (wing + other drag coefficient)", k.o("drag", "N"), k.i("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2") * (k.v("aero_surrogate.CD") + k.i("ac|aero|CD_nonwing")))
    k.eq("database read at the trimmed angle of attack", k.v("aero_surrogate.alpha", "deg"), k.v("alpha_bal.alpha", "deg"))
    trimmed(k, k.v("aero_surrogate.CL")); tables(k, "CL", "CD")
SURF = {"k_lam": 0.1, "with_wave": False}
def asked(k, *names):
    """the database is generated with the options of the drag polar"""
    c = k.subsystem("training_data")
    for n in names + ("Mach_train", "alpha_train", "alt_train"): k.same_setting("option of the database: " + n, c.options[n], k.opt(n))
    surface(k, [c.options["surf_options"]], k.opt("surf_options"))
def surface(k, ds, want):
    k.eq("the analysis has a surface", C(min(len(ds), 1)), C(1))
    for n, v in want.items():
        for d in ds: k.same_setting("surface option " + n, d.get(n, "missing"), v)
def surfaces(k, comp=""):
    """every part of the analysis below comp is given the surface options asked for, of a half wing"""
    g = k.subsystem(comp) if comp else k.subsystem("g"); ds = []
    for s in g.system_iter(recurse=True, include_self=True):
        if not type(s).__module__.startswith("openaerostruct"): continue
        if "surface" in s.options and isinstance(s.options["surface"], dict): ds.append(s.options["surface"])
        if "surfaces" in s.options: ds += [d for d in s.options["surfaces"] if isinstance(d, dict)]
    surface(k, ds, dict({"symmetry": True}, **k.opt("surf_options")))
def vec(k, name, n, ref, label, **u):
    for i in (np.ndindex(*n) if isinstance(n, tuple) else range(n)): k.eq(label, k.v(name, at=i, **u), ref(i))
@contract("N02", "VLMDragPolar", group=[dict(opts=dict(GRID, surf_options=SURF, num_x=a, num_y=b, vec_CD_nonwing=v, num_twist=3), dom=WING, stub=("*training_data",), tag="%dx%d%s" % (a, b, ",vector" if v else "")) for a, b, v in ((1, 3, False), (2, 4, True))])
def vlmtrap(k):
    asked(k, "num_x", "num_y"); polar(k); nx, ny = k.opt("num_x") + 1, k.opt("num_y") + 1
    x = lambda i, j: k.o("ac|geom|wing|OAS_mesh", "m", at=(i, j, 0)); y = lambda j: k.o("ac|geom|wing|OAS_mesh", "m", at=(0, j, 1))
    S, l = k.i("ac|geom|wing|S_ref", "m**2"), k.i("ac|geom|wing|taper"); c = lambda j: x(nx - 1, j) - x(0, j)
    k.eq("the mesh has the reference area", 2 * half_area(x, y, nx, ny), S); k.eq("... and the aspect ratio", 4 * y(0) ** 2, S * k.i("ac|geom|wing|AR")); k.eq("... and the taper ratio", c(0), l * c(ny - 1))
    k.eq("... and the quarter-chord sweep", x(0, 0) + c(0) / 4 - x(0, ny - 1) - c(ny - 1) / 4, -y(0) * k.tan(k.i("ac|geom|wing|c4sweep", "rad")))
    M = (nx, ny, 3)
    vec(k, "twist_mesh.in_mesh", M, lambda i: k.o("ac|geom|wing|OAS_mesh", "m", at=i), "the twisted mesh starts from this mesh", units="m"); vec(k, "training_data.ac|geom|wing|OAS_mesh", M, lambda i: k.v("twisted_mesh", "m", at=i), "the database belongs to the twisted mesh", units="m")
    vec(k, "twist_mesh.twist", ny, lambda i: k.v("twist_bsp.twist", "deg", at=(0, i)), "twist distribution", units="deg")
    vec(k, "training_data.ac|geom|wing|toverc", ny - 1, lambda i: k.v("t_over_c_interp.panel_toverc", at=i), "thickness of the database"); endpoints(k)
    k.eq("temperature offset of the database", k.v("training_data.fltcond|TempIncrement"), k.i("fltcond|TempIncrement"))
def lerp(k, name, s, t, **u): return k.i(name, at=s, **u) + t * (k.i(name, at=s + 1, **u) - k.i(name, at=s, **u))
def endpoints(k, ny=None, n=2):
    """thickness of every panel: mean of its edges, cosine spaced between the sections"""
    ny = [k.opt("num_y")] * (n - 1) if ny is None else ny; p = 0
    for s, m in enumerate(ny):
        for d in range(m): k.eq("thickness between the sections", k.v("t_over_c_interp.panel_toverc", at=p + d), (lerp(k, "ac|geom|wing|toverc", s, frac(k, d, m)) + lerp(k, "ac|geom|wing|toverc", s, frac(k, d + 1, m))) / 2)
        p += m
SEC = dict(WING, **{"ac|geom|wing|y_sec": (-10.0, -1.0), "ac|geom|wing|chord_sec": (1.0, 4.0), "ac|geom|wing|toverc": (0.08, 0.16)})
@contract("N02", "VLMDragPolar", label="section", group=[dict(opts=dict(GRID, surf_options=SURF, geometry="section", num_x=a, num_y=b, num_sections=n), dom=SEC, stub=("*training_data",), tag="sections,%dx%s" % (a, b)) for a, b, n in ((1, 3, 2), (1, [2, 3], 3), (2, [1, 3], 3))])
def vlmsec(k):
    asked(k, "num_x"); polar(k); n = k.opt("num_sections"); ny = k.opt("num_y"); ny = [ny] * (n - 1) if isinstance(ny, int) else list(ny); N = sum(ny) + 1; nx = k.opt("num_x") + 1
    x = lambda i, j: k.o("ac|geom|wing|OAS_mesh", "m", at=(i, j, 0)); y = lambda j: k.o("ac|geom|wing|OAS_mesh", "m", at=(0, j, 1))
    k.eq("the mesh has the reference area", 2 * half_area(x, y, nx, N), k.i("ac|geom|wing|S_ref", "m**2"))
    M = (nx, N, 3); vec(k, "twist_mesh.in_mesh", M, lambda i: k.o("ac|geom|wing|OAS_mesh", "m", at=i), "the twisted mesh starts from this mesh", units="m"); vec(k, "training_data.ac|geom|wing|OAS_mesh", M, lambda i: k.v("twisted_mesh", "m", at=i), "the database belongs to the twisted mesh", units="m")
    vec(k, "training_data.ac|geom|wing|toverc", N - 1, lambda i: k.v("t_over_c_interp.panel_toverc", at=i), "thickness of the database"); endpoints(k, ny, n)
    p = 0
    for s, m in enumerate(ny):
        for d in range(m + 1): k.eq("twist between the sections", k.v("twist_mesh.twist", "deg", at=p + d), lerp(k, "ac|geom|wing|twist", s, frac(k, d, m), units="deg"))
        p += m
    k.eq("temperature offset of the database", k.v("training_data.fltcond|TempIncrement"), k.i("fltcond|TempIncrement"))
@contract("N02", "VLMDragPolar", label="mesh", group=[dict(opts=dict(GRID, surf_options=SURF, geometry="mesh", num_x=2, num_y=3), dom=WING, stub=("*training_data",), tag="mesh")])
def vlmmesh(k):
    asked(k, "num_x", "num_y"); polar(k)
    vec(k, "training_data.ac|geom|wing|OAS_mesh", (3, 4, 3), lambda i: k.i("ac|geom|wing|OAS_mesh", "m", at=i), "the database belongs to the mesh given", units="m"); vec(k, "training_data.ac|geom|wing|toverc", 3, lambda i: k.i("ac|geom|wing|toverc", at=i), "thickness of the database")
    k.eq("temperature offset of the database", k.v("training_data.fltcond|TempIncrement"), k.i("fltcond|TempIncrement"))
@contract("N02", "AerostructDragPolar", group=[dict(opts=dict(GRID, surf_options=SURF, num_x=1, num_y=3, num_twist=3, num_toverc=2, num_skin=5, num_spar=3), dom=WING, stub=("*training_data",))])
def aspolar(k):
    asked(k, "num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar")
    k.eq("drag = dynamic pressure x reference area x drag coefficient of the database", k.o("drag", "N"), k.i("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2") * k.v("aero_surrogate.CD"))
    k.eq("database read at the trimmed angle of attack", k.v("aero_surrogate.alpha", "deg"), k.v("alpha_bal.alpha", "deg")); trimmed(k, k.v("aero_surrogate.CL")); tables(k, "CL", "CD", "failure")
    for n, u in (("ac|geom|wing|S_ref", "m**2"), ("ac|geom|wing|AR", None), ("ac|geom|wing|taper", None), ("ac|geom|wing|c4sweep", "deg"), ("ac|aero|CD_nonwing", None), ("fltcond|TempIncrement", None)): k.eq("%s of the database" % n, k.v("training_data." + n, u), k.i(n, u))
    for n, m, u in (("twist", 3, "deg"), ("toverc", 2, None), ("skin_thickness", 5, "m"), ("spar_thickness", 3, "m")):
        vec(k, "training_data.ac|geom|wing|" + n, m, lambda i: k.i("ac|geom|wing|" + n, u, at=i), n + " of the database", units=u)
FLOW = {"fltcond|h": (0.0, 10500.0), "fltcond|M": (0.1, 0.6), "fltcond|alpha": (-4.0, 8.0), "fltcond|TempIncrement": (-20.0, 20.0)}
def flow(k, point):
    """the flow condition the solver is handed"""
    T, p = k.v("temp.fltcond|T", "K"), k.v("pressure.fltcond|p", "Pa")
    k.eq("temperature of the altitude and day asked for", k.v("temp.fltcond|h", "m"), k.i("fltcond|h", "m")); k.eq("... with its temperature offset", k.v("temp.fltcond|TempIncrement"), k.i("fltcond|TempIncrement")); k.eq("pressure of the altitude asked for", k.v("pressure.fltcond|h", "m"), k.i("fltcond|h", "m"))
    rho = k.v(point + ".rho", "kg/m**3"); k.eq("density: ideal gas", rho * T * C(287.058), p)
    v = k.v(point + ".v", "m/s"); k.eq("airspeed: Mach number times the speed of sound of that temperature", v ** 2, k.i("fltcond|M") ** 2 * C(F(7, 5)) * C(287.058) * T); k.le("airspeed is not negative", C(0), v)
    k.eq("Reynolds number per length: density x airspeed / viscosity", k.v(point + ".re", "1/m") * (C(1.792398e-5) - C(3.329134e-10) * k.i("fltcond|h", "m")), rho * v)
    return v
@contract("N02", "VLM", group=[dict(opts=dict(num_x=a, num_y=b, surf_options=dict(SURF, CD0=0.01)), dom=FLOW, opaque=("*aero_point.*", "*.temp", "*.pressure"), nnopt=None, modes=[1], tag="%dx%d" % (a, b)) for a, b in ((1, 3), (2, 4))])
def vlm(k):
    surfaces(k); flow(k, "aero_point"); a, b = k.opt("num_x"), k.opt("num_y")
    for n in ("aero_point.wing_perf.viscousdrag.Mach_number", "aero_point.wing_perf.wavedrag.Mach_number"): k.eq("Mach number of the solver", k.v(n), k.i("fltcond|M"))
    for n in ("convert_velocity", "mtx_assy", "mtx_assy_forces"): k.eq("angle of attack of the solver", k.v("aero_point.aero_states.%s.alpha" % n, "deg"), k.i("fltcond|alpha", "deg"))
    for n in ("aero_states.collocation_points.wing_def_mesh", "aero_states.vortex_mesh.wing_def_mesh"): vec(k, "aero_point." + n, (a + 1, b + 1, 3), lambda i: k.i("ac|geom|wing|OAS_mesh", "m", at=i), "mesh of the solver", units="m")
    for n in ("viscousdrag", "wavedrag"): vec(k, "aero_point.wing_perf.%s.t_over_c" % n, b, lambda i: k.i("ac|geom|wing|toverc", at=i), "thickness of the solver")
    answers(k, "g.aero_point.", (("fltcond|CL", "wing_perf.CL.CL", 1), ("fltcond|CD", "wing_perf.CD.CD", 1), ("fltcond|CDi", "wing_perf.coeffs.CDi", 1), ("fltcond|CDv", "wing_perf.viscousdrag.CDv", 1), ("fltcond|CDw", "wing_perf.wavedrag.CDw", 1), ("sectional_CL", "wing_perf.liftcoeff.Cl", b), ("panel_forces", "aero_states.panel_forces_surf.wing_sec_forces", (a, b, 3))))
def answers(k, pre, l):
    for n, m, sh in l: vec(k, n, sh, lambda i: k.o(pre + m, at=i), "%s is the solver's %s" % (n, m))

# ------------------------------------------------------------------ databases: the last answer is kept in class attributes
from ..database import Data, HCfg, DataRunner, claims
DB = dict(Mach_train=np.array([0.2, 0.5]), alpha_train=np.array([-1.0, 3.0, 8.0]), alt_train=np.array([0.0, 5000.0]), num_x=1, num_y=1, surf_options=SURF)
VLMDATA = ([("ac|geom|wing|OAS_mesh", "mesh"), ("ac|geom|wing|toverc", "toverc"), ("fltcond|TempIncrement", "TempIncrement")], [("CL", "CL_train"), ("CD", "CD_train")], [], None)
ASDATA = ([("ac|geom|wing|S_ref", "S_ref"), ("ac|geom|wing|AR", "AR"), ("ac|geom|wing|taper", "taper"), ("ac|geom|wing|c4sweep", "c4sweep"), ("ac|geom|wing|twist", "twist"), ("ac|geom|wing|toverc", "toverc"), ("ac|geom|wing|skin_thickness", "skin"), ("ac|geom|wing|spar_thickness", "spar"), ("fltcond|TempIncrement", "TempIncrement")],
    [("CL", "CL_train"), ("CD", "CD_train"), ("failure", "failure_train")], [("W_wing", "W_wing")], ("CD_train", "ac|aero|CD_nonwing"))
DBDOM = {"ac|geom|wing|OAS_mesh": (0.0, 10.0), "hard:ac|geom|wing|OAS_mesh": (0.0, 100.0), "fltcond|TempIncrement": (-20.0, 20.0), "ac|geom|wing|twist": (0.0, 5.0)}
HISTORIES = [("first call", [("compute", 0, 0)]), ("two calls", [("compute", 0, 0), ("compute", 0, 1)]), ("two components", [("compute", 0, 0), ("compute", 1, 1)]),
    ("same inputs three times", [("compute", 0, 0)] * 3), ("components in turn", [("compute", 0, 0), ("compute", 1, 1), ("compute", 0, 0)]),
    ("derivatives first", [("partials", 0, 0)]), ("derivatives twice", [("partials", 0, 0), ("partials", 0, 1)]), ("derivatives after the own call", [("compute", 0, 0), ("compute", 1, 1), ("partials", 1, 1)]), ("derivatives after another component's call", [("compute", 0, 0), ("compute", 1, 1), ("partials", 0, 0)])]
POINTS = [("every point", [("compute", 0, 0)]), ("every point again", [("compute", 0, 0), ("compute", 0, 1)]), ("derivatives at every point", [("partials", 0, 0)])]
def db_cfgs(data, opts, point=None):
    def make(cls): return [(HCfg(cls, Data(cls, *data[:3], None, data[3]), opts, steps, tag, DBDOM, point), None, [1]) for tag, steps in (POINTS if point else HISTORIES)]
    def targets(cls):
        out = []
        for c, _, m in make(cls): out.append((c, (lambda mode, c=c: DataRunner(c, mode)), m))
        return out
    return targets
contract("N02", "VLMDataGen", label="database", batch=True, runner=db_cfgs(VLMDATA, dict(DB, num_y=2)), bounded="histories of up to three calls on two components; 2x3 mesh, 2x3x2 table")(claims)
contract("N02", "OASDataGen", label="database", batch=True, runner=db_cfgs(ASDATA, dict(DB, num_twist=2, num_toverc=2, num_skin=2, num_spar=3)), bounded="histories of up to three calls on two components; 2x3x2 table")(claims)
# the same with only the analysis of one point (an OpenMDAO model of the flow, or flow and structure) left arbitrary
contract("N02", "VLMDataGen", label="points of the database", batch=True, runner=db_cfgs(VLMDATA, DB, "VLM"), bounded="2x2 mesh, 2x3x2 table")(claims)
contract("N02", "OASDataGen", label="points of the database", batch=True, runner=db_cfgs(ASDATA, dict(DB, num_twist=2, num_toverc=1, num_skin=2, num_spar=3), "Aerostruct"), bounded="2x3x2 table")(claims)
ASOPTS = [dict(num_x=1, num_y=3, num_twist=2, num_toverc=3, num_skin=2, num_spar=4), dict(num_x=2, num_y=2, num_twist=4, num_toverc=2, num_skin=5, num_spar=2)]
EXT = ("*aerostruct_point.*", "*.temp", "*.pressure", "*wing.*_bsp", "*wing.wingbox_group.*", "*wing.struct_setup.*", "*wing.twist_mesh")
@contract("N02", "Aerostruct", group=[dict(opts=dict(o, surf_options=dict(SURF, CL0=0.02, E=7e10)), dom=dict(WING, **FLOW), opaque=EXT, nnopt=None, modes=[1], tag="%(num_x)dx%(num_y)d" % o) for o in ASOPTS])
def aerostruct(k):
    surfaces(k)
    a, b = k.opt("num_x"), k.opt("num_y"); pt = "aerostruct_point."; aero = pt + "wing_perf.aero_funcs."
    flow(k, "aerostruct_point"); k.eq("speed of sound of the solver", k.v(pt + "speed_of_sound", "m/s") ** 2, C(F(7, 5)) * C(287.058) * k.v("temp.fltcond|T", "K"))
    for n in (aero + "viscousdrag", aero + "wavedrag", pt + "total_perf.fuelburn"): k.eq("Mach number of the solver", k.v(n + ".Mach_number"), k.i("fltcond|M"))
    for n in ("coupled.aero_states.convert_velocity", "coupled.aero_states.mtx_assy", "coupled.aero_states.mtx_assy_forces", "wing_perf.aero_funcs.liftcoeff", "wing_perf.aero_funcs.liftdrag"): k.eq("angle of attack of the solver", k.v(pt + n + ".alpha", "deg"), k.i("fltcond|alpha", "deg"))
    x = lambda i, j: k.v("wing.mesh_gen.mesh", "m", at=(i, j, 0)); y = lambda j: k.v("wing.mesh_gen.mesh", "m", at=(0, j, 1))
    S, l = k.i("ac|geom|wing|S_ref", "m**2"), k.i("ac|geom|wing|taper"); c = lambda j: x(a, j) - x(0, j)
    k.eq("the mesh has the reference area", 2 * half_area(x, y, a + 1, b + 1), S); k.eq("... and the aspect ratio", 4 * y(0) ** 2, S * k.i("ac|geom|wing|AR")); k.eq("... and the taper ratio", c(0), l * c(b))
    k.eq("... and the quarter-chord sweep", x(0, 0) + c(0) / 4 - x(0, b) - c(b) / 4, -y(0) * k.tan(k.i("ac|geom|wing|c4sweep", "rad")))
    M = (a + 1, b + 1, 3)
    for n, m, sz, u, w in (("wing.twist_bsp.twist_cp", "ac|geom|wing|twist", k.opt("num_twist"), "deg", "twist"), ("wing.t_over_c_bsp.t_over_c_cp", "ac|geom|wing|toverc", k.opt("num_toverc"), None, "thickness"), ("wing.wingbox_group.skin_thickness_bsp.skin_thickness_cp", "ac|geom|wing|skin_thickness", k.opt("num_skin"), "m", "skin thickness"), ("wing.wingbox_group.spar_thickness_bsp.spar_thickness_cp", "ac|geom|wing|spar_thickness", k.opt("num_spar"), "m", "spar thickness")):
        vec(k, n, sz, lambda i: k.i(m, u, at=i), "%s of the wing" % w, units=u)
    same = lambda n, m, sz, w, u=None: vec(k, n, sz, lambda i: k.o(m, u, at=i), w, units=u)
    same("wing.twist_mesh.twist", "wing.twist_bsp.twist", b + 1, "the mesh is twisted by the wing's twist", "deg"); same("wing.twist_mesh.in_mesh", "wing.mesh_gen.mesh", M, "the twisted mesh starts from this planform", "m")
    same(pt + "coupled.wing.def_mesh.displacement_transfer.mesh", "wing.mesh", M, "mesh of the solver", "m"); same(pt + "coupled.wing.struct_states.fem.local_stiff_transformed", "wing.local_stiff_transformed", (b, 12, 12), "stiffness of the solver")
    for n in ("struct_setup.nodes.mesh", "wingbox_group.wingbox_geometry.mesh"): same("wing." + n, "g.wing.twist_mesh.mesh", M, "mesh of the structure", "m")
    same("wing.wingbox_group.wingbox.t_over_c", "g.wing.t_over_c_bsp.t_over_c", b, "thickness of the structure")
    answers(k, "g.", (("fltcond|CL", "aerostruct_point.total_perf.CL_CD.CL", 1), ("fltcond|CD", "aerostruct_point.total_perf.CL_CD.CD", 1), ("failure", "aerostruct_point.wing_perf.struct_funcs.failure.failure", 1), ("ac|weights|W_wing", "wing.struct_setup.structural_mass.structural_mass", 1)))
    for n, u, sz in (("t_over_c", None, b), ("spar_thickness", "m", b), ("A_enc", "m**2", b), ("Qz", "m**3", b), ("J", "m**4", b), ("htop", "m", b), ("hbottom", "m", b), ("hfront", "m", b), ("hrear", "m", b)): same(pt + "wing_perf." + n, "wing." + n, sz, "section properties of the stress analysis: " + n, u)
    same(pt + "total_perf.wing_cg_location", "wing.cg_location", 3, "centre of gravity", "m"); same(pt + "wing_perf.nodes", "wing.nodes", (b + 1, 3), "structural nodes", "m"); same(pt + "coupled.wing.nodes", "wing.nodes", (b + 1, 3), "structural nodes", "m")
    same(pt + "coupled.wing.element_mass", "wing.element_mass", b, "weight relief of the loads", "kg")
def area_given(m, g, nn):
    import openmdao.api as om
    c = om.IndepVarComp(); c.add_output("fltcond|M", np.full(nn, 0.3)); c.add_output("fltcond|h", np.full(nn, 2000.0), units="m")
    m.add_subsystem("c", c, promotes=["*"]); m.add_subsystem("g", g, promotes=["*"]); m.set_input_defaults("ac|geom|wing|S_ref", 100.0, units="m**2")
@contract("N02", "AerostructDragPolarExact", group=[dict(outer=area_given, free=("fltcond|M", "fltcond|h"), opts=dict(num_x=1, num_y=2, num_twist=2, num_toverc=2, num_skin=2, num_spar=3, surf_options=SURF), dom=dict(WING, **{"hard:fltcond|h": (0.0, 10900.0)}), opaque=("*aerostruct_?.*",), modes=[1, 3], tag="")], bounded="num_nodes in {1, 3}")
def exact(k):
    surfaces(k)
    for n in range(k.nn if isinstance(k.nn, int) else 0): k.same_setting("panels of the node's analysis", [k.subsystem("aerostruct_%d" % n).options[o] for o in ("num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar")], [k.opt(o) for o in ("num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar")])
    for n in range(k.nn if isinstance(k.nn, int) else 0):
        at = (n,); g = "aerostruct_%d." % n; alpha = k.o("fltcond|alpha", "deg", at=at); aero = g + "aerostruct_point.wing_perf.aero_funcs."
        for m in ("temp", "pressure"): k.eq("each analysis is made at its node's altitude", k.v(g + m + ".fltcond|h", "m"), k.i("fltcond|h", "m", at=at))
        k.eq("... and temperature offset", k.v(g + "temp.fltcond|TempIncrement"), k.i("fltcond|TempIncrement", at=(0,)))
        for m in (g + "airspeed.Mach", aero + "viscousdrag.Mach_number", aero + "wavedrag.Mach_number"): k.eq("... and Mach number", k.v(m), k.i("fltcond|M", at=at))
        for m in ("coupled.aero_states.convert_velocity", "wing_perf.aero_funcs.liftcoeff", "wing_perf.aero_funcs.liftdrag"): k.eq("... and angle of attack", k.v(g + "aerostruct_point." + m + ".alpha", "deg"), alpha)
        for m, w, u in (("S", "S_ref", "m**2"), ("AR", "AR", None), ("taper", "taper", None), ("sweep", "c4sweep", "deg")): k.eq("each analysis is of this wing", k.v(g + "wing.mesh_gen." + m, u), k.i("ac|geom|wing|" + w, u))
        for m, w, sz, u in (("wing.twist_bsp.twist_cp", "twist", 2, "deg"), ("wing.t_over_c_bsp.t_over_c_cp", "toverc", 2, None), ("wing.wingbox_group.skin_thickness_bsp.skin_thickness_cp", "skin_thickness", 2, "m"), ("wing.wingbox_group.spar_thickness_bsp.spar_thickness_cp", "spar_thickness", 3, "m")): vec(k, g + m, sz, lambda i: k.i("ac|geom|wing|" + w, u, at=i), "each analysis is of this wing", units=u)
        q = "g." + g + "aerostruct_point.total_perf.CL_CD."
        k.eq("angle of attack: the lift coefficient of the node's analysis", k.v("lhs:fltcond|alpha", at=at), k.o(q + "CL")); k.eq("... equals the required one", k.v("rhs:fltcond|alpha", at=at), k.i("fltcond|CL", at=at))
        k.eq("drag of the node's analysis", k.o("drag", "N", at=at), k.i("fltcond|q", "Pa", at=at) * k.i("ac|geom|wing|S_ref", "m**2") * (k.o(q + "CD") + k.i("ac|aero|CD_nonwing")))
        k.eq("failure of the node's analysis", k.o("failure", at=at), k.o("g." + g + "aerostruct_point.wing_perf.struct_funcs.failure.failure"))
    k.eq("wing weight of an analysis", k.o("ac|weights|W_wing", "kg"), k.o("g.aerostruct_0.wing.struct_setup.structural_mass.structural_mass", "kg"))
@contract("N01", "CLmaxCriticalSectionVLM", group=[dict(opts=dict(num_x=1, num_y=b, vec_Cl_max=v, surf_options=SURF, **o), dom=dict(FLOW, **{"ac|aero|airfoil_Cl_max": (1.0, 2.0)}), opaque=("*VLM.*",), setvals={"sectional_CL_balance.rhs:alpha": "default"}, nnopt=None, modes=[1], tag="%d%s" % (b, ",vector" if v else "")) for b, v, o in ((3, False, dict(rho=40)), (4, True, {}))])
def clmax_critical(k):
    surfaces(k)
    b = k.opt("num_y")
    for i in range(b): k.eq("margin of each section: its lift coefficient less the airfoil's maximum", k.v("max_limit.g", at=(0, i)) + k.i("ac|aero|airfoil_Cl_max", at=i if k.opt("vec_Cl_max") else 0), k.o("VLM.sectional_CL", at=i))
    g = [k.v("max_limit.g", at=(0, i)) for i in range(b)]; rho = C(k.opt("rho")); e = lambda x: fn("exp", x)
    k.eq("aggregate of the margins (Kreisselmeier-Steinhauser) with the sharpness asked for", e(rho * (k.v("max_limit.KS", at=(0, 0)) - g[0])), sum((e(rho * (x - g[0])) for x in g), C(0)))
    k.eq("angle of attack: the largest margin", k.v("lhs:sectional_CL_balance.alpha"), k.o("max_limit.KS", at=(0, 0))); k.eq("... is zero", k.v("rhs:sectional_CL_balance.alpha"), C(0))
    for n in ("convert_velocity", "mtx_assy", "mtx_assy_forces"): k.eq("wing analysed at that angle of attack", k.v("aero.VLM.aero_point.aero_states.%s.alpha" % n, "deg"), k.v("sectional_CL_balance.alpha", "deg"))
    k.eq("maximum lift coefficient: the wing's at that angle of attack", k.o("CL_max"), k.o("g.aero.VLM.aero_point.wing_perf.CL.CL"))
    for m in ("temp", "pressure"): k.eq("altitude of the analysis", k.v("aero.VLM.%s.fltcond|h" % m, "m"), k.i("fltcond|h", "m"))
    k.eq("Mach number of the analysis", k.v("aero.VLM.airspeed.Mach"), k.i("fltcond|M"))
    for n in ("aero_states.collocation_points.wing_def_mesh", "aero_states.vortex_mesh.wing_def_mesh"): vec(k, "aero.VLM.aero_point." + n, (2, b + 1, 3), lambda i: k.i("ac|geom|wing|OAS_mesh", "m", at=i), "mesh of the analysis", units="m")
