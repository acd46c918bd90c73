"""F01 Newton's second law, F02 kinematics, N01 (forces): mission/phases.py and aerodynamics components"""
from ..contract import contract
from ..terms import *
from ..component import Cfg
G = C("9.80665")

@contract("F01", "HorizontalAcceleration")
def haccel(k):
    m, D, L, T, s, mu = k.i("weight", "kg"), k.i("drag", "N"), k.i("lift", "N"), k.i("thrust", "N"), k.i("fltcond|singamma"), k.i("braking")
    N = k.max(m * G - L, C(0))
    k.eq("m a = thrust - drag - friction on the wheel load - weight component", m * k.o("accel_horiz", "m/s**2"), T - D - mu * N - m * G * s)
@contract("F01", "VerticalAcceleration")
def vaccel(k):
    m, D, L, T, s, c = k.i("weight", "kg"), k.i("drag", "N"), k.i("lift", "N"), k.i("thrust", "N"), k.i("fltcond|singamma"), k.i("fltcond|cosgamma")
    a = k.o("accel_vert", "m/s**2"); F = L * c + (T - D) * s - m * G
    if k.case(F >= -G * m, F <= C("2.5") * G * m): k.eq("m a = vertical force balance inside the limits", m * a, F)
    k.le("upper limit 2.5 g", a, C("2.5") * G); k.le("lower limit -1 g", -G, a)
    k.eq("the nearest admissible acceleration", a, k.max(-G, k.min(C("2.5") * G, F / m)))
@contract("F01", "SteadyFlightCL")
def steady(k):
    k.eq("lift = weight component normal to the path", k.o("fltcond|CL") * k.i("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2"), k.i("fltcond|cosgamma") * k.i("weight", "kg") * G)
@contract("F01", "ClimbAngleComp", dom={"thrust": (200.0, 900.0), "drag": (100.0, 500.0), "weight": (500.0, 3000.0)})
def climbangle(k):
    g = k.o("gamma", "rad"); ex = (k.i("thrust", "N") - k.i("drag", "N")) / (k.i("weight", "kg") * G)
    if k.case(ex <= C(1), ex >= C(-1)): k.eq("climb gradient = excess thrust / weight", k.sin(g), ex)
    if k.case(ex < C("0.999"), ex > C("-0.999")): k.le("the acute angle", C(0), k.cos(g))

@contract("F02", "Groundspeeds", dom={"fltcond|vs": (-20.0, 20.0), "fltcond|Utrue": (30.0, 200.0)})
def gs(k):
    vs, U, g, c, s = k.i("fltcond|vs", "m/s"), k.i("fltcond|Utrue", "m/s"), k.o("fltcond|groundspeed", "m/s"), k.o("fltcond|cosgamma"), k.o("fltcond|singamma")
    if k.when(vs * vs <= U * U):
        k.eq("groundspeed^2 + vertical speed^2 = airspeed^2", g ** 2 + vs ** 2, U ** 2); k.le("forward", C(0), g)
        k.eq("sin^2 + cos^2 = 1", s ** 2 + c ** 2, C(1))
        k.eq("vertical speed = U sin gamma", s * U, vs); k.eq("ground speed = U cos gamma", c * U, g)
    else:
        k.eq("vertical flight: sine saturates", s, C(1)); k.lt("vertical flight: ground speed stays positive", C(0), g); k.eq("ground speed = U cos gamma", c * U, g)
@contract("F02", "FlipVectorComp")
def flip(k):
    k.eq("entry n-1-i with the stated sign", k.o("vec_out", "raw"), (C(-1) if k.opt("negative") else C(1)) * k.i("vec_in", "raw", at=(k.nn - 1 - k.node,)))
@contract("F02", "TakeoffTransition", dom={"gamma": (0.02, 0.4), "fltcond|Utrue": (20.0, 90.0)})
def transition(k):
    U, g, s, h, t = k.i("fltcond|Utrue", "m/s"), k.i("gamma", "rad"), k.o("s_transition", "m"), k.o("h_transition", "m"), k.o("t_transition", "s")
    R = U ** 2 / ((k.opt("load_factor") - 1) * G); hob = k.opt("h_obstacle"); hc = R * (1 - k.cos(g))
    k.eq("points of the circular arc", s ** 2 + (R - h) ** 2, R ** 2)
    k.eq("time = distance / speed", t * U, s)
    if k.when(hc > hob): k.eq("arc ends at the obstacle height", h, hob)
    else: k.eq("arc ends at the climb angle (height)", h, hc); k.eq("arc ends at the climb angle (distance)", s, R * k.sin(g))
@contract("F02", "TakeoffClimb", dom={"gamma": (0.02, 0.4), "h_transition": (1.0, 9.0), "fltcond|Utrue": (20.0, 90.0)})
def tclimb(k):
    g = k.i("gamma", "rad")
    k.eq("straight climb triangle", k.o("s_climb", "m") * k.sin(g), (k.opt("h_obstacle") - k.i("h_transition", "m")) * k.cos(g))
    k.eq("time = distance / speed", k.o("t_climb", "s") * k.i("fltcond|Utrue", "m/s"), k.o("s_climb", "m"))
@contract("F02", "BFLImplicitSolve", dom={"takeoff|vr": (25.0, 60.0), "takeoff|v1": (20.0, 60.0)})
def bfl(k):
    vr, v1, r = k.i("takeoff|vr", "m/s"), k.o("takeoff|v1", "m/s"), k.res("takeoff|v1", "raw"); dc, da = k.i("distance_continue", "m"), k.i("distance_abort", "m")
    if k.when(v1 + C("0.1") <= vr): k.eq("balanced field: accelerate-go distance = accelerate-stop distance", r, dc - da)
    elif k.when(v1 > vr): k.eq("decision speed never above rotation speed", r, vr - v1)
    elif k.when(da > dc): k.eq("balance restored just below rotation speed", r, dc - da)
    else: k.eq("decision speed limited by rotation speed", r, vr - v1)

@contract("F02", "TrueAirspeedComp", label="true")
def tas(k):
    k.eq("true/equivalent conversion", k.o("fltcond|Utrue", "m/s") * k.sqrt(k.i("fltcond|rho", "kg/m**3") / C("1.225")), k.i("fltcond|Ueas", "m/s"))
@contract("F02", "EquivalentAirspeedComp", label="equivalent")
def eas(k):
    k.eq("true/equivalent conversion", k.i("fltcond|Utrue", "m/s") * k.sqrt(k.i("fltcond|rho", "kg/m**3") / C("1.225")), k.o("fltcond|Ueas", "m/s"))

# ------------------------------------------------------------------ N01 forces
@contract("N01", "PolarDrag")
def polar(k):
    CL, q, S = k.i("fltcond|CL"), k.i("fltcond|q", "Pa"), k.i("ac|geom|wing|S_ref", "m**2")
    k.eq("D = q S (CD0 + CL^2/(pi e AR))", k.o("drag", "N"), q * S * (k.i("CD0") + CL ** 2 / (PI * k.i("e") * k.i("ac|geom|wing|AR"))))
@contract("N01", "Lift")
def lift(k): k.eq("L = q S CL", k.o("lift", "N"), k.i("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2") * k.i("fltcond|CL"))
@contract("N01", "StallSpeed")
def stall(k):
    V = k.o("Vstall_eas", "m/s")
    k.eq("maximum lift at the stall speed = weight", C("1.225") * V ** 2 * k.i("ac|geom|wing|S_ref", "m**2") * k.i("CLmax") / 2, k.i("weight", "kg") * G); k.le("positive speed", C(0), V)
@contract("N01", "CleanCLmax", dom={"ac|geom|wing|c4sweep": (0.0, 0.7)})
def clean(k): k.eq("Raymer 12.15", k.o("CL_max_clean"), k.opt("fudge_factor") * C("0.9") * k.i("ac|aero|airfoil_Cl_max") * k.cos(k.i("ac|geom|wing|c4sweep", "rad")))
@contract("N01", "FlapCLmax", dom={"flap_extension": (1.0, 40.0), "ac|geom|wing|c4sweep": (0.0, 0.7), "ac|geom|wing|toverc": (0.08, 0.18)})
def flap(k):
    d, s, t = k.i("flap_extension", "deg"), k.i("ac|geom|wing|c4sweep", "rad"), k.i("ac|geom|wing|toverc"); c = k.cos(s)
    base = 1 + C("2.33") * t - C("77.9") * t ** 2 + 1120 * t ** 3 - 3430 * t ** 4
    k2 = C("0.4") + C("0.0234") * d - C("0.000204") * d ** 2; k3 = C("1.36") * k2 - C("0.389") * k2 ** 2
    fl = base * 4 * k.opt("flap_chord_frac") * k2 * k3 * k.opt("wing_area_flapped_frac") * (1 - C("0.08") * c ** 2) * c ** C("0.75")
    sl = C("7.11") * k.opt("slat_chord_frac") * k.opt("slat_span_frac") ** 2 * c ** 2
    k.eq("clean + flap + slat increments (Torenbeek 7.20, Roskam)", k.o("CL_max_flap"), k.opt("fudge_factor") * (k.i("CL_max_clean") + fl + sl))
