"""F01 F02: the flight-phase groups of mission/phases.py, each around an arbitrary aircraft (an opaque function of its flight condition)"""
import numpy as np, openmdao.api as om
from ..contract import contract
from ..terms import *
from .common import history, final
G = C("9.80665")

class AnyAircraft(om.ExplicitComponent):
    """thrust, drag and weight are uninterpreted functions of everything a phase hands to an aircraft model; the body only serves real runs"""
    vc_positive = ("weight",)
    def initialize(self): self.options.declare("num_nodes", default=1); self.options.declare("flight_phase", default=None)
    def setup(self):
        nn = self.options["num_nodes"]
        for n, u in (("fltcond|Utrue", "m/s"), ("fltcond|rho", "kg/m**3"), ("fltcond|q", "Pa"), ("fltcond|CL", None), ("throttle", None), ("propulsor_active", None)): self.add_input(n, shape=(nn,), units=u)
        self.add_input("ac|geom|wing|S_ref", units="m**2"); self.add_input("ac|weights|MTOW", units="kg")
        self.add_output("thrust", shape=(nn,), units="N"); self.add_output("drag", shape=(nn,), units="N"); self.add_output("weight", shape=(nn,), units="kg")
    def compute(self, i, o):
        S, M = i["ac|geom|wing|S_ref"], i["ac|weights|MTOW"]; q = i["fltcond|q"]; U = i["fltcond|Utrue"]
        o["thrust"] = M * (3.0 - 0.004 * U) * (0.2 + 0.4 * i["throttle"]) * (1 + i["propulsor_active"]) * (i["fltcond|rho"] / 1.2)
        o["drag"] = q * S * (0.03 + 0.05 * i["fltcond|CL"] ** 2)
        o["weight"] = M * (0.97 + 0.01 * i["throttle"]) - 0.001 * U

AC = {"ac|weights|MTOW": (2000.0, 6000.0), "ac|geom|wing|S_ref": (20.0, 40.0), "ac|aero|CLmax_TO": (1.5, 2.5), "fltcond|TempIncrement": (-10.0, 10.0), "takeoff|v1": (30.0, 40.0)}
def phase(ph, dom, **kw): return dict(opts=dict(aircraft_model=AnyAircraft, flight_phase=ph), dom=dict(AC, **dom), tag=ph, **kw)

def newton(k, braking, steep=True):
    """m a = T - D - friction on the wheel load - weight component along the path"""
    m, L = k.o("weight", "kg"), k.o("lift", "N")
    s = k.o("fltcond|singamma") if steep else C(0)
    k.eq("m a = thrust - drag - friction - weight along the path", m * k.o("accel_horiz", "m/s**2"), k.o("thrust", "N") - k.o("drag", "N") - braking * k.max(m * G - L, C(0)) - m * G * s)
def lift_q(k):
    U, rho = k.fb("fltcond|Utrue", "m/s"), k.o("fltcond|rho", "kg/m**3")
    k.eq("q = rho U^2 / 2", k.o("fltcond|q", "Pa"), rho * U ** 2 / 2)
    k.eq("L = q S CL", k.o("lift", "N"), k.o("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2") * k.o("fltcond|CL"))
def stall(k, mult, name):
    V = k.o("Vstall_eas", "m/s")
    k.eq("maximum lift at the stall speed = maximum takeoff weight", C("1.225") * V ** 2 * k.i("ac|geom|wing|S_ref", "m**2") * k.i("ac|aero|CLmax_TO") / 2, k.i("ac|weights|MTOW", "kg") * G)
    k.eq("%s = %s x stall speed" % (name, mult), k.o(name, "m/s"), C(mult) * V)
def solves(k, u, a, b, label):
    """the solver is asked to make the two quantities equal (whichever side each is on)"""
    k.eq(label, (k.v("lhs:duration", u) - k.v("rhs:duration", u)) ** 2, (a - b) ** 2)
def setting(k, throttle, active, braking=None):
    k.eq("throttle setting", k.o("throttle"), C(throttle)); k.eq("propulsor on/off", k.o("propulsor_active"), C(active))
    if braking is not None: k.eq("braking coefficient", k.o("braking"), C(braking))

SPEED = {"fb:fltcond|Utrue": (20.0, 60.0), "state:duration": (5.0, 12.0)}

@contract("F01 F02", "GroundRollPhase", group=[phase("v0v1", SPEED), phase("v1vr", dict(SPEED, **{"fltcond|Utrue_initial": (30.0, 40.0)})), phase("v1v0", SPEED)], modes=[3])
def groundroll(k):
    ph = k.opt("flight_phase"); mu = {"v0v1": "0.03", "v1vr": "0.03", "v1v0": "0.4"}[ph]
    if k.prop == "F01":
        setting(k, {"v1v0": 0}.get(ph, 1), 1 if ph == "v0v1" else 0, mu); newton(k, C(mu)); lift_q(k)
        k.eq("rolls on the ground", k.o("fltcond|h", "m"), C(0)); k.eq("no climb", k.o("fltcond|vs", "m/s"), C(0)); k.eq("lift coefficient on the ground", k.o("fltcond|CL"), C("0.1"))
        return
    dur = k.v("duration", "s"); U0 = "fltcond|Utrue_initial"; stall(k, "1.1", "takeoff|vr")
    v1 = k.i("takeoff|v1", "m/s") if ph != "v1vr" else None
    if ph == "v1v0":
        n, i = k.nn, k.nodeint; dt = dur / (n - 1); X = lambda j: k.o("fltcond|Utrue", "m/s", at=j); R = lambda j: k.fb("accel_horiz", "m/s**2", at=j)
        if i == 0: k.eq("roll starts at the decision speed reported", X(0), k.o(U0, "m/s")); solves(k, "m/s", k.o(U0, "m/s"), v1, "duration makes the starting speed the decision speed")
        if i == n - 1: k.eq("stops (at 2 m/s)", X(i), C(2))
        elif (n - 1 - i) % 2 == 0: k.eq("speed gained over a pair of steps", X(i + 2) - X(i), dt / 3 * (R(i) + 4 * R(i + 1) + R(i + 2)))
    else:
        history(k, "speed", "fltcond|Utrue", C(2) if ph == "v0v1" else k.i(U0, "m/s"), "accel_horiz", dur, "m/s", "m/s**2")
        final(k, "speed", "fltcond|Utrue_final", "fltcond|Utrue", "m/s")
        if k.nodeint == k.nn - 1: solves(k, "m/s", k.o("fltcond|Utrue_final", "m/s"), v1 if v1 is not None else k.o("takeoff|vr", "m/s"), "duration makes the final speed the %s speed" % ("decision" if v1 is not None else "rotation"))
    history(k, "range", "range", C(0) if ph == "v0v1" else k.i("range_initial", "m"), "fltcond|groundspeed", dur, "m", "m/s"); final(k, "range", "range_final", "range", "m")

@contract("F01 F02", "RotationPhase", group=[phase("rotate", dict(AC, **{"fb:fltcond|Utrue": (30.0, 60.0), "state:duration": (1.0, 5.0), "hard:fb:fltcond|h": (0.0, 20.0), "fb:fltcond|h": (0.0, 20.0), "fb:fltcond|vs": (0.0, 5.0)}))], modes=[3])
def rotation(k):
    if k.prop == "F01":
        setting(k, 1, 0, 0); newton(k, C(0)); lift_q(k); k.eq("rotates at 0.83 of the maximum lift coefficient", k.o("fltcond|CL"), C("0.83") * k.i("ac|aero|CLmax_TO"))
        m, L, a = k.o("weight", "kg"), k.o("lift", "N"), k.o("accel_vert", "m/s**2")
        F = L * k.o("fltcond|cosgamma") + (k.o("thrust", "N") - k.o("drag", "N")) * k.o("fltcond|singamma") - m * G
        if k.case(F >= -G * m, F <= C("2.5") * G * m): k.eq("m a = vertical force balance inside the limits", m * a, F)
        return
    dur = k.v("duration", "s")
    history(k, "speed", "fltcond|Utrue", k.i("fltcond|Utrue_initial", "m/s"), "accel_horiz", dur, "m/s", "m/s**2"); final(k, "speed", "fltcond|Utrue_final", "fltcond|Utrue", "m/s")
    history(k, "range", "range", k.i("range_initial", "m"), "fltcond|groundspeed", dur, "m", "m/s"); final(k, "range", "range_final", "range", "m")
    history(k, "climb rate", "fltcond|vs", C(0), "accel_vert", dur, "m/s", "m/s**2"); final(k, "climb rate", "fltcond|vs_final", "fltcond|vs", "m/s")
    history(k, "height", "fltcond|h", C(0), "fltcond|vs", dur, "m", "m/s", settled=True); final(k, "height", "fltcond|h_final", "fltcond|h", "m")
    if k.nodeint == 0: solves(k, "ft", k.o("fltcond|h_final", "ft"), C(35), "duration makes the final height 35 ft")

def with_duration(cls, nn):
    """the phase with its duration from outside (the missions add a balance or a pass-through under that name)"""
    g = cls(num_nodes=nn, flight_phase="climb", aircraft_model=AnyAircraft)
    g.add_subsystem("dur", om.ExecComp("duration=duration_in", duration={"units": "s"}, duration_in={"units": "s"}), promotes=["*"])
    return g
@contract("F01 F02", "SteadyFlightPhase", group=[phase("climb", {"fltcond|vs": (-3.0, 8.0), "fltcond|Ueas": (50.0, 90.0), "ode_integ_phase.fltcond|h_initial": (0.0, 3000.0), "hard:fb:fltcond|h": (0.0, 9000.0), "fb:fltcond|h": (0.0, 9000.0), "hard:fltcond|h": (0.0, 9000.0), "state:throttle": (0.3, 1.0), "duration_in": (100.0, 500.0)}, build=with_duration)], modes=[3])
def steadyphase(k):
    i = k.nodeint; vs = k.i("fltcond|vs", "m/s")
    if k.prop == "F01":
        newton(k, k.i("braking")); lift_q(k)
        k.eq("all propulsors run", k.o("propulsor_active"), C(1))
        k.eq("lift = weight component normal to the path", k.o("fltcond|CL") * k.o("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2"), k.o("fltcond|cosgamma") * k.fb("weight", "kg") * G)
        k.eq("the throttle makes the acceleration the requested one", (k.v("lhs:throttle", "m/s**2") - k.v("rhs:throttle", "m/s**2")) ** 2, (k.o("accel_horiz", "m/s**2") - k.i("zero_accel", "m/s**2")) ** 2)
        return
    U, g = k.o("fltcond|Utrue", "m/s"), k.o("fltcond|groundspeed", "m/s")
    k.eq("true speed from the equivalent speed flown", U * k.sqrt(k.o("fltcond|rho", "kg/m**3") / C("1.225")), k.i("fltcond|Ueas", "m/s"))
    if k.when(U ** 2 - vs ** 2 >= C(0)): k.eq("ground speed^2 + climb rate^2 = true speed^2", g ** 2 + vs ** 2, U ** 2)
    sg = k.o("fltcond|singamma"); k.eq("climb rate = U sin gamma (saturating at vertical flight)", sg * U * (sg - 1), vs * (sg - 1))
    n = lambda x: x if k.has(x) else "ode_integ_phase." + x
    dur = k.v(n("duration"), "s")
    history(k, "height", "fltcond|h", k.i(n("fltcond|h_initial"), "m"), "fltcond|vs", dur, "m", "m/s"); final(k, "height", n("fltcond|h_final"), "fltcond|h", "m")
    history(k, "range", "range", k.i(n("range_initial"), "m"), "fltcond|groundspeed", dur, "m", "m/s"); final(k, "range", n("range_final"), "range", "m")

@contract("F01 F02", "ClimbAnglePhase", group=[phase("AllEngineClimbAngle", {}), phase("EngineOutClimbAngle", {})], modes=[1])
def climbanglephase(k):
    if k.prop == "F01":
        setting(k, 1, 1 if k.opt("flight_phase").startswith("All") else 0)
        ex = (k.o("thrust", "N") - k.o("drag", "N")) / (k.i("ac|weights|MTOW", "kg") * G)
        if k.case(ex <= C(1), ex >= C(-1)): k.eq("climb gradient = excess thrust / maximum takeoff weight", k.sin(k.o("gamma", "rad")), ex)
        k.eq("lift carries the maximum takeoff weight", k.fb("fltcond|CL") * k.o("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2"), k.i("ac|weights|MTOW", "kg") * G)
        return
    stall(k, "1.2", "takeoff|v2")
    k.eq("climb-out at v2", k.o("fltcond|Utrue", "m/s") * k.sqrt(k.o("fltcond|rho", "kg/m**3") / C("1.225")), k.o("takeoff|v2", "m/s"))
    k.eq("at sea level", k.o("fltcond|h", "m"), C(0))

ROT = {"range_initial": (0.0, 500.0), "state:duration": (1.0, 5.0), "h_initial": (0.0, 5.0), "hard:h_initial": (0.0, 10.0)}
def rot50():
    g = phase("rotate", ROT); g["opts"]["h_obstacle"] = 15.24; g["tag"] = "rotate,h_obstacle"; return g
@contract("F02", "RobustRotationPhase", label="obstacle", group=[rot50()], modes=[2, 3])
def obstacle(k):
    if k.nodeint == k.nn - 1: k.eq("ends at the obstacle height it was given", k.o("fltcond|h", "m"), C(k.opt("h_obstacle")))
    if k.nodeint == 0: k.eq("range of the arc and the straight climb that follows it", k.o("range_final", "m"), k.i("range_initial", "m") + k.o("s_transition", "m") + k.o("s_climb", "m"))
@contract("F01 F02", "RobustRotationPhase", group=[phase("rotate", {"h_initial": (0.0, 2.0), "range_initial": (0.0, 500.0), "state:duration": (1.0, 5.0), "h_initial": (0.0, 5.0), "hard:h_initial": (0.0, 10.0)})], modes=[2, 3])
def robust(k):
    n = k.nn
    if k.prop == "F01":
        setting(k, 1, 0, 0)
        ex = (k.o("thrust", "N") - k.o("drag", "N")) / (k.o("weight", "kg") * G)
        if k.case(ex <= C(1), ex >= C(-1)): k.eq("climb gradient = excess thrust / weight", k.sin(k.o("gamma", "rad")), ex)
        k.eq("lift carries the weight", k.fb("fltcond|CL") * k.o("fltcond|q", "Pa") * k.i("ac|geom|wing|S_ref", "m**2"), k.fb("weight", "kg") * G)
        return
    i = k.nodeint; x = C(Fraction(i, n - 1)); hob = C("10.66")
    stall(k, "1.1", "takeoff|vr"); stall(k, "1.2", "takeoff|v2")
    k.eq("height profile: straight from the initial height to the obstacle", k.o("fltcond|h", "m"), (1 - x) * k.i("h_initial", "m") + x * C("10.668"))
    k.eq("speed profile: straight from vr to v2", k.o("fltcond|Utrue", "m/s") * k.sqrt(k.o("fltcond|rho", "kg/m**3") / C("1.225")), (1 - x) * k.o("takeoff|vr", "m/s") + x * k.o("takeoff|v2", "m/s"))
    k.eq("range profile: straight from start to end", k.o("range", "m"), (1 - x) * k.i("range_initial", "m") + x * k.o("range_final", "m"))
    k.eq("takeoff distance = start + arc + climb", k.o("range_final", "m"), k.i("range_initial", "m") + k.o("s_transition", "m") + k.o("s_climb", "m"))
    k.eq("duration = arc + climb", k.o("duration", "s"), k.o("t_transition", "s") + k.o("t_climb", "s") if k.has("t_climb") else C(0))
    U0, g0, U1, g1 = k.o("fltcond|Utrue", "m/s", at=0), k.o("gamma", "rad", at=0), k.o("fltcond|Utrue", "m/s", at=n - 1), k.o("gamma", "rad", at=n - 1)
    R = U0 ** 2 / (C("0.2") * G); s, h = k.o("s_transition", "m"), k.o("h_transition", "m"); hc = R * (1 - k.cos(g0))
    if i == 0:
        k.eq("points of the circular arc at 1.2 g", s ** 2 + (R - h) ** 2, R ** 2); k.eq("arc time", k.o("t_transition", "s") * U0, s)
        if k.when(hc > hob): k.eq("arc ends at the obstacle height", h, hob)
        else: k.eq("arc ends at the climb angle", h, hc)
        k.eq("straight climb triangle", k.o("s_climb", "m") * k.sin(g1), (hob - h) * k.cos(g1)); k.eq("climb time", k.o("t_climb", "s") * U1, k.o("s_climb", "m"))

# ------------------------------------------------------------------ whole missions: what the solver is asked to bring about
STEADY = ("climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter")
FREE = ("takeoff|h", "cruise|h0", "mission_range", "reserve_range", "reserve|h0", "loiter|h0", "loiter_duration", "takeoff|v2")
MDOM = dict(AC, **{"takeoff|h": (0.0, 1000.0), "cruise|h0": (15000.0, 30000.0), "mission_range": (300.0, 900.0), "reserve_range": (100.0, 200.0), "reserve|h0": (5000.0, 15000.0), "loiter|h0": (1500.0, 3000.0), "loiter_duration": (600.0, 1800.0), "takeoff|v2": (60.0, 90.0), "v1vr.takeoff|v1": (30.0, 40.0), "state:takeoff|v1": (30.0, 40.0), "payload": (300.0, 600.0)})
for ph in STEADY: MDOM.update({ph + ".fltcond|Ueas": (60.0, 90.0), ph + ".fltcond|vs": (-6.0, -1.0) if "descent" in ph else (1.0, 6.0), "state:" + ph + ".duration": (200.0, 900.0), "state:" + ph + ".throttle": (0.3, 0.9), ph + ".fltcond|TempIncrement": (-5.0, 5.0)})
for ph in ("v0v1", "v1vr", "rotate", "v1v0", "groundroll"): MDOM.update({"state:" + ph + ".duration": (3.0, 9.0), ph + ".fltcond|TempIncrement": (-5.0, 5.0)})
OPQ = ("*.atmos.*", "*.acmodel", "*.gs", "*.haccel", "*.vaccel", "*.clcomp", "*.lift", "*.ode_integ_phase", "*.intvelocity", "*.intrange", "*.intvs", "*.inth", "*.altitudes", "*.speeds", "*.ranges", "*.climbangle", "*.transition", "*.v2climb", "*.tod_final", "*.stall", "*.vrspeed", "*.v2speed", "*.flip*", "*bfl")
def fly(cls, **o): return dict(opts=dict(aircraft_model=AnyAircraft, **o), dom=MDOM, free=FREE, opaque=OPQ, tag=",".join(str(x) for x in o.values()))
def balance(k, state, u, a, b, label): k.eq(label, (k.v("lhs:" + state, u) - k.v("rhs:" + state, u)) ** 2, (a - b) ** 2)
def end(k, ph, x, u): return k.o("%s.ode_integ_phase.%s_final" % (ph, x) if k.has("%s.ode_integ_phase.%s_final" % (ph, x)) else "%s.%s_final" % (ph, x), u, at=0)
def legs(k):
    i = lambda n, u=None: k.v(n, u, at=0)
    H = "fltcond|h"
    balance(k, "climb.duration", "m", end(k, "climb", H, "m"), i("cruise|h0", "m"), "climb lasts until the cruise altitude is reached")
    balance(k, "cruise.duration", "km", end(k, "descent", "range", "km"), i("mission_range", "km"), "cruise lasts until the whole mission covers the mission range")
    balance(k, "descent.duration", "m", end(k, "descent", H, "m"), i("takeoff|h", "m"), "descent lasts until the airport altitude is reached")
    for ph in STEADY:
        if k.has(ph + ".throttle"): balance(k, ph + ".throttle", "m/s**2", k.o(ph + ".accel_horiz", "m/s**2"), k.v(ph + ".zero_accel", "m/s**2"), ph + ": throttle gives the requested acceleration")
    if k.has("reserve_climb.throttle"):
        balance(k, "reserve_climb.duration", "m", end(k, "reserve_climb", H, "m"), i("reserve|h0", "m"), "reserve climb lasts until the reserve altitude is reached")
        balance(k, "reserve_cruise.duration", "m", end(k, "reserve_descent", "range", "m") - end(k, "descent", "range", "m"), i("reserve_range", "m"), "reserve cruise lasts until the diversion covers the reserve range")
        balance(k, "reserve_descent.duration", "m", end(k, "reserve_descent", H, "m"), i("takeoff|h", "m"), "reserve descent lasts until the airport altitude is reached")
        k.eq("loiter at the loiter altitude", k.v("loiter.ode_integ_phase.fltcond|h_initial", "m", at=0), i("loiter|h0", "m"))
        k.eq("loiter for the loiter duration", k.v("loiter.duration", "s", at=0), i("loiter_duration", "s"))
def takeoff(k, ode):
    i = lambda n, u=None: k.v(n, u, at=0)
    v1 = i("takeoff|v1", "m/s")
    balance(k, "v0v1.duration", "m/s", end(k, "v0v1", "fltcond|Utrue", "m/s"), v1, "ground roll lasts until the decision speed")
    k.eq("takeoff continues from the decision speed", i("v1vr.fltcond|Utrue_initial", "m/s"), v1)
    k.eq("takeoff continues from where the decision speed was reached", i("v1vr.range_initial", "m"), end(k, "v0v1", "range", "m"))
    balance(k, "v1vr.duration", "m/s", end(k, "v1vr", "fltcond|Utrue", "m/s"), k.o("v1vr.takeoff|vr", "m/s"), "acceleration lasts until the rotation speed")
    k.eq("rotation starts where the rotation speed was reached", i("rotate.range_initial", "m"), end(k, "v1vr", "range", "m"))
    if ode:
        k.eq("rotation starts at the speed reached", i("rotate.fltcond|Utrue_initial", "m/s"), end(k, "v1vr", "fltcond|Utrue", "m/s"))
        balance(k, "rotate.duration", "ft", end(k, "rotate", "fltcond|h", "ft"), C(35), "rotation lasts until 35 ft")
    k.eq("stopping starts where the decision speed was reached", i("v1v0.range_initial", "m"), end(k, "v0v1", "range", "m"))
    balance(k, "v1v0.duration", "m/s", i("v1v0.fltcond|Utrue_initial", "m/s"), v1, "stopping starts at the decision speed")
    k.eq("accelerate-go distance", i("bfl.distance_continue", "m"), end(k, "rotate", "range", "m"))
    k.eq("accelerate-stop distance", i("bfl.distance_abort", "m"), end(k, "v1v0", "range", "m"))
    k.eq("decision speed is limited by the rotation speed", i("bfl.takeoff|vr", "m/s"), k.o("v1vr.takeoff|vr", "m/s"))
    k.eq("climb starts where rotation ended", i("climb.ode_integ_phase.range_initial", "m"), end(k, "rotate", "range", "m"))
    k.eq("climb starts at the height where rotation ended", i("climb.ode_integ_phase.fltcond|h_initial", "m"), end(k, "rotate", "fltcond|h", "m"))

@contract("F04", "BasicMission", group=[fly("BasicMission"), fly("BasicMission", include_ground_roll=True)], modes=[3])
def basic(k):
    if k.nodeint: return
    legs(k); i = lambda n, u=None: k.v(n, u, at=0)
    if k.opt("include_ground_roll"): balance(k, "groundroll.duration", "m/s", end(k, "groundroll", "fltcond|Utrue", "m/s"), i("takeoff|v2", "m/s"), "ground roll lasts until v2")
    k.eq("climb starts at the airport altitude", i("climb.ode_integ_phase.fltcond|h_initial", "m"), i("takeoff|h", "m"))
@contract("F04", "MissionWithReserve", group=[fly("MissionWithReserve")], modes=[3])
def reserve(k):
    if k.nodeint: return
    legs(k); i = lambda n, u=None: k.v(n, u, at=0)
    k.eq("climb starts at the airport altitude", i("climb.ode_integ_phase.fltcond|h_initial", "m"), i("takeoff|h", "m"))
    k.eq("the diversion starts at the airport altitude", i("reserve_climb.ode_integ_phase.fltcond|h_initial", "m"), i("takeoff|h", "m"))
@contract("F04", "FullMissionAnalysis FullMissionWithReserve", group=[fly("FullMissionAnalysis"), fly("FullMissionAnalysis", transition_method="ode")], modes=[3])
def full(k):
    if k.nodeint: return
    legs(k); takeoff(k, k.opt("transition_method") == "ode")
    if k.has("reserve_climb.throttle"): k.eq("the diversion starts at the airport altitude", k.v("reserve_climb.ode_integ_phase.fltcond|h_initial", "m", at=0), k.v("takeoff|h", "m", at=0))
