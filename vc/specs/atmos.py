"""A01 standard atmosphere"""
from ..contract import contract
from ..terms import *
from fractions import Fraction as F

G0, RGAS, GAM = C("9.80665"), C("287.058"), C("1.4")
LO, HI, TR = C(10500), C(11500), C(11000)
LAPSE, T0, TS = C("0.0065"), C("288.16"), C("216.65")
def p_tropo(h): return C(101325) * (1 - LAPSE * h / T0) ** C("5.2561")
def p_strato(h): return C(22632) * fn("exp", C("-9.81") * (h - TR) / (288 * TS))
def dp_tropo(h): return -C(101325) * C("5.2561") * (LAPSE / T0) * (1 - LAPSE * h / T0) ** C("4.2561")
def dp_strato(h): return p_strato(h) * C("-9.81") / (288 * TS)
def hermite(h, a, b, da, db):
    L = HI - LO; t = (h - LO) / L
    return a * (2 * t ** 3 - 3 * t ** 2 + 1) + L * da * (t ** 3 - 2 * t ** 2 + t) + b * (3 * t ** 2 - 2 * t ** 3) + L * db * (t ** 3 - t ** 2)
def near(k, label, x, y, rel, scale=None):
    tol = C(rel) * (y if scale is None else scale)
    k.le(label + " (upper)", x - y, tol); k.le(label + " (lower)", y - x, tol)

@contract("A01", "TemperatureComp")
def temperature(k):
    h, T, dT = k.i("fltcond|h", "m"), k.o("fltcond|T", "K"), k.i("fltcond|TempIncrement", "raw")
    if k.when(h <= LO): k.eq("troposphere lapse", T, T0 - LAPSE * h + dT)
    elif k.when(h > HI): k.eq("constant above the tropopause", T, TS + dT)
    else:
        near(k, "smooth C1 join of the two layers", T - dT, hermite(h, T0 - LAPSE * LO, TS, -LAPSE, C(0)), "1e-9", C(216))
        k.le("never colder than either layer's end by more than the overshoot of the join", C(215), T - dT)
@contract("A01", "PressureComp")
def pressure(k):
    h, p = k.i("fltcond|h", "m"), k.o("fltcond|p", "Pa")
    if k.when(h <= LO): k.eq("troposphere pressure law", p, p_tropo(h)); k.lt("strictly decreasing", k.D("fltcond|p", "fltcond|h"), C(0))
    elif k.when(h > HI): k.eq("isothermal pressure law", p, p_strato(h)); k.lt("strictly decreasing", k.D("fltcond|p", "fltcond|h"), C(0))
    else:
        near(k, "smooth C1 join of the two layers", p, hermite(h, p_tropo(LO), p_strato(HI), dp_tropo(LO), dp_strato(HI)), "1e-9", C(22632))
        k.lt("strictly decreasing", k.D("fltcond|p", "fltcond|h"), C(0))
    k.lt("pressure is positive", C(0), p)
@contract("A01", "DensityComp")
def density(k): k.eq("ideal gas", k.o("fltcond|rho", "kg/m**3") * RGAS * k.i("fltcond|T", "K"), k.i("fltcond|p", "Pa"))
@contract("A01", "SpeedOfSoundComp")
def sound(k):
    a = k.o("fltcond|a", "m/s"); k.eq("a^2 = gamma R T", a ** 2, GAM * RGAS * k.i("fltcond|T", "K")); k.le("non-negative", C(0), a)
@contract("A01", "DynamicPressureComp")
def q(k): k.eq("q = rho U^2/2", k.o("fltcond|q", "Pa"), k.i("fltcond|rho", "kg/m**3") * k.i("fltcond|Utrue", "m/s") ** 2 / 2)
@contract("A01", "MachNumberComp")
def mach(k): k.eq("M a = U", k.o("fltcond|M") * k.i("fltcond|a", "m/s"), k.i("fltcond|Utrue", "m/s"))
@contract("A01", "TrueAirspeedComp EquivalentAirspeedComp".split()[0], label="true")
def tas(k): eas(k)
@contract("A01", "EquivalentAirspeedComp", label="equivalent")
def eas(k):
    k.eq("rho Utrue^2 = rho0 Ueas^2", k.v("fltcond|Utrue", "m/s") * k.sqrt(k.i("fltcond|rho", "kg/m**3") / C("1.225")), k.v("fltcond|Ueas", "m/s"))

def atm(k):
    rho, p, T, a, U, M, qd, h = (k.o("fltcond|" + n, u) for n, u in (("rho", "kg/m**3"), ("p", "Pa"), ("T", "K"), ("a", "m/s"))) if False else [k.v("fltcond|" + n, u) for n, u in (("rho", "kg/m**3"), ("p", "Pa"), ("T", "K"), ("a", "m/s"), ("Utrue", "m/s"), ("M", None), ("q", "Pa"), ("h", "m"))]
    k.eq("ideal gas", rho * RGAS * T, p)
    k.eq("a^2 = gamma R T", a ** 2, GAM * RGAS * T)
    k.eq("M a = U", M * a, U)
    k.eq("q = rho U^2/2", qd, rho * U ** 2 / 2)
    k.eq("true/equivalent airspeed", U * k.sqrt(rho / C("1.225")), k.v("fltcond|Ueas", "m/s"))
    dT = k.i("fltcond|TempIncrement", "raw")
    if k.when(h <= LO): k.eq("pressure law through the group", p, p_tropo(h)); k.eq("temperature through the group", T, T0 - LAPSE * h + dT)
    elif k.when(h > HI): k.eq("pressure law through the group", p, p_strato(h)); k.eq("temperature through the group", T, TS + dT)
    # hydrostatic balance of the standard day
    if k.has("fltcond|p"):
        r0 = p / (RGAS * (T - dT)); b = k.D("fltcond|p", "fltcond|h") + r0 * G0
        k.le("hydrostatic balance dp/dh = -rho g within 1% (upper)", b, r0 * G0 * C("0.01"))
        k.le("hydrostatic balance dp/dh = -rho g within 1% (lower)", -b, r0 * G0 * C("0.01"))
contract("A01", "ComputeAtmosphericProperties", group=[dict(), dict(opts=dict(true_airspeed_in=True), tag="tas_in")])(atm)
