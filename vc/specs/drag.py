"""N01 drag build-ups: aerodynamics/drag_jet_transport.py, drag_BWB.py, openaerostruct/wave_drag.py"""
from ..contract import contract
from ..component import Cfg
from ..terms import *

def friction(k, rho, U, T, L, lam):
    mu = C("1.458e-6") * T * k.sqrt(T) / (T + C("100.4"))           # Sutherland's law
    Re = rho * U * L / mu
    turb = lambda r: C("0.523") / k.log(C("0.06") * r) ** 2
    if lam is C(0) or isinstance(lam, (int, float)) and lam == 0: return turb(Re)
    return turb(Re) + (C("1.32824") / k.sqrt(Re * lam) - turb(Re * lam)) * lam
FLOW = {"fltcond|Utrue": (30.0, 300.0), "fltcond|rho": (0.2, 1.3), "fltcond|T": (200.0, 320.0), "L": (0.5, 60.0), "ac|geom|wing|c4sweep": (0.0, 0.7)}
@contract("N01", "SkinFrictionCoefficient_JetTransport", dom=FLOW, cfgs=[lambda cls: Cfg(cls, dict(laminar_frac=0.0), nosym=("laminar_frac",), tag="turbulent"), lambda cls: Cfg(cls, dict(laminar_frac=0.3), tag="partly laminar", dom={"laminar_frac": (0.01, 0.9)})])
def skin(k):
    lam = k.opt("laminar_frac")
    f = lambda l: friction(k, k.i("fltcond|rho", "kg/m**3"), k.i("fltcond|Utrue", "m/s"), k.i("fltcond|T", "K"), k.i("L", "m"), l)
    if isinstance(lam, (int, float)): k.eq("turbulent flat plate (plus laminar correction)", k.o("Cf"), f(lam))
    elif k.when(lam > C(0)): k.eq("turbulent flat plate corrected over the laminar part", k.o("Cf"), f(lam))
    else: k.eq("fully turbulent flat plate", k.o("Cf"), f(0))
@contract("N01", "FuselageFormFactor_JetTransport")
def ffus(k):
    r = k.i("ac|geom|fuselage|height", "m") / k.i("ac|geom|fuselage|length", "m")
    k.eq("Torenbeek: Q (1 + 2.2/f + 3.8/f^3)", k.o("FF_fuselage"), C(k.opt("Q_fuselage")) * (1 + C("2.2") * r + C("3.8") * r ** 3))
def ffw(k, t, Q): return C(Q) * (1 + C("2.7") * t + 100 * t ** 4)
@contract("N01", "WingFormFactor_JetTransport")
def fwing(k): k.eq("Torenbeek: Q (1 + 2.7 t/c + 100 (t/c)^4)", k.o("FF_wing"), ffw(k, k.i("toverc"), k.opt("Q")))
def flapdrag(k, d, s):
    c = C(k.opt("flap_chord_frac"))
    return (C("0.000575") * c ** 2 - C("7.45e-5") * c + C("1.23e-5")) * d ** 2 * k.cos(s) * k.opt("wing_area_flapped_frac") * k.opt("Q_flap")
@contract("N01", "FlapDrag_JetTransport", dom=FLOW)
def flapd(k): k.eq("Roskam VI 4.71: profile increment x flapped area x interference (deflection in degrees)", k.o("CD_flap"), flapdrag(k, k.i("flap_extension", "deg"), k.i("ac|geom|wing|c4sweep", "rad")))

OPT = dict(drag_fudge_factor=1.2, FF_nacelle=1.4, Q_flap=1.1, flap_chord_frac=0.25, wing_area_flapped_frac=0.8, nacelle_laminar_frac=0.1)
OPTW = dict(OPT, Q_fuselage=1.1, Q_tail=1.15, Q_wing=1.03, fuselage_laminar_frac=0.05, hstab_laminar_frac=0.2, vstab_laminar_frac=0.25, wing_laminar_frac=0.0)
def mac(k, S, AR, t): return C(4) / 3 * k.sqrt(S / AR) * (1 + t + t ** 2) / (1 + t) ** 2
def addons(k, gear):
    if k.opt("configuration") == "clean": return C(0)
    return C(gear) + flapdrag(k, k.i("ac|aero|takeoff_flap_deg", "deg"), k.i("ac|geom|wing|c4sweep", "rad"))
def pieces(k):
    rho, U, T = k.i("fltcond|rho", "kg/m**3"), k.i("fltcond|Utrue", "m/s"), k.i("fltcond|T", "K"); return lambda L, lam: friction(k, rho, U, T, L, k.opt(lam))
def nacelle(k, fr): return k.i("ac|propulsion|num_engines") * k.i("ac|geom|nacelle|S_wet", "m**2") * k.opt("FF_nacelle") * fr(k.i("ac|geom|nacelle|length", "m"), "nacelle_laminar_frac") / k.i("ac|geom|wing|S_ref", "m**2")
GS = [dict(dom=FLOW, opts=o, tag=t) for o, t in ((dict(), ""), (dict(configuration="takeoff"), "takeoff"), (dict(OPTW, configuration="takeoff", include_wing=False), "takeoff without wing"), (OPTW, "options"))]
@contract("N01", "ParasiteDragCoefficient_JetTransport", group=GS, modes=["sym", 1])
def buildup(k):
    fr = pieces(k); S = k.i("ac|geom|wing|S_ref", "m**2"); g = lambda s: k.i("ac|geom|" + s, "m**2" if "S_" in s else "m" if s.split("|")[1] in ("length", "height") else None)
    L, h = g("fuselage|length"), g("fuselage|height"); r = h / L
    cd = g("fuselage|S_wet") * k.opt("Q_fuselage") * (1 + C("2.2") * r + C("3.8") * r ** 3) * fr(L, "fuselage_laminar_frac") / S
    for t in ("hstab", "vstab"):
        A = g(t + "|S_ref"); cd = cd + 2 * A * ffw(k, g(t + "|toverc"), k.opt("Q_tail")) * fr(mac(k, A, g(t + "|AR"), g(t + "|taper")), t + "_laminar_frac") / S
    if k.opt("include_wing"): cd = cd + 2 * ffw(k, g("wing|toverc"), k.opt("Q_wing")) * fr(mac(k, S, g("wing|AR"), g("wing|taper")), "wing_laminar_frac")
    cd = cd + nacelle(k, fr)
    k.eq("zero-lift drag = fudge factor x (wetted area x form factor x friction of every part once, per reference area, + flaps + gear)", k.o("CD0"), C(k.opt("drag_fudge_factor")) * (cd + addons(k, "0.02")))
@contract("N01", "ParasiteDragCoefficient_BWB", group=[dict(dom=FLOW, opts=o, tag=t) for o, t in ((dict(), ""), (dict(configuration="takeoff"), "takeoff"), (dict(OPT, configuration="takeoff"), "takeoff options"))], modes=["sym", 1])
def buildup_bwb(k):
    k.eq("zero-lift drag of nacelles, flaps and gear = fudge factor x (each once)", k.o("CD0"), C(k.opt("drag_fudge_factor")) * (nacelle(k, pieces(k)) + addons(k, "0.01")))

def panels(k):
    n = k.opt("num_sections"); a = k.opt("idx_sec_start"); b = k.opt("idx_sec_end"); b = n - 1 if b is None else b
    y = lambda j: C(0) if j == n - 1 else k.i("y_sec", "m", at=j)
    return [(y(j + 1) - y(j), k.i("chord_sec", "m", at=j), k.i("chord_sec", "m", at=j + 1), k.i("toverc_sec", at=j), k.i("toverc_sec", at=j + 1)) for j in range(a, b)]
WAVE = {"c4sweep": (0.0, 40.0), "hard:c4sweep": (-80.0, 80.0), "toverc_sec": (0.05, 0.2), "fltcond|CL": (0.0, 0.8), "fltcond|M": (0.5, 1.0)}
def increasing(cls, n, **o): return Cfg(cls, dict(num_sections=n, **o), dom=WAVE, tag=",".join(["%d sections" % n] + ["%s=%s" % x for x in o.items()]))
@contract("N01", "WaveDragFromSections", cfgs=[lambda c: increasing(c, 2), lambda c: increasing(c, 3), lambda c: increasing(c, 3, specify_area_norm=True), lambda c: increasing(c, 4, idx_sec_start=1, idx_sec_end=2), lambda c: increasing(c, 4, idx_sec_start=1, specify_area_norm=True)])
def wave(k):
    P = panels(k); S = sum((w * (c0 + c1) / 2 for w, c0, c1, _, _ in P), C(0))
    # area-averaged thickness ratio by the trapezoidal rule on 499 equal intervals: exact integral of the product of two linear functions + remainder
    tc = sum((w * (2 * c0 * t0 + 2 * c1 * t1 + c0 * t1 + c1 * t0) / 6 + w * (t1 - t0) * (c1 - c0) / (6 * 499 ** 2) for w, c0, c1, t0, t1 in P), C(0)) / S
    co = k.cos(k.i("c4sweep", "rad")); M = k.i("fltcond|M"); CD = k.o("CD_wave")
    # Korn: M_DD cos^3 = kappa cos^2 - (t/c) cos - CL/10 ; Lock: M_crit = M_DD - (0.1/80)^(1/3)
    Mc = C(k.opt("airfoil_tech_level")) / co - tc / co ** 2 - k.i("fltcond|CL") / (10 * co ** 3) - C((0.1 / 80.0) ** (1 / 3))
    if k.has("S_ref"):
        Sr = k.i("S_ref", "m**2"); up, dn = CD * Sr / (2 * S), CD * (2 * S) / Sr
        if k.when(M <= Mc): k.eq("no wave drag below the critical Mach number", CD, C(0))
        else:
            F = 40 * (M - Mc) ** 4
            k.eq("drag coefficient referred to S_ref x S_ref = regional coefficient x regional area", up, F, mag=C(100) * (M + 1) ** 4)
            k.eq("Lock's fourth power of the Mach excess, both half wings (whichever way the areas enter)", (up - F) * (dn - F), C(0), mag=C(100) * F * (M + 1) ** 4)
    elif k.when(M <= Mc): k.eq("no wave drag below the critical Mach number", CD, C(0))
    else: k.eq("Lock's fourth power of the Mach excess, both half wings", CD, 40 * (M - Mc) ** 4, mag=C(10) * (M + 1) ** 4)
