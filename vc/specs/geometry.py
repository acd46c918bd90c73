"""G01 planform integrals and tail sizing.  Integrals over linear panels are written with Simpson's rule, exact for the cubic integrands met here."""
from ..contract import contract
from ..terms import *
import numpy as np

def integral(w, f):
    """integral over a panel of width w of f(t), t in [0, 1]; f at most cubic"""
    return w / 6 * (f(C(0)) + 4 * f(C(1) / 2) + f(C(1)))
def lin(a, b): return lambda t: a + (b - a) * t

@contract("G01", "WingMACTrapezoidal")
def mactrap(k):
    S, AR, l = k.i("S_ref", "m**2"), k.i("AR"), k.i("taper"); b = k.sqrt(S * AR); cr = 2 * S / (b * (1 + l)); c = lin(cr, l * cr)
    k.eq("MAC = integral of chord squared over area", k.o("MAC", "m") * S, 2 * integral(b / 2, lambda t: c(t) ** 2))
    k.eq("chords reproduce the area", S, 2 * integral(b / 2, c))
@contract("G01", "WingSpan")
def span(k): k.eq("span squared = area x aspect ratio", k.o("span", "m") ** 2, k.i("S_ref", "m**2") * k.i("AR")); k.le("span not negative", C(0), k.o("span"))
@contract("G01", "WingAspectRatio")
def ar(k): k.eq("aspect ratio x area = span squared", k.o("AR") * k.i("S_ref", "m**2"), k.i("span", "m") ** 2)
@contract("G01", "CylinderSurfaceArea")
def cyl(k): k.eq("lateral area", k.o("A", "m**2"), PI * k.i("D", "m") * k.i("L", "m"))
def panels(k):
    n = k.opt("num_sections"); a = k.opt("idx_sec_start"); b = k.opt("idx_sec_end"); b = n - 1 if b is None else b
    y = lambda j: C(0) if j == n - 1 else k.i("y_sec", "m", at=j)
    return [dict(w=y(j + 1) - y(j), c=lin(k.i("chord_sec", "m", at=j), k.i("chord_sec", "m", at=j + 1)), x=lin(k.i("x_LE_sec", "m", at=j), k.i("x_LE_sec", "m", at=j + 1)) if k.has("x_LE_sec") else None) for j in range(a, b)]
@contract("G01", "WingAreaFromSections")
def areasec(k):
    f = C(k.opt("chord_frac_end")) - k.opt("chord_frac_start")
    k.eq("area = twice the integral of the chord fraction", k.o("S", "m**2"), 2 * f * sum((integral(p["w"], p["c"]) for p in panels(k)), C(0)))
@contract("G01", "WingMACFromSections")
def macsec(k):
    P = panels(k); S = sum((integral(p["w"], p["c"]) for p in P), C(0))
    k.eq("MAC = integral of chord squared over area", k.o("MAC", "m") * S, sum((integral(p["w"], lambda t, p=p: p["c"](t) ** 2) for p in P), C(0)))
    k.eq("quarter-chord of the MAC = chord-weighted mean quarter-chord position", k.o("x_c4MAC", "m") * S, sum((integral(p["w"], lambda t, p=p: (p["x"](t) + p["c"](t) / 4) * p["c"](t)) for p in P), C(0)))
    if len(P) == 1:
        c = P[0]["c"]; cr, ct = c(C(1)), c(C(0)); l = ct / cr
        k.eq("one panel agrees with the trapezoidal formula", k.o("MAC", "m") * 3 * (1 + l), 2 * cr * (1 + l + l * l))
@contract("G01", "WingSweepFromSections")
def sweepsec(k):
    P = panels(k); A = [integral(p["w"], p["c"]) for p in P]; s = C(0)
    for p, a in zip(P, A):
        q = lambda t: p["x"](t) + p["c"](t) / 4
        s = s + a * k.cos(k.atan((q(C(0)) - q(C(1))) / p["w"]))
    k.eq("cosine of the sweep = area-weighted mean cosine of the quarter-chord sweeps", k.cos(k.o("c4sweep", "rad")) * sum(A, C(0)), s)
@contract("G01", "HStabVolumeCoefficientSizing")
def hstab(k): k.eq("tail volume coefficient reproduced", k.o("ac|geom|hstab|S_ref") * k.i("ac|geom|hstab|c4_to_wing_c4"), C(k.opt("C_ht")) * k.i("ac|geom|wing|S_ref") * k.i("ac|geom|wing|MAC"))
@contract("G01", "VStabVolumeCoefficientSizing")
def vstab(k):
    S = k.i("ac|geom|wing|S_ref"); k.eq("tail volume coefficient reproduced (span = sqrt(area x aspect ratio))", k.o("ac|geom|vstab|S_ref") * k.i("ac|geom|vstab|c4_to_wing_c4"), C(k.opt("C_vt")) * S * k.sqrt(S * k.i("ac|geom|wing|AR")))

# ------------------------------------------------------------------ wing meshes
def half_area(x, y, nx, ny):
    """area of the meshed half wing: trapezoids between the chords of neighbouring stations"""
    c = [x(nx - 1, j) - x(0, j) for j in range(ny)]
    return sum(((y(j + 1) - y(j)) * (c[j] + c[j + 1]) / 2 for j in range(ny - 1)), C(0))
def flat(k, nx, ny, y):
    for i in range(nx):
        for j in range(ny):
            k.eq("mesh lies in the plane z = 0", k.o("mesh", "m", at=(i, j, 2)), C(0))
            if i: k.eq("stations run straight downstream", k.o("mesh", "m", at=(i, j, 1)), y(j))
@contract("G01", "TrapezoidalPlanformMesh", bounded="sampled panel counts")
def trapmesh(k):
    nx, ny = k.opt("num_x") + 1, k.opt("num_y") + 1; x = lambda i, j: k.o("mesh", "m", at=(i, j, 0)); y = lambda j: k.o("mesh", "m", at=(0, j, 1))
    S, AR, l, tan = k.i("S", "m**2"), k.i("AR"), k.i("taper"), k.tan(k.i("sweep", "rad"))
    flat(k, nx, ny, y)
    k.eq("span squared = area x aspect ratio", 4 * y(0) ** 2, S * AR); k.eq("root in the symmetry plane", y(ny - 1), C(0)); k.le("tip on the negative side", y(0), C(0))
    k.eq("meshed half = half the area", 2 * half_area(x, y, nx, ny), S)
    c = lambda j: x(nx - 1, j) - x(0, j); q = lambda j: x(0, j) + c(j) / 4
    k.eq("tip chord = taper x root chord", c(0), l * c(ny - 1))
    for j in range(ny):
        k.eq("stations evenly spaced", y(j) * (ny - 1), y(0) * (ny - 1 - j)); k.eq("chord linear along the span", c(j) * (ny - 1), c(0) * (ny - 1 - j) + c(ny - 1) * j)
        k.eq("quarter-chord line swept by the given angle from the origin", q(j), -y(j) * tan)
        for i in range(nx): k.eq("points evenly spaced along the chord", (x(i, j) - x(0, j)) * (nx - 1), c(j) * i)
def frac(k, j, n):
    """cosine spacing: fraction of the way at point j of n panels"""
    return (1 - k.cos(PI * j / n)) / 2
def regions(k, nodes=True):
    """(section, first point, panels) of each region between sections"""
    n = k.opt("num_sections"); ny = k.opt("num_y"); ny = [ny] * (n - 1) if isinstance(ny, int) else [int(v) for v in ny]; p = 0
    for s in range(n - 1): yield s, p, ny[s]; p += ny[s]
@contract("G01", "SectionPlanformMesh", bounded="sampled panel counts")
def secmesh(k):
    n = k.opt("num_sections"); R = list(regions(k)); nx, ny = k.opt("num_x") + 1, sum(r[2] for r in R) + 1
    x = lambda i, j: k.o("mesh", "m", at=(i, j, 0)); y = lambda j: k.o("mesh", "m", at=(0, j, 1))
    ys = lambda s: C(0) if s == n - 1 else k.i("y_sec", "m", at=s)
    xs = lambda s: k.i("x_LE_sec", "m", at=s); cs = lambda s: k.i("chord_sec", "m", at=s)
    A = 2 * sum(((ys(s + 1) - ys(s)) * (cs(s) + cs(s + 1)) / 2 for s in range(n - 1)), C(0)); scale = k.opt("scale_area"); S = k.i("S", "m**2") if scale else k.o("S", "m**2")
    flat(k, nx, ny, y)
    k.eq("meshed area = reference area", 2 * half_area(x, y, nx, ny), S)
    f = k.sqrt(S / A) if scale else C(1)
    for s, p, m in R:
        for d in range(m + 1):
            t = frac(k, d, m); mix = lambda g: g(s) + t * (g(s + 1) - g(s)); j = p + d
            k.eq("spanwise position between the sections", y(j), f * mix(ys)); k.eq("leading edge between the sections", x(0, j), f * mix(xs))
            for i in range(1, nx): k.eq("chordwise position", x(i, j) - x(0, j), f * frac(k, i, nx - 1) * mix(cs))
def spaced(k, d, m): return frac(k, d, m) if k.opt("cos_spacing") else C(d) / m
@contract("G01", "ThicknessChordRatioInterp", bounded="sampled panel counts")
def tcinterp(k):
    for s, p, m in regions(k):
        v = lambda d: k.i("section_toverc", at=s) + spaced(k, d, m) * (k.i("section_toverc", at=s + 1) - k.i("section_toverc", at=s))
        for d in range(m): k.eq("panel value = mean of its two edges, interpolated between the sections", k.o("panel_toverc", at=p + d), (v(d) + v(d + 1)) / 2)
@contract("G01", "SectionLinearInterp", bounded="sampled panel counts")
def secinterp(k):
    for s, p, m in regions(k):
        for d in range(m + 1): k.eq("node value interpolated between the sections", k.o("property_node", at=p + d), k.i("property_sec", at=s) + spaced(k, d, m) * (k.i("property_sec", at=s + 1) - k.i("property_sec", at=s)))
