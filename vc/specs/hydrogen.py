"""H01 liquid hydrogen tank geometry, structure and roll-up"""
from ..contract import contract
from ..component import Cfg
from ..terms import *
import numpy as np

def area(r, L): return 4 * PI * r ** 2 + 2 * PI * r * L          # cylinder with hemispherical ends
def volume(r, L): return 4 * PI * r ** 3 / 3 + PI * r ** 2 * L

@contract("H01", "PressureVesselWallThickness")
def pressure(k):
    p, r, L, t = k.i("design_pressure_differential", "Pa"), k.i("radius", "m"), k.i("length", "m"), k.o("thickness", "m")
    k.eq("hoop stress at the design pressure x safety factor equals the yield stress", p * r * k.opt("safety_factor"), t * k.opt("yield_stress"))
    k.eq("wall weight = area x thickness x density", k.o("weight", "kg"), area(r, L) * t * k.opt("density"))
@contract("H01", "VacuumWallThickness")
def vacuum(k):
    p, r, L, t = k.i("design_pressure_differential", "Pa"), k.i("radius", "m"), k.i("length", "m"), k.o("thickness", "m")
    E, P = C(k.opt("youngs_modulus")), p * k.opt("safety_factor")
    tc = k.pow(P * L * k.pow(r, C(1.5)) / (C(0.92) * E), C(0.4)); ts = r * k.sqrt(P / (C(0.365) * E))
    k.eq("thickness = stiffening multiplier x the larger of the cylinder and sphere buckling thicknesses", t, C(k.opt("stiffening_multiplier")) * k.max(tc, ts))
    k.eq("wall weight = area x thickness x density", k.o("weight", "kg"), area(r, L) * t * k.opt("density"))
@contract("H01", "MLIWeight")
def mli(k):
    k.eq("insulation weight = area x layers x areal weight of a foil and a spacer", k.o("weight", "kg"), area(k.i("radius", "m"), k.i("length", "m")) * k.i("N_layers") * (C(k.opt("foil_layer_areal_weight")) + k.opt("spacer_layer_areal_weight")))
@contract("H01", "InitialLH2MassModification")
def mass(k):
    V, rho = volume(k.i("radius", "m"), k.i("length", "m")), C(k.opt("LH2_density")); m = k.o("m_liq", "kg")
    k.eq("liquid mass = initial fill - liquid drawn", m, V * rho * k.opt("fill_level_init") - k.i("delta_m_liq", "kg"))
    k.eq("liquid volume = fill level x tank volume", k.o("fill_level") * V * rho, m)
    k.eq("liquid and ullage fill the tank", m / rho + (1 - k.o("fill_level")) * V, V)
    k.eq("mass and drawn liquid sum to the initial filling at every node", m + k.i("delta_m_liq", "kg"), V * rho * k.opt("fill_level_init"))

OPT = dict(weight_fudge_factor=1.3, stiffening_multiplier=0.7, inner_safety_factor=1.9, inner_yield_stress=3.1e8, inner_density=2500.0, outer_safety_factor=2.4, outer_youngs_modulus=7e10, outer_density=2900.0)
POS = {"radius": (0.3, 3.0), "length": (0.2, 8.0), "hard:length": (1e-6, None), "vacuum_gap": (0.01, 0.3), "N_layers": (1, 60), "environment_design_pressure": (5e4, 2e5), "max_expected_operating_pressure": (1e5, 1e6)}
EMPTY = {"integ.delta_m_liq_initial": "default"}          # nothing has been drawn at the start
def structure(k, W, pre=""):
    r, L, gap = k.i("radius", "m"), k.i("length", "m"), k.i("vacuum_gap", "m"); ro = r + gap; o = k.opt
    pi, po = k.i("max_expected_operating_pressure", "Pa"), k.i("environment_design_pressure", "Pa")
    ti = pi * r * o("inner_safety_factor") / o("inner_yield_stress"); P = po * o("outer_safety_factor"); E = o("outer_youngs_modulus")
    to = C(o("stiffening_multiplier")) * k.max(k.pow(P * L * k.pow(ro, C(1.5)) / (C(0.92) * E), C(0.4)), ro * k.sqrt(P / (C(0.365) * E)))
    Wm = area(r, L) * k.i("N_layers") * (C(0.018) + C(0.012))
    k.eq("total weight = mark-up x (outer wall + inner wall + insulation)", W, C(o("weight_fudge_factor")) * (area(ro, L) * to * o("outer_density") + area(r, L) * ti * o("inner_density") + Wm))
@contract("H01", "VacuumTankWeight", group=[dict(dom=POS, nnopt=None), dict(dom=POS, nnopt=None, opts=OPT, tag="options")], modes=[3])
def tankweight(k): structure(k, k.o("weight", "kg"))
@contract("H01", "LH2TankNoBoilOff", group=[dict(dom=POS, setvals=EMPTY), dict(dom=POS, setvals=EMPTY, opts=dict(OPT, fill_level_init=0.9, LH2_density=65.0), tag="options")], modes=[3, 5])
def tank(k):
    Wt = k.v("tank_weight", "kg"); structure(k, Wt)
    V, rho = volume(k.i("radius", "m"), k.i("length", "m")), C(k.opt("LH2_density")); m = k.o("m_liq", "kg")
    k.eq("total = tank + liquid", k.o("total_weight", "kg"), Wt + m)
    k.eq("liquid volume = fill level x tank volume", k.o("fill_level") * V * rho, m)
    n, h = k.nn, k.i("duration", "s") if k.has("duration") else k.i("integ.duration", "s")
    a = lambda j: k.i("m_dot_liq", "kg/s", at=j)
    if k.nodeint == 0: k.eq("tank starts at the initial fill", m, V * rho * k.opt("fill_level_init"))
    if k.nodeint == n - 1:
        w = [1 if j in (0, n - 1) else (4 if j % 2 else 2) for j in range(n)]
        k.eq("liquid left at the end = initial - Simpson integral of the flow", m, V * rho * k.opt("fill_level_init") - sum((w[j] * a(j) for j in range(n)), C(0)) * h / (3 * (n - 1)))
