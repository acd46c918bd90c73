"""T01 energy balances, T02 heat exchangers / heat pipes / cold plates, T03 ducted flow"""
from ..contract import contract
from ..component import Cfg
from ..group import GCfg
from ..terms import *
import numpy as np
from .common import history, final

def inputs_set(**d):
    def outer(m, g, nn):
        m.add_subsystem("g", g, promotes=["*"])
        for n, (v, u) in d.items(): m.set_input_defaults(n, v * np.ones(nn) if n not in SCALARS else v, units=u)
    return outer
SCALARS = ("inner_diam", "length", "power_rating")

# ================================================================== T01
@contract("T01", "PerfectHeatTransferComp")
def perfect(k):
    Ti, To = k.i("T_in", "K"), k.o("T_out", "K")
    k.eq("heat gained = mdot cp (T_out - T_in)", k.i("q", "W"), k.i("mdot_coolant", "kg/s") * k.opt("specific_heat") * (To - Ti))
    k.eq("average temperature is the mean of inlet and outlet", 2 * k.o("T_average", "K"), Ti + To)
@contract("T01", "ThermalComponentWithMass")
def withmass(k):
    k.eq("m cp dT/dt = heat in - heat out", k.i("mass", "kg") * k.opt("specific_heat") * k.o("dTdt", "K/s"), k.i("q_in", "W") - k.i("q_out", "W"))
@contract("T01", "ThermalComponentMassless")
def massless(k):
    k.eq("residual vanishes exactly when heat in = heat out", k.res("T_object"), k.i("q_in", "W") - k.i("q_out", "W"))
@contract("T01", "CoolantReservoirRate")
def reservoir(k):
    k.eq("m dT/dt = mdot (T_in - T_out)", k.i("mass", "kg") * k.o("dTdt", "K/s"), k.i("mdot_coolant", "kg/s") * (k.i("T_in", "K") - k.i("T_out", "K")))
@contract("T01 T02", "ConstantSurfaceTemperatureColdPlate_NTU")
def coldplate(k):
    Ti, Ts, To, q = k.i("T_in", "K"), k.i("T_surface", "K"), k.o("T_out", "K"), k.o("q", "W")
    w, h, L, n, md = k.i("channel_width", "m"), k.i("channel_height", "m"), k.i("channel_length", "m"), k.i("n_parallel"), k.i("mdot_coolant", "kg/s")
    Cc = md * k.opt("specific_heat")
    if k.prop == "T01":
        k.eq("heat to the coolant = mdot cp (T_out - T_in)", q, Cc * (To - Ti))
        return
    A = 2 * (w + h) * L * n; dh = 2 * w * h / (w + h); hc = C(k.opt("nusselt")) * k.opt("fluid_k") / dh
    ntu = A * hc / Cc
    k.eq("effectiveness law 1 - exp(-NTU)", q, (1 - k.exp(-ntu)) * Cc * (Ts - Ti))
    between(k, "coolant leaves between inlet and surface temperature", To, Ti, Ts, 1 - k.exp(-ntu))
def between(k, label, x, a, b, f):
    """x lies between a and b: it is the point a + f (b - a) with f in [0, 1]"""
    k.eq(label + " (position)", x, a + f * (b - a)); k.le(label + " (not beyond the first)", C(0), f); k.le(label + " (not beyond the second)", f, C(1))
@contract("T01 T02", "MotorCoolingJacket")
def jacket(k):
    T, Ti, To, q = k.i("T", "K"), k.i("T_in", "K"), k.o("T_out", "K"), k.o("q", "W"); Cc = k.i("mdot_coolant", "kg/s") * k.opt("coolant_specific_heat")
    if k.prop == "T01":
        k.eq("heat to the coolant = mdot cp (T_out - T_in)", q, Cc * (To - Ti))
        k.eq("m cp dT/dt = heat in - heat out", k.i("motor_weight", "kg") * k.opt("motor_specific_heat") * k.o("dTdt", "K/s"), k.i("q_in", "W") - q)
        return
    hA = C(k.opt("case_cooling_coefficient")) / k.opt("case_area_coefficient") * k.i("power_rating", "W")
    k.eq("effectiveness law 1 - exp(-NTU)", q, (1 - k.exp(-hA / Cc)) * Cc * (T - Ti))
    between(k, "coolant leaves between inlet and motor temperature", To, Ti, T, 1 - k.exp(-hA / Cc))
@contract("T01 T02", "BandolierCoolingSystem")
def bandolier(k):
    cp = k.opt("coolant_specific_heat"); Cc = k.i("mdot_coolant", "kg/s") * cp; W = k.i("battery_weight", "kg") * k.opt("battery_weight_fraction")
    T, Ti, To, Ts, q = k.i("T_battery", "K"), k.i("T_in", "K"), k.o("T_out", "K"), k.o("T_surface", "K"), k.o("q", "W")
    if k.prop == "T01":
        k.eq("heat to the coolant = mdot cp (T_out - T_in)", q, Cc * (To - Ti))
        k.eq("cell mass x cp x dT/dt = heat in - heat to coolant", W * k.opt("cell_specific_heat") * k.o("dTdt", "K/s"), k.i("q_in", "W") - q)
        return
    ncell = W / k.opt("cell_mass"); nb = ncell / k.i("n_cpb") / 2; mb = k.i("mdot_coolant", "kg/s") / nb
    hconv = C(k.opt("nusselt")) * k.opt("fluid_k") / (2 * k.i("t_channel", "m"))
    A = 2 * C(k.opt("cell_height")) * k.i("n_cpb") * k.opt("cell_diameter")
    Kc = mb * cp * (1 - k.exp(-hconv * A / mb / cp)) / (2 * k.i("n_cpb")); Kr = 8 * PI * C(k.opt("cell_height")) * k.opt("cell_kr")
    k.eq("heat conducted out of the cells = heat convected to the coolant", Kr * (T - Ts), Kc * (Ts - Ti))
    k.eq("total convected heat", q, ncell * Kc * (Ts - Ti))
    k.eq("mean cell temperature is midway between core and surface", k.o("T_core", "K") + Ts, 2 * T)
    between(k, "surface between coolant inlet and cell temperature", Ts, Ti, T, 1 / (1 + Kc / Kr))
    between(k, "coolant leaves between inlet and cell temperature", To, Ti, T, (1 - k.exp(-hconv * A / mb / cp)) / (1 + Kc / Kr))
@contract("T01", "FlowSplit")
def split(k):
    md, A, B = k.i("mdot_in", "kg/s"), k.o("mdot_out_A", "kg/s"), k.o("mdot_out_B", "kg/s")
    k.eq("outflows sum to the inflow", A + B, md)
    k.eq("branch A takes its fraction", A, md * k.i("mdot_split_fraction"))
@contract("T01", "FlowCombine")
def combine(k):
    a, b = k.i("mdot_in_A", "kg/s"), k.i("mdot_in_B", "kg/s"); o = k.o("mdot_out", "kg/s")
    k.eq("mass conserved", o, a + b)
    k.eq("enthalpy conserved", o * k.o("T_out", "K"), a * k.i("T_in_A", "K") + b * k.i("T_in_B", "K"))
@contract("T01", "COPHeatPump")
def cophp(k):
    q1, q2, W = k.o("q_in_1", "W"), k.o("q_in_2", "W"), k.i("power_rating", "W")
    k.eq("heat rejected = heat absorbed + work", q2, -q1 + W)
    k.eq("heat absorbed = COP x work", -q1, k.i("COP") * W)
@contract("T01", "HeatPumpWeight")
def hpweight(k): k.eq("weight x specific power = rating", k.o("component_weight", "kg") * k.i("specific_power", "W/kg"), k.i("power_rating", "W"))
@contract("T01", "LinearSelector")
def lsel(k):
    b = k.i("bypass"); r = 1 - b
    k.eq("cold side blend", k.o("T_out_cold", "K"), b * k.i("T_in_hot", "K") + r * k.i("T_out_refrig_cold", "K"))
    k.eq("hot side blend", k.o("T_out_hot", "K"), b * k.i("T_in_cold", "K") + r * k.i("T_out_refrig_hot", "K"))
    k.eq("electrical load = active share of the rating over the motor efficiency", k.o("elec_load", "W") * C(0.95), r * k.i("power_rating", "W"))
@contract("T01", "SimplePump")
def pump(k):
    k.eq("electrical power x efficiency = volume flow x pressure rise", k.o("elec_load", "W") * k.opt("efficiency") * k.i("rho_coolant", "kg/m**3"), k.i("mdot_coolant", "kg/s") * k.i("delta_p", "Pa"))
    k.eq("sizing margin", k.o("component_sizing_margin") * k.i("power_rating", "W"), k.o("elec_load", "W"))
    k.eq("weight affine in rating", k.o("component_weight", "kg"), k.i("power_rating", "W") * k.opt("weight_inc") + k.opt("weight_base"))
PR = inputs_set(power_rating=(1000.0, "W"))
@contract("T01", "HeatPumpWithIntegratedCoolantLoop", group=[dict(outer=PR), dict(outer=PR, opts=dict(nonlinear_bypass_control=True), tag="nonlinear bypass"), dict(outer=PR, opts=dict(specific_heat=4100.0), tag="specific heat"), dict(outer=PR, free=("control.bypass_start", "control.bypass_end"), dom={"control.bypass_start": (0.0, 1.0), "control.bypass_end": (0.0, 1.0)}, tag="bypass schedule")], modes=[2, 3])
def hploop(k):
    cp = k.opt("specific_heat"); md, P, COP = k.i("mdot_coolant", "kg/s"), k.i("power_rating", "W"), k.o("COP")
    Th, Tc, b = k.i("T_in_hot", "K"), k.i("T_in_cold", "K"), k.o("bypass") if not k.opt("nonlinear_bypass_control") else k.i("bypass")
    hh, hc = k.v("hot_side.T_out", "K"), k.v("cold_side.T_out", "K")
    q1, q2 = "heat_pump.q_in_1", "heat_pump.q_in_2"
    k.eq("hot loop gains the rejected heat", md * cp * (hh - Th), k.fb(q2, "W")); k.eq("rejected heat", k.v(q2, "W"), (COP + 1) * P)
    k.eq("cold loop loses the absorbed heat", md * cp * (Tc - hc), -k.fb(q1, "W")); k.eq("absorbed heat", -k.v(q1, "W"), COP * P)
    k.eq("cold outlet", k.o("T_out_cold", "K"), b * Th + (1 - b) * hc)
    k.eq("hot outlet", k.o("T_out_hot", "K"), b * Tc + (1 - b) * hh)
    k.eq("electrical load", k.o("elec_load", "W") * C(0.95), (1 - b) * P)
    if k.cfg.free:
        s, e = k.i("control.bypass_start", at=0), k.i("control.bypass_end", at=0)
        for j in range(k.nn): k.eq("bypass runs from its start to its end value [%d]" % j, k.o("bypass", at=j), s + (e - s) * j / (k.nn - 1))
@contract("T01", "OutletTemperatures")
def outlet(k):
    q = k.i("heat_transfer", "W")
    k.eq("cold stream gains the heat", k.i("mdot_cold") * k.i("cp_cold") * (k.o("T_out_cold") - k.i("T_in_cold")), q)
    k.eq("hot stream loses the heat", k.i("mdot_hot") * k.i("cp_hot") * (k.i("T_in_hot") - k.o("T_out_hot")), q)

# ================================================================== T02
@contract("T02", "NTUMethod")
def ntum(k):
    Cc, Ch = k.i("mdot_cold") * k.i("cp_cold"), k.i("mdot_hot") * k.i("cp_hot"); mn, mx = k.min(Cc, Ch), k.max(Cc, Ch)
    k.eq("NTU = UA over the smaller capacity", k.o("NTU") * mn, k.i("UA_overall", "W/K"))
    k.eq("largest possible heat uses the smaller capacity", k.o("heat_max", "W"), mn * (k.i("T_in_hot") - k.i("T_in_cold")))
    k.eq("capacity ratio = smaller over larger", k.o("C_ratio") * mx, mn)
    k.le("capacity ratio at most one", k.o("C_ratio"), C(1))
@contract("T02", "CrossFlowNTUEffectiveness", dom={"C_ratio": (0.001, 1.0), "hard:C_ratio": (0, 1), "NTU": (0.01, 20.0)})
def xflow(k):
    e, n, c = k.o("effectiveness"), k.i("NTU"), k.i("C_ratio")
    k.eq("cross-flow correlation", e, 1 - k.exp(k.pow(n, C(0.22)) / c * (k.exp(-c * k.pow(n, C(0.78))) - 1)))
    k.le("effectiveness not negative", C(0), e); k.le("effectiveness at most one", e, C(1))
@contract("T02 T01", "NTUEffectivenessActualHeatTransfer")
def actual(k): k.eq("heat = effectiveness x largest possible heat", k.o("heat_transfer", "W"), k.i("effectiveness") * k.i("heat_max", "W"))
@contract("T02", "UAOverall")
def ua(k):
    R = C(0)
    for s in ("cold", "hot"):
        hA = k.i("heat_transfer_area_" + s) * k.i("eta_overall_" + s)
        R = R + 1 / (k.i("h_conv_" + s) * hA) + C(k.opt("fouling_factor_" + s)) / hA
    k.eq("1/UA = sum of the convective and fouling resistances", k.o("UA_overall", "W/K") * R, C(1))
@contract("T02", "FinEfficiency", dom={"hard:fin_area_ratio_cold": (0, 1), "hard:fin_area_ratio_hot": (0, 1)})
def fin(k):
    for s in ("cold", "hot"):
        ml2 = k.sqrt(2 * k.i("h_conv_" + s) / (k.i("material_k") * k.i("fin_thickness"))) * k.i("channel_height_" + s) / 2
        k.eq("overall efficiency = 1 - area ratio (1 - tanh(mL/2)/(mL/2)), %s side" % s, k.o("eta_overall_" + s), 1 - k.i("fin_area_ratio_" + s) * (1 - k.tanh(ml2) / ml2))
        k.by("fin efficiency between zero and one, %s side" % s, k.o("eta_overall_" + s), (1 - k.i("fin_area_ratio_" + s)) + k.i("fin_area_ratio_" + s) * k.tanhc(ml2), lo=C(0))
        k.by("fin efficiency at most one, %s side" % s, k.o("eta_overall_" + s), 1 - k.i("fin_area_ratio_" + s) * (1 - k.tanhc(ml2)), hi=C(1))
@contract("T02", "HydraulicDiameterReynoldsNumber")
def redh(k):
    for s in ("cold", "hot"):
        k.eq("Re = mdot dh / (A mu), %s side" % s, k.o("Re_dh_" + s) * k.i("xs_area_" + s) * k.i("mu_" + s), k.i("mdot_" + s) * k.i("dh_" + s))
@contract("T02", "NusseltFromColburnJ")
def nuss(k):
    for s in ("cold", "hot"):
        Pr = k.i("mu_" + s) * k.i("cp_" + s) / k.i("k_" + s)
        k.eq("Nu = j Re Pr^(1/3), %s side" % s, k.o("Nu_dh_" + s), k.i("j_" + s) * k.i("Re_dh_" + s) * k.pow(Pr, C(1) / 3))
@contract("T02", "ConvectiveCoefficient")
def hcv(k):
    for s in ("cold", "hot"): k.eq("h dh = Nu k, %s side" % s, k.o("h_conv_" + s) * k.i("dh_" + s), k.i("Nu_dh_" + s) * k.i("k_" + s))
@contract("T02", "PressureDrop")
def pdrop(k):
    for s, L in (("cold", "length_overall"), ("hot", "width_overall")):
        q = C(0.5) * (k.i("mdot_" + s) / k.i("xs_area_" + s)) ** 2 / k.i("rho_" + s); Kc, Ke = C(k.opt("Kc_" + s)), C(k.opt("Ke_" + s))
        k.eq("pressure change = -dynamic pressure (Kc + Ke + 4 L f / dh), %s side" % s, k.o("delta_p_" + s, "Pa"), -q * (Kc + Ke + 4 * k.i(L) * k.i("f_" + s) / k.i("dh_" + s)))
@contract("T02", "OffsetStripFinData")
def osfd(k):
    for s in ("cold", "hot"):
        a, d, g, Re = (k.i(n + s) for n in ("alpha_", "delta_", "gamma_", "Re_dh_"))
        P = lambda *e: k.pow(a, C(e[0])) * k.pow(d, C(e[1])) * k.pow(g, C(e[2]))
        k.eq("Colburn factor correlation (Manglik-Bergles), %s side" % s, k.o("j_" + s), C(0.6522) * k.pow(Re, C(-0.5403)) * P(-0.1541, 0.1499, -0.0678) * k.pow(1 + C(5.269e-5) * k.pow(Re, C(1.34)) * P(0.504, 0.456, -1.055), C(0.1)))
        k.eq("friction factor correlation (Manglik-Bergles), %s side" % s, k.o("f_" + s), C(9.6243) * k.pow(Re, C(-0.7422)) * P(-0.1856, 0.3053, -0.2659) * k.pow(1 + C(7.669e-8) * k.pow(Re, C(4.429)) * P(0.92, 3.767, 0.236), C(0.1)))
@contract("T02", "OffsetStripFinGeometry")
def osfg(k):
    tf, tp, tc, nt = k.i("fin_thickness"), k.i("plate_thickness"), k.i("case_thickness"), k.i("n_tall")
    wc, hc, lc, nw, nl = (k.i(n + "_cold") for n in ("channel_width", "channel_height", "fin_length", "n_wide", "n_long"))
    wh, hh, lh = (k.i(n + "_hot") for n in ("channel_width", "channel_height", "fin_length"))
    H, W, L = k.o("height_overall"), k.o("width_overall"), k.o("length_overall")
    k.eq("stack height", H, nt * (hc + hh + 2 * tf + 2 * tp)); k.eq("width", W, nw * (wc + tf)); k.eq("length", L, nl * lc)
    k.eq("frontal area = width x height", k.o("frontal_area"), W * H)
    nwh, nlh = L / (wh + tf), W / lh
    for s, w, h, l, n1, n2, face in (("cold", wc, hc, lc, nw, nl, W * H), ("hot", wh, hh, lh, nwh, nlh, L * H)):
        k.eq("flow area, %s" % s, k.o("xs_area_" + s), w * h * n1 * nt)
        k.eq("wetted area, %s" % s, k.o("heat_transfer_area_" + s), 2 * (w + h) * l * n2 * n1 * nt)
        k.eq("fin share of the area, %s" % s, k.o("fin_area_ratio_" + s) * (h + w), h)
        k.eq("contraction ratio, %s" % s, k.o("contraction_ratio_" + s) * face, k.o("xs_area_" + s))
        k.eq("alpha, %s" % s, k.o("alpha_" + s) * h, w); k.eq("delta, %s" % s, k.o("delta_" + s) * l, tf); k.eq("gamma, %s" % s, k.o("gamma_" + s) * w, tf)
    k.eq("hydraulic diameter, cold", k.o("dh_cold") * (2 * (wc * lc + hc * lc + tf * hc) + tf * wc), 4 * wc * hc * lc)
    k.eq("hydraulic diameter, hot", k.o("dh_hot") * (wh + hh), 2 * wh * hh)
    vol = 2 * L * W * tp * nt + (wc + hc + tf) * lc * nl * tf * nw * nt + (wh + hh + tf) * lh * nlh * tf * nwh * nt + 2 * tc * L * (H + W)
    k.eq("weight = density x metal volume", k.o("component_weight"), vol * k.i("material_rho"))
POSHX = {"*": (0.01, 5.0)}
@contract("T01 T02", "HXGroup", group=[dict(dom=POSHX)], modes=["sym", 1])
def hxgroup(k):
    q, dT = k.o("heat_transfer", "W"), k.i("T_in_hot") - k.i("T_in_cold")
    Cc, Ch = k.i("mdot_cold") * k.i("cp_cold"), k.i("mdot_hot") * k.i("cp_hot")
    if k.prop == "T01":
        k.eq("cold stream gains the transferred heat", Cc * (k.o("T_out_cold") - k.i("T_in_cold")), q)
        k.eq("hot stream loses the transferred heat", Ch * (k.i("T_in_hot") - k.o("T_out_hot")), q)
        return
    mn = k.ite(Cc < Ch, Cc, Ch)
    k.eq("heat = effectiveness x smaller capacity x inlet difference", q, k.o("effectiveness") * mn * dT)
    R = C(0)
    for s in ("cold", "hot"): R = R + 1 / k.o("h_conv_" + s) / k.o("heat_transfer_area_" + s) / k.o("eta_overall_" + s)
    k.eq("NTU x smaller capacity x total resistance = 1", k.o("NTU") * mn * R, C(1))
    for s in ("cold", "hot"):
        k.eq("Reynolds number, %s side" % s, k.o("Re_dh_" + s) * k.o("xs_area_" + s) * k.i("mu_" + s), k.i("mdot_" + s) * k.o("dh_" + s))
        L = k.o("length_overall" if s == "cold" else "width_overall")
        k.eq("pressure change, %s side" % s, k.o("delta_p_" + s), -C(0.5) * (k.i("mdot_" + s) / k.o("xs_area_" + s)) ** 2 / k.i("rho_" + s) * (C(0.3) - C(0.1) + 4 * L * k.o("f_" + s) / k.o("dh_" + s)))
@contract("T02", "SimpleHose")
def hose(k):
    d, L, rho, mu, md = k.i("hose_diameter"), k.i("hose_length"), k.i("rho_coolant"), k.i("mu_coolant"), k.i("mdot_coolant")
    A = PI * d ** 2 / 4; U = md / rho / A; Re = rho * U * d / mu
    k.eq("Darcy-Weisbach drop with the Blasius friction factor", k.o("delta_p"), C(0.3164) * k.pow(Re, C(-0.25)) * L / d * rho * U ** 2 / 2)
    t = k.i("hose_design_pressure") * d / (2 * C(k.opt("hose_operating_stress")))
    if True:
        k.eq("weight = wall annulus + coolant fill", k.o("component_weight"), PI * ((d + 2 * t) ** 2 - d ** 2) / 4 * k.opt("hose_density") * L + A * k.i("rho_coolant", at=0) * L)
@contract("T02", "HeatPipeThermalResistance")
def hpres(k):
    d, t = k.i("inner_diam"), k.i("wall_thickness"); R = C(0)
    for part in ("evap", "cond"):
        L2 = 2 * PI * k.opt("length_" + part)
        R = R + k.log(d / (d - 2 * C(k.opt("wick_thickness")))) / (L2 * k.opt("wick_conduct")) + k.log((d + 2 * t) / d) / (L2 * k.opt("wall_conduct"))
    if k.opt("vapor_resistance"): R = R + k.i("delta_T") / k.i("q")
    k.eq("total = wick + wall at both ends (+ vapor)", k.o("thermal_resistance", "K/W"), R)
@contract("T02", "HeatPipeVaporTempDrop")
def hpdrop(k):
    d, L, rho = k.i("inner_diam"), k.i("length"), k.i("rho_vapor", "kg/m**3"); A = PI * d ** 2 / 4
    U = k.i("q") / k.opt("latent_heat") / rho / A; mu = k.i("temp", "degC") * k.opt("visc_inc") + k.opt("visc_base")
    dp = C(0.3164) * k.pow(rho * U * d / mu, C(-0.25)) * L / d * rho * U ** 2 / 2
    k.eq("saturation temperature drop of the frictional pressure drop", k.o("delta_T", "K"), dp * C(35.976) / k.i("vapor_pressure", "Pa"))
@contract("T02", "HeatPipeWeight")
def hpw(k):
    p, d, L, S = k.i("design_pressure", "MPa"), k.i("inner_diam"), k.i("length"), C(k.opt("yield_stress")) / k.opt("stress_safety_factor")
    k.eq("wall thickness formula", k.o("wall_thickness") * S, p * d)
    k.eq("weight = thin-wall volume x density", k.o("heat_pipe_weight"), PI * d * L * k.o("wall_thickness") * k.opt("rho_wall"))
@contract("T02", "QMaxAnalyticalPart")
def qmax(k):
    d, T, rl, rv = k.i("inner_diam"), k.i("temp", "degC"), k.i("rho_liquid"), k.i("rho_vapor")
    g = C(9.80665); sig = C(k.opt("surface_tension_base")) + k.opt("surface_tension_incr") * T
    bo = d * k.sqrt(g / sig * (rl - rv)); K = k.pow(rl / rv, C(0.14)) * k.tanh(k.pow(bo, C(0.25))) ** 2
    c = k.sin(PI / 2 - C(k.opt("theta")) * PI / 180)
    k.eq("flooding limit (Faghri)", k.o("q_max", "W"), K * PI * d ** 2 / 4 * k.opt("latent_heat") * k.pow(g * c * sig * (rl - rv), C(0.25)) / (k.pow(rl, C(-0.25)) + k.pow(rv, C(-0.25))) ** 2)
HPOUT = dict(T_evap=(60.0, "degC"), inner_diam=(0.02, "m"), q=(800.0, "W"), length=(1.0, "m"))
@contract("T01 T02", "HeatPipe", group=[dict(outer=inputs_set(**HPOUT)), dict(opts=dict(length_evap=0.3, length_cond=0.5, wall_conduct=150.0, wick_thickness=1e-3, wick_conduct=6.0, yield_stress=400.0, rho_wall=2700.0, stress_safety_factor=3.0, theta=20.0), outer=inputs_set(**HPOUT), tag="other pipe")], modes=[3])
def heatpipe(k):
    n, q = k.i("n_pipes"), k.i("q", "W"); q1 = q / n
    if k.prop == "T01":
        k.eq("condenser temperature = evaporator temperature - heat per pipe x resistance", k.o("T_cond", "K"), k.i("T_evap", "K") - q1 * k.v("resistance.thermal_resistance", "K/W"))
        return
    d, L, T = k.i("inner_diam", "m"), k.i("length", "m"), k.i("T_evap", "degC")
    k.eq("total weight = pipes x weight of one", k.o("weight"), n * k.v("q_max_calc.heat_pipe_weight"))
    k.eq("total limit = pipes x limit of one", k.o("q_max"), n * k.v("q_max_calc.q_max"))
    k.eq("the resistance uses the sized wall", k.v("resistance.wall_thickness"), k.v("q_max_calc.wall_thickness"))
    pipe_limit(k, "q_max_calc.", d, T)
    w = pipe_wall(k, "q_max_calc.", d, L)
    rv, pv = k.v("ammonia_surrogate.rho_vapor", "kg/m**3"), k.v("ammonia_surrogate.vapor_pressure", "Pa")
    U = q1 / C(1371.2e3) / rv / (PI * d ** 2 / 4); mu = T * C(4e-8) + C(9e-6)
    dT = C(0.3164) * k.pow(rv * U * d / mu, C(-0.25)) * L / d * rv * U ** 2 / 2 * C(35.976) / pv
    k.eq("vapor temperature drop of the heat of one pipe", k.v("resistance.delta_T", "K"), dT)
    R = C(0)
    for part in ("evap", "cond"):
        L2 = 2 * PI * k.opt("length_" + part)
        R = R + k.log(d / (d - 2 * C(k.opt("wick_thickness")))) / (L2 * k.opt("wick_conduct")) + k.log((d + 2 * k.v("q_max_calc.wall_thickness", "m")) / d) / (L2 * k.opt("wall_conduct"))
    k.eq("resistance = wick + wall at both ends + vapor", k.v("resistance.thermal_resistance", "K/W"), R + k.v("resistance.delta_T", "K") / q1)
def pipe_limit(k, pre, d, T):
    """the flooding limit (Faghri) of one pipe at the ammonia densities of its temperature"""
    rl, rv = k.v(pre + "ammonia_current.rho_liquid", "kg/m**3"), k.v(pre + "ammonia_current.rho_vapor", "kg/m**3"); g = C(9.80665)
    sig = C(0.026) - C(2.3e-4) * T; bo = d * k.sqrt(g / sig * (rl - rv)); K = k.pow(rl / rv, C(0.14)) * k.tanh(k.pow(bo, C(0.25))) ** 2
    k.eq("flooding limit of one pipe", k.v(pre + "q_max", "W"), K * PI * d ** 2 / 4 * C(1371.2e3) * k.pow(g * k.sin(PI / 2 - C(k.opt("theta")) * PI / 180) * sig * (rl - rv), C(0.25)) / (k.pow(rl, C(-0.25)) + k.pow(rv, C(-0.25))) ** 2)
def pipe_wall(k, pre, d, L):
    w = k.v(pre + "wall_thickness", "m")
    k.eq("wall carries the design pressure at the safety factor", w * C(k.opt("yield_stress")) / k.opt("stress_safety_factor"), k.v(pre + "design_pressure", "MPa") * d)
    k.eq("one pipe weighs its thin wall", k.v(pre + "heat_pipe_weight", "kg"), PI * d * L * w * k.opt("rho_wall"))
    return w
@contract("T02", "QMaxHeatPipe", group=[dict(outer=inputs_set(temp=(60.0, "degC"), inner_diam=(0.02, "m"), length=(1.0, "m"))), dict(opts=dict(yield_stress=400.0, rho_wall=2700.0, stress_safety_factor=3.0, theta=20.0), outer=inputs_set(temp=(60.0, "degC"), inner_diam=(0.02, "m"), length=(1.0, "m")), tag="other pipe")], modes=[3])
def qmaxpipe(k): pipe_limit(k, "", k.i("inner_diam", "m"), k.i("temp", "degC")); pipe_wall(k, "", k.i("inner_diam", "m"), k.i("length", "m"))

# ================================================================== T03
@contract("T03", "TemperatureIsentropic TotalTemperatureIsentropic PressureIsentropic TotalPressureIsentropic")
def isen(k):
    g = C(k.opt("gamma")); M = k.i("M"); f = 1 + (g - 1) / 2 * M ** 2
    n = k.cls.__name__
    T, Tt = (k.o("T"), k.i("Tt")) if n == "TemperatureIsentropic" else (k.i("T"), k.o("Tt")) if n == "TotalTemperatureIsentropic" else (None, None)
    if T is not None: k.eq("Tt / T = 1 + (g-1)/2 M^2", Tt, T * f); return
    p, pt = (k.o("p"), k.i("pt")) if n == "PressureIsentropic" else (k.i("p"), k.o("pt"))
    k.eq("pt / p = (1 + (g-1)/2 M^2)^(g/(g-1))", pt, p * k.pow(f, g / (g - 1)))
@contract("T03", "DensityIdealGas")
def ideal(k): k.eq("p = rho R T", k.i("p", "Pa"), k.o("rho", "kg/m**3") * k.opt("R") * k.i("T", "K"))
@contract("T03", "SpeedOfSound")
def sos(k):
    T, a = k.i("T", "K"), k.o("a", "m/s")
    if k.when(T >= C(0)): k.eq("a^2 = gamma R T", a * a, C(k.opt("gamma")) * k.opt("R") * T); k.le("speed of sound not negative", C(0), a)
@contract("T03", "MachNumberfromSpeed")
def machs(k): k.eq("M a = U", k.o("M") * k.i("a", "m/s"), k.i("Utrue", "m/s"))
@contract("T03", "HeatAdditionPressureLoss")
def heatadd(k):
    md = k.i("mdot")
    k.eq("total temperature rises by heat / (mdot cp)", (k.o("Tt_out") - k.i("Tt_in")) * md * k.i("cp"), k.i("heat_in"))
    q = C(0.5) * md ** 2 / k.i("rho") / k.i("area") ** 2
    k.eq("total pressure = recovery x inlet - loss factor x dynamic pressure + added pressure", k.o("pt_out"), k.i("pt_in") * k.i("pressure_recovery") - q * k.i("dynamic_pressure_loss_factor") + k.i("delta_p"))
@contract("T03", "NozzlePressureLoss")
def nozloss(k):
    q = C(0.5) * k.i("mdot") ** 2 / k.i("rho") / k.i("area") ** 2
    k.eq("total pressure falls by loss factor x dynamic pressure", k.o("pt"), k.i("pt_in") - q * k.i("dynamic_pressure_loss_factor"))
@contract("T03", "MassFlow")
def mflow(k): k.eq("mdot = rho a M A", k.o("mdot"), k.i("rho") * k.i("a") * k.i("M") * k.i("area"))
@contract("T03", "MachNumberDuct")
def machd(k): k.eq("residual vanishes exactly when mdot = rho a M A", k.res("M"), k.i("mdot") - k.i("rho") * k.i("a") * k.v("M") * k.i("area"))
@contract("T03", "DuctExitPressureRatioImplicit")
def npr(k): k.eq("residual vanishes exactly when NPR = p_exit / pt", k.res("nozzle_pressure_ratio") * k.i("pt"), k.v("nozzle_pressure_ratio") * k.i("pt") - k.i("p_exit"))
@contract("T03", "FlowMatcher")
def fmatch(k): k.eq("residual vanishes exactly when the flows agree", k.res("mdot"), k.i("mdot_actual") - k.v("mdot"))
@contract("T03", "DuctExitMachNumber", dom={"nozzle_pressure_ratio": (0.05, 1.0)})
def exitmach(k):
    g = C(k.opt("gamma")); r = k.i("nozzle_pressure_ratio"); crit = k.pow(2 / (g + 1), g / (g - 1))
    if k.when(r <= crit): k.eq("choked at or below the critical pressure ratio", k.o("M"), C(1))
    else: k.eq("isentropic expansion to the pressure ratio above it", k.pow(r, (1 - g) / g), 1 + (g - 1) / 2 * k.o("M") ** 2)
@contract("T03", "NetForce")
def netf(k):
    md, A, rho, cg = k.i("mdot"), k.i("area_nozzle"), k.i("rho_nozzle"), k.opt("cfg")
    k.eq("momentum + pressure balance", k.o("F_net", "N"), cg * (md * md / (rho * A) + A * (k.i("p_nozzle") - k.i("p_inf"))) - md * k.i("Utrue_inf"))
@contract("T03", "ExplicitIncompressibleDuct")
def incomp(k):
    U, rho, A, md, dp = k.i("fltcond|Utrue"), k.i("fltcond|rho"), k.i("area_nozzle"), k.o("mdot"), k.i("delta_p_hex"); inner = rho ** 2 * U ** 2 + 2 * rho * dp
    if k.when(inner >= C(0)):
        if k.when(A >= C(0)): k.eq("Bernoulli with losses", (md / A) ** 2 * (1 + C(k.opt("static_pressure_loss_factor"))), inner)
    k.eq("drag = momentum deficit", k.o("drag"), md * U - C(k.opt("gross_thrust_factor")) * md ** 2 / (rho * A))
@contract("T03", "Inlet", group=[dict()], modes=["sym", 1])
def inlet(k):
    T, p, U, M = k.i("T"), k.i("p"), k.i("Utrue"), k.o("M"); g, R = C(1.4), C(287.05)
    if k.when(T >= C(0)):
        k.eq("M^2 gamma R T = U^2", M ** 2 * g * R * T, U ** 2)
    f = 1 + (g - 1) / 2 * M ** 2
    k.eq("free-stream total temperature", k.o("Tt"), T * f)
    k.eq("total pressure = ram recovery x free-stream total", k.o("pt"), k.v("totalpressure.eta_ram") * p * k.pow(f, g / (g - 1)))
@contract("T03", "DuctStation", group=[dict()], modes=["sym", 1])
def station(k):
    g, R = C(1.4), C(287.05); M = k.fb("M"); f = 1 + (g - 1) / 2 * M ** 2
    k.eq("static temperature", k.o("T") * f, k.o("Tt_out")); k.eq("static pressure", k.o("p") * k.pow(f, g / (g - 1)), k.o("pt_out"))
    k.eq("ideal gas", k.o("p"), k.o("rho") * R * k.o("T"))
    k.eq("total temperature rise", (k.o("Tt_out") - k.i("Tt_in")) * k.i("mdot") * k.i("cp"), k.i("heat_in"))
    k.eq("total pressure change", k.o("pt_out"), k.i("pt_in") * k.i("pressure_recovery") - C(0.5) * k.i("mdot") ** 2 / k.fb("rho") / k.i("area") ** 2 * k.i("dynamic_pressure_loss_factor") + k.i("delta_p"))
@contract("T03", "OutletNozzle", group=[dict()], modes=["sym", 1])
def outnoz(k):
    g, R = C(1.4), C(287.05); M = k.o("M"); f = 1 + (g - 1) / 2 * M ** 2; r = k.o("nozzle_pressure_ratio"); crit = k.pow(2 / (g + 1), g / (g - 1))
    if k.when(r <= crit * C(1 - 1e-9)): k.eq("choked", M, C(1))
    elif k.when(r >= crit * C(1 + 1e-9)): k.eq("isentropic expansion", k.pow(r, (1 - g) / g), f)
    k.eq("exit static temperature", k.o("T") * f, k.i("Tt")); k.eq("exit static pressure", k.o("p") * k.pow(f, g / (g - 1)), k.o("pt"))
    k.eq("exit density", k.o("p"), k.o("rho") * R * k.o("T")); k.eq("exit mass flow", k.o("mdot_actual"), k.o("rho") * k.o("a") * M * k.i("area"))

@contract("T01", "LiquidCooledComp", group=[dict(), dict(opts=dict(specific_heat_object=500.0, specific_heat_coolant=4000.0), tag="options")], modes=[3, 5])
def lcomp(k):
    q, rate = k.fb("hex.q", "W"), k.o("base.dTdt", "K/s")
    k.eq("m cp dT/dt = heat in - heat to the coolant", k.i("mass", "kg") * k.opt("specific_heat_object") * rate, k.i("q_in", "W") - q)
    k.eq("heat to the coolant = mdot cp (T_out - T_in)", k.o("hex.q", "W"), k.i("mdot_coolant", "kg/s") * k.opt("specific_heat_coolant") * (k.o("T_out", "K") - k.i("T_in", "K")))
    k.eq("the cold plate sits on this component", k.v("hex.T_surface", "K") if k.has("hex.T_surface") else k.o("T", "K"), k.o("T", "K"))
    history(k, "temperature", "T", k.i("T_initial", "K"), "base.dTdt", k.i("duration", "s"), "K", "K/s"); final(k, "temperature", "T_final", "T", "K")
@contract("T01", "LiquidCooledComp", group=[dict(opts=dict(quasi_steady=True), tag="steady")], modes=[3])
def lcompsteady(k):
    k.eq("residual: heat in = heat to the coolant", k.res("T"), k.i("q_in", "W") - k.fb("hex.q", "W"))
    k.eq("heat to the coolant = mdot cp (T_out - T_in)", k.o("hex.q", "W"), k.i("mdot_coolant", "kg/s") * k.opt("specific_heat_coolant") * (k.o("T_out", "K") - k.i("T_in", "K")))
@contract("T01", "CoolantReservoir", group=[dict()], modes=[3, 5])
def lreservoir(k):
    k.eq("m dT/dt = mdot (T_in - T_out)", k.i("mass", "kg") * k.o("rate.dTdt", "K/s"), k.i("mdot_coolant", "kg/s") * (k.i("T_in", "K") - k.fb("T_out", "K")))
    history(k, "coolant temperature", "T_out", k.i("T_initial", "K"), "rate.dTdt", k.i("duration", "s"), "K", "K/s"); final(k, "coolant temperature", "T_final", "T_out", "K")
LM = dict(motor_specific_heat=500.0, coolant_specific_heat=4000.0, case_cooling_coefficient=900.0)
@contract("T01", "LiquidCooledMotor", group=[dict(), dict(opts=LM, tag="options")], modes=[3, 5])
def lmotor(k):
    motor_balance(k, k.fb("T", "K"))
    history(k, "motor temperature", "T", k.i("T_initial", "K"), "dTdt", k.i("duration", "s"), "K", "K/s"); final(k, "motor temperature", "T_final", "T", "K")
def motor_balance(k, T):
    q = k.o("hex.q", "W")
    k.eq("m cp dT/dt = heat in - heat to the coolant", k.i("motor_weight", "kg") * k.opt("motor_specific_heat") * k.o("dTdt", "K/s"), k.i("q_in", "W") - q)
    k.eq("heat to the coolant = mdot cp (T_out - T_in)", q, k.i("mdot_coolant", "kg/s") * k.opt("coolant_specific_heat") * (k.o("T_out", "K") - k.i("T_in", "K")))
    Cc = k.i("mdot_coolant", "kg/s") * k.opt("coolant_specific_heat"); hA = C(k.opt("case_cooling_coefficient")) / C(650000) * k.i("power_rating", "W")
    k.eq("cooling law at the motor's own temperature", q, (1 - k.exp(-hA / Cc)) * Cc * (T - k.i("T_in", "K")))
@contract("T01", "LiquidCooledMotor", group=[dict(opts=dict(LM, quasi_steady=True), tag="steady")], modes=[3])
def lmotorsteady(k):
    motor_balance(k, k.fb("T", "K"))
    k.eq("the balance drives dT/dt to zero", k.v("thermal_bal.dTdt", "K/s") if k.has("thermal_bal.dTdt") else k.o("dTdt", "K/s"), k.o("dTdt", "K/s"))
LB = dict(coolant_specific_heat=4000.0, cell_specific_heat=900.0, battery_weight_fraction=0.5, fluid_k=0.5, nusselt=7.0, cell_kr=0.4, cell_diameter=0.018, cell_height=0.06, cell_mass=0.05)
def battery_balance(k, T):
    q = k.o("hex.q", "W")
    k.eq("cell mass x cp x dT/dt = heat in - heat to the coolant", k.i("battery_weight", "kg") * k.opt("battery_weight_fraction") * k.opt("cell_specific_heat") * k.o("dTdt", "K/s"), k.i("q_in", "W") - q)
    k.eq("heat to the coolant = mdot cp (T_out - T_in)", q, k.i("mdot_coolant", "kg/s") * k.opt("coolant_specific_heat") * (k.o("T_out", "K") - k.i("T_in", "K")))
    k.eq("mean cell temperature is midway between core and surface", k.o("T_core", "K") + k.o("T_surface", "K"), 2 * T)
    ncell = k.i("battery_weight", "kg") * k.opt("battery_weight_fraction") / k.opt("cell_mass")
    n = k.i("n_cpb"); Cb = k.i("mdot_coolant", "kg/s") * k.opt("coolant_specific_heat") * 2 * n / ncell          # per bandolier
    hA = C(k.opt("nusselt")) * k.opt("fluid_k") / (2 * k.i("t_channel", "m")) * 2 * C(k.opt("cell_height")) * n * k.opt("cell_diameter")
    k.eq("heat convected to the coolant", q, ncell * Cb * (1 - k.exp(-hA / Cb)) / (2 * n) * (k.o("T_surface", "K") - k.i("T_in", "K")))
    k.eq("heat conducted out of all cells", q, ncell * 8 * PI * C(k.opt("cell_height")) * k.opt("cell_kr") * (T - k.o("T_surface", "K")))
@contract("T01", "LiquidCooledBattery", group=[dict(), dict(opts=LB, tag="options")], modes=[3, 5])
def lbattery(k):
    battery_balance(k, k.fb("T", "K"))
    history(k, "cell temperature", "T", k.i("T_initial", "K"), "dTdt", k.i("duration", "s"), "K", "K/s"); final(k, "cell temperature", "T_final", "T", "K")
@contract("T01", "LiquidCooledBattery", group=[dict(opts=dict(LB, quasi_steady=True), tag="steady")], modes=[3])
def lbatterysteady(k): battery_balance(k, k.fb("T", "K"))
@contract("T01", "COPExplicit", dom={"T_c": (250.0, 320.0), "T_h": (321.0, 400.0), "hard:T_h": (200.0, 500.0), "eff_factor": (0.1, 0.9), "hard:eff_factor": (0.0, 1.0)})
def cop(k):
    d = k.i("T_h", "K") - k.i("T_c", "K"); b = C(10)
    a = k.i("eff_factor") * k.i("T_c", "K") / d * k.tanh(d) + (1 - k.tanh(d + 3)) / 2 * 10
    w, v = k.exp(C("-1.5") * a), k.exp(C("-1.5") * b)
    between(k, "coefficient of performance between the efficiency-scaled Carnot value and its cap", k.o("COP"), a, b, v / (w + v))

DUCT = {"p_inf": (5e4, 1e5), "T_inf": (220.0, 310.0), "Utrue": (30.0, 90.0), "inlet.totalpressure.eta_ram": (0.9, 1.0), "nozzle.dynamic_pressure_loss_factor": (0.2, 1.0), "sta1.dynamic_pressure_loss_factor": (0.2, 1.0), "sta2.dynamic_pressure_loss_factor": (0.0, 1.0), "sta3.dynamic_pressure_loss_factor": (0.0, 1.0), "state:mdot": (0.1, 1.0),
        "state:sta1.M": (0.05, 0.4), "state:sta2.M": (0.05, 0.4), "state:sta3.M": (0.05, 0.4), "state:nozzle.nozzle_pressure_ratio": (0.6, 0.95), "area_2": (0.05, 0.2), "area_3": (0.05, 0.2), "sta3.delta_p": (-500.0, 0.0), "sta3.heat_in": (100.0, 2e4), "T_in_hot": (315.0, 370.0), "hard:sta3.delta_p": (-1e5, 1e5), "hard:sta2.dynamic_pressure_loss_factor": (-1, 1), "hard:sta3.dynamic_pressure_loss_factor": (-1, 1)}
def duct(k, q_station3):
    """the whole ram-air duct at a solved operating point: continuity, pressure and energy bookkeeping from station to station"""
    md = k.fb("mdot", "kg/s"); cp = C("1002.93")
    k.eq("solver residual: mass flow in = mass flow the nozzle passes", k.res("mdot"), k.fb("mdot_actual", "kg/s") - md)
    for a in ("sta1", "sta2", "sta3"):
        k.eq(a + ": same mass flow", k.v(a + ".mdot", "kg/s") if k.has(a + ".mdot") else md, md)
        k.eq(a + ": ideal gas", k.o(a + ".p"), k.o(a + ".rho") * C("287.05") * k.o(a + ".T"))
    k.eq("inlet feeds station 1 (total temperature)", k.v("sta1.Tt_in"), k.o("inlet.Tt")); k.eq("inlet feeds station 1 (total pressure)", k.v("sta1.pt_in"), k.o("inlet.pt"))
    k.eq("no heat before the exchanger", k.o("sta2.Tt_out"), k.o("inlet.Tt"))
    k.eq("no loss before the exchanger except the stations' dynamic-pressure factor", k.o("sta1.pt_out"), k.o("inlet.pt"))
    k.eq("heat added at station 3 heats the air", md * cp * (k.o("sta3.Tt_out") - k.o("sta2.Tt_out")), q_station3)
    k.eq("nozzle takes station 3's total temperature", k.v("nozzle.Tt"), k.o("sta3.Tt_out")); k.eq("nozzle takes station 3's total pressure", k.v("nozzle.pt_in"), k.o("sta3.pt_out"))
    k.eq("net force: momentum and pressure balance", k.o("force.F_net", "N"), C(k.opt("cfg")) * (md * md / (k.v("force.rho_nozzle") * k.v("area_nozzle", "m**2")) + k.v("area_nozzle", "m**2") * (k.v("force.p_nozzle") - k.i("p_inf"))) - md * k.i("Utrue"))
    k.eq("net force uses the nozzle's exit pressure", k.v("force.p_nozzle"), k.o("nozzle.p")); k.eq("net force uses the nozzle's exit density", k.v("force.rho_nozzle"), k.o("nozzle.rho"))
@contract("T03", "ImplicitCompressibleDuct", group=[dict(dom=DUCT, opts=dict(cfg=0.97))], modes=[1])
def icduct(k):
    q = k.o("hx.heat_transfer", "W"); duct(k, q)
    k.eq("exchanger: cold stream is the duct's air (flow)", k.v("hx.mdot_cold", "kg/s") if k.has("hx.mdot_cold") else k.fb("mdot"), k.fb("mdot"))
    k.eq("exchanger: cold inlet temperature", k.v("hx.T_in_cold"), k.o("sta2.T")); k.eq("exchanger: cold density", k.v("hx.rho_cold"), k.o("sta2.rho"))
    k.eq("hot stream loses the transferred heat", k.i("mdot_hot") * k.v("hx.cp_hot") * (k.i("T_in_hot") - k.o("T_out_hot")), q)
    k.eq("exchanger pressure change enters station 3", k.v("sta3.delta_p"), k.o("hx.delta_p_cold"))
    k.eq("stations 2 and 3 have the exchanger's frontal area", k.v("area_3", "m**2"), k.o("hx.frontal_area", "m**2"))
    k.eq("stations 2 and 3 have the exchanger's frontal area (2)", k.v("area_2", "m**2"), k.o("hx.frontal_area", "m**2"))
@contract("T03", "ImplicitCompressibleDuct_ExternalHX", group=[dict(dom=DUCT, opts=dict(cfg=0.97))], modes=[2])
def icductx(k): duct(k, k.i("sta3.heat_in", "W"))
