"""E01 power and mass balance of propulsion components, E02 battery bookkeeping"""
from ..contract import contract
from ..group import GCfg
from ..terms import *
from .. import configs
from .common import history, final

@contract("E01", "SimpleMotor")
def motor(k):
    thr, P = k.i("throttle"), k.i("elec_power_rating", "W")
    k.eq("power in = shaft power out + heat", k.o("elec_load", "W"), k.o("shaft_power_out", "W") + k.o("heat_out", "W"))
    k.eq("electrical load = throttle x rating", k.o("elec_load", "W"), thr * P)
    k.eq("shaft power = efficiency x load", k.o("shaft_power_out", "W"), thr * P * k.opt("efficiency"))
    k.eq("sizing margin", k.o("component_sizing_margin"), k.o("elec_load", "W") / P)
    affine(k, "elec_power_rating")
def affine(k, rating, unit="W"):
    k.eq("cost affine in rating", k.o("component_cost", "USD"), k.i(rating, unit) * k.opt("cost_inc") + k.opt("cost_base"))
    if k.has("component_weight"): k.eq("weight affine in rating", k.o("component_weight", "kg"), k.i(rating, unit) * k.opt("weight_inc") + k.opt("weight_base"))

@contract("E01", "SimpleGenerator")
def generator(k):
    Pin = k.i("shaft_power_in", "W")
    k.eq("power in = electrical power out + heat", Pin, k.o("elec_power_out", "W") + k.o("heat_out", "W"))
    k.eq("efficiency", k.o("elec_power_out", "W"), k.opt("efficiency") * Pin)
    k.eq("sizing margin = power / rating", k.o("component_sizing_margin"), k.o("elec_power_out", "W") / k.i("elec_power_rating", "W"))
    affine(k, "elec_power_rating")

@contract("E01", "SimpleTurboshaft")
def turboshaft(k):
    P = k.i("throttle") * k.i("shaft_power_rating", "W")
    k.eq("shaft power = throttle x rating", k.o("shaft_power_out", "W"), P)
    k.eq("fuel flow = power x psfc", k.o("fuel_flow", "kg/s"), k.o("shaft_power_out", "W") * k.opt("psfc"))
    k.eq("sizing margin", k.o("component_sizing_margin"), k.o("shaft_power_out", "W") / k.i("shaft_power_rating", "W"))
    affine(k, "shaft_power_rating")

@contract("E01", "PowerSplit")
def split(k):
    Pin, A, B, H = k.i("power_in", "W"), k.o("power_out_A", "W"), k.o("power_out_B", "W"), k.o("heat_out", "W"); eta = k.opt("efficiency")
    k.eq("outputs sum to the input after the efficiency loss", A + B, Pin * eta)
    k.eq("input = outputs + heat", Pin, A + B + H)
    if k.opt("rule") == "fraction": k.eq("A takes its fraction", A, k.i("power_split_fraction") * Pin * eta)
    else:
        amt = k.i("power_split_amount", "W")
        k.eq("A takes the amount asked for, at most everything", A, eta * k.min(amt, Pin))
    k.eq("sizing margin = power / rating", k.o("component_sizing_margin"), Pin / k.i("power_rating", "W"))
    affine(k, "power_rating")

# ------------------------------------------------------------------ propellers
@contract("E01", "PropCoefficients")
def propcoef(k):
    n = k.i("rpm", "1/s") if False else k.i("rpm", "rpm") / 60
    rho, D = k.i("fltcond|rho", "kg/m**3"), k.i("diameter", "m")
    k.eq("power coefficient", k.o("cp") * rho * n ** 3 * D ** 5, k.i("shaft_power_in", "W"))
    k.eq("advance ratio", k.o("J") * n * D, k.i("fltcond|Utrue", "m/s"))
    k.eq("tip speed", k.o("prop_Vtip", "raw"), PI * n * D)
@contract("E01", "ThrustCalc")
def thrust(k):
    n = k.i("rpm", "rpm") / 60; J, cp, eta, D, rho, T = k.i("J"), k.i("cp"), k.i("eta_prop"), k.i("diameter", "m"), k.i("fltcond|rho", "kg/m**3"), k.o("thrust", "N")
    P = cp * rho * n ** 3 * D ** 5
    if k.when(J >= C(0.2)): k.eq("thrust x airspeed = efficiency x shaft power (dynamic)", T * (J * n * D), eta * P)
    elif k.when(J <= C(0.1)): k.eq("static thrust coefficient", T, k.i("ct_over_cp") * cp * rho * n ** 2 * D ** 4)
    else:
        w = (J - C(0.1)) / C(0.1)
        k.eq("linear blend between static and dynamic thrust", T, ((1 - w) * k.i("ct_over_cp") * cp + w * cp * eta / J) * rho * n ** 2 * D ** 4)
@contract("E01", "WeightCalc")
def propweight(k):
    k.eq("propeller weight (Roskam 6.14)", k.o("component_weight", "lb"), C(0.108) * (k.i("diameter", "ft") * k.i("power_rating", "hp") * C(k.opt("num_blades")) ** C(0.5)) ** C(0.782))

# ------------------------------------------------------------------ propulsion groups
PSFC = C(0.6 * 1.68965774e-7)       # the turboshaft's default, 0.6 lb/hp/h
PROPDOM = {"fltcond|Utrue": (10.0, 150.0), "fltcond|rho": (0.4, 1.3), "rpm": (1500.0, 3000.0), "prop1.rpm": (1500.0, 3000.0), "prop2.rpm": (1500.0, 3000.0), "throttle": (0.1, 1.0), "motor1.throttle": (0.1, 1.0), "eng1.throttle": (0.1, 1.0), "propulsor_active": (0.0, 1.0)}
def DIAM(m, g, nn):
    m.add_subsystem("g", g, promotes=["*"]); m.set_input_defaults("diameter", 2.5, units="m")
def propeller(k, pre, P, D, blades, label, rating):
    """a propeller fed with shaft power P: coefficients, thrust x airspeed = efficiency x power (above J = 0.2), weight"""
    k_ = lambda n: pre + n
    n = k.v(k_("rpm"), "rpm") / 60; rho, V = k.i("fltcond|rho", "kg/m**3"), k.i("fltcond|Utrue", "m/s"); T, J = k.o(k_("thrust") if pre and k.has(k_("thrust")) else "thrust", "N"), k.o(k_("J"))
    k.eq(label + "absorbs the power it is given", k.o(k_("cp")) * rho * n ** 3 * D ** 5, P)
    k.eq(label + "advance ratio", J * n * D, V)
    m = "propmap." if not pre else pre + "propmap."; sm = "staticpropmap." if not pre else pre + "staticpropmap."
    if k.when(V >= C(0.2) * n * D): k.eq(label + "thrust x airspeed = efficiency x shaft power", T * V, k.o(k_("eta_prop")) * P)
    elif k.when(V <= C(0.1) * n * D): k.eq(label + "static thrust", T * n * D, k.o(k_("ct_over_cp")) * P)
    k.eq(label + "map is read at this operating point (cp)", k.v(m + "cp"), k.o(k_("cp")))
    k.eq(label + "map is read at this operating point (J)", k.v(m + "J"), J)
    k.eq(label + "static map is read at this cp", k.v(sm + "cp"), k.o(k_("cp")))
    k.eq(label + "weight", k.o(k_("component_weight"), "lb"), C(0.108) * (D / C(0.3048) * rating / C("745.69987158227022") * C(blades) ** C(0.5)) ** C(0.782))
@contract("E01", "SimplePropeller", group=[dict(dom=PROPDOM, outer=DIAM), dict(dom=PROPDOM, outer=DIAM, opts=dict(num_blades=3), tag="3 blades")], modes=["sym"])
def simpleprop(k):
    propeller(k, "", k.i("shaft_power_in", "W"), k.i("diameter", "m"), k.opt("num_blades"), "", k.i("power_rating", "W"))
def shaft(k, pre, P, label=""):
    """a turboshaft delivering throttle x rating"""
    k.eq(label + "shaft power", k.o(pre + "shaft_power_out", "W"), P)
@contract("E01", "TurbopropPropulsionSystem", group=[dict(dom=PROPDOM)], modes=["sym"])
def turboprop(k):
    R = k.i("ac|propulsion|engine|rating", "W"); P = k.i("throttle") * R
    shaft(k, "eng1.", P); k.eq("fuel flow = psfc x power", k.o("fuel_flow", "kg/s"), P * PSFC)
    propeller(k, "prop1.", P, k.i("ac|propulsion|propeller|diameter", "m"), 4, "", R)
    k.eq("engine weight follows its rating", k.o("eng1.component_weight", "kg"), C("0.00014") * R + 104)
@contract("E01", "TwinTurbopropPropulsionSystem", group=[dict(dom=PROPDOM)], modes=["sym"])
def twinturboprop(k):
    R, D, t = k.i("ac|propulsion|engine|rating", "W"), k.i("ac|propulsion|propeller|diameter", "m"), k.i("throttle"); P1, P2 = t * R, t * k.i("propulsor_active") * R
    shaft(k, "eng1.", P1, "engine 1: "); shaft(k, "eng2.", P2, "engine 2, if active: ")
    propeller(k, "prop1.", P1, D, 4, "propeller 1: ", R); propeller(k, "prop2.", P2, D, 4, "propeller 2: ", R)
    k.eq("fuel flow of both engines", k.o("fuel_flow", "kg/s"), (P1 + P2) * PSFC)
    k.eq("thrust of both propellers", k.o("thrust", "N"), k.o("prop1.thrust", "N") + k.o("prop2.thrust", "N"))
    k.eq("engines' weight", k.o("engines_weight", "kg"), 2 * (C("0.00014") * R + 104)); k.eq("propellers' weight", k.o("propellers_weight", "kg"), 2 * k.o("prop1.component_weight", "kg"))
RATED = {"scale_engine.orig_rating_thrust": "default", "scale_engine.orig_rating_fuel_flow": "default"}      # what set_input_defaults leaves there
@contract("E01", "RubberizedTurbofan", group=[dict(setvals=RATED, opts=o, tag=" ".join(map(str, o.values()))) for o in (dict(), dict(hydrogen=True), dict(engine="CFM56"), dict(engine="CFM56", hydrogen=True))], modes=["sym"])
def turbofan(k):
    s = k.i("ac|propulsion|engine|rating", "lbf") / C(28620 if k.opt("engine") == "N3" else 27300)
    k.eq("thrust scales with the rating", k.o("thrust", "lbf"), s * k.o("engine_deck.thrust", "lbf"))
    k.eq("fuel flow scales with the rating and the heating value", k.o("fuel_flow", "lbm/s"), s * k.o("engine_deck.fuel_flow", "lbm/s") * (C(43) / 120 if k.opt("hydrogen") else C(1)))

def series_hybrid(k, twin=True, extra=None):
    """motors -> splitter -> battery and generator; the engine's throttle balances the generator"""
    M, G, E, D = k.i("ac|propulsion|motor|rating", "W"), k.i("ac|propulsion|generator|rating", "W"), k.i("ac|propulsion|engine|rating", "W"), k.i("ac|propulsion|propeller|diameter", "m")
    th = k.i("throttle") if twin else k.i("motor1.throttle")
    loads = [th * M] + ([th * k.i("propulsor_active") * M] if twin else [])
    for j, L in enumerate(loads):
        m, tag = "motor%d." % (j + 1), ("motor %d: " % (j + 1) if twin else "")
        k.eq(tag + "electrical load", k.o(m + "elec_load", "W"), L)
        k.eq(tag + "shaft power goes to its propeller", k.v("prop%d.shaft_power_in" % (j + 1), "W"), C(0.97) * L)
        k.eq(tag + "load = shaft power + heat", L, k.o(m + "shaft_power_out", "W") + k.o(m + "heat_out", "W"))
        propeller(k, "prop%d." % (j + 1), C(0.97) * L, D, 4, "propeller %d: " % (j + 1) if twin else "propeller: ", M)
    total = sum(loads[1:], loads[0]) + (extra if extra is not None else 0)
    f = k.i("hybrid_split.power_split_fraction")
    k.eq("the splitter feeds every electrical load", k.v("hybrid_split.power_in", "W"), total)
    k.eq("the battery supplies its fraction", k.v("batt1.elec_load", "W"), f * total)
    req = (1 - f) * total
    a, b = ("eng_throttle_set.gen_power_available", "eng_throttle_set.gen_power_required") if twin else ("eng_gen_resid.gen_power_available", "eng_gen_resid.gen_power_required")
    k.eq("the generator is asked for the rest", k.v(b, "W"), req)
    k.eq("the generator's output is what meets that demand", k.v(a, "W"), k.o("gen1.elec_power_out", "W"))
    if not twin: k.eq("residual = available - required", k.o("eng_gen_resid.eng_gen_residual", "W"), k.o("gen1.elec_power_out", "W") - req)
    te = k.v("eng1.throttle")
    if twin: k.eq("the engine's throttle is the balance's unknown", te, k.o("eng_throttle_set.eng_throttle"))
    k.eq("engine shaft power drives the generator", k.v("gen1.shaft_power_in", "W"), te * E)
    k.eq("generator: power in = electrical power + heat", te * E, k.o("gen1.elec_power_out", "W") + k.o("gen1.heat_out", "W"))
    k.eq("generator efficiency", k.o("gen1.elec_power_out", "W"), C(0.97) * te * E)
    k.eq("generator loading relative to its own rating", k.o("gen1.component_sizing_margin") * G, C(0.97) * te * E)
    k.eq("generator weight and cost follow its own rating", k.o("gen1.component_weight", "kg"), G / 5000)
    k.eq("engine weight follows its own rating", k.o("eng1.component_weight", "kg"), C("0.00014") * E + 104)
    k.eq("battery loading relative to its own power", k.o("batt1.component_sizing_margin") * k.i("ac|weights|W_battery", "kg") * 5000, f * total)
    k.eq("fuel flow", k.o("fuel_flow", "kg/s"), te * E * PSFC)
    if twin: k.eq("thrust of both propellers", k.o("thrust", "N"), k.o("prop1.thrust", "N") + k.o("prop2.thrust", "N")); k.eq("battery load reported", k.o("battery_load", "W"), f * total)
    n = 2 if twin else 1
    k.eq("motors' weight", k.o("motors_weight", "kg"), n * M / 5000); k.eq("propellers' weight", k.o("propellers_weight", "kg"), n * k.o("prop1.component_weight", "kg"))
    k.eq("battery mass", k.v("batt1.battery_weight", "kg"), k.i("ac|weights|W_battery", "kg"))
@contract("E01", "TwinSeriesHybridElectricPropulsionSystem", group=[dict(dom=PROPDOM)], modes=[3])
def twinhybrid(k):
    series_hybrid(k); k.eq("battery heat", k.o("batt1.heat_out", "W"), C("0.03") * k.o("battery_load", "W"))
@contract("E01", "SingleSeriesHybridElectricPropulsionSystem", group=[dict(dom=PROPDOM)], modes=["sym"])
def singlehybrid(k): series_hybrid(k, twin=False)
@contract("E01", "SeriesHybridElectricPropulsionSystem", group=[dict(dom=PROPDOM)], modes=["sym"])
def oldhybrid(k):
    M, E, D, t = k.i("dv_motor1_rating", "W"), k.i("ac|propulsion|engine|rating", "W"), k.i("dv_prop1_diameter", "m"), k.i("throttle")
    k.eq("the splitter feeds the motor", k.v("hybrid_split.power_in", "W"), t * M)
    k.eq("the battery supplies its fraction", k.v("batt1.elec_load", "W"), k.i("hybrid_split.power_split_fraction") * t * M)
    k.eq("... and the generator is asked for the rest", k.o("hybrid_split.power_out_B", "W"), (1 - k.i("hybrid_split.power_split_fraction")) * t * M)
    k.eq("engine shaft power drives the generator", k.v("gen1.shaft_power_in", "W"), k.i("eng1.throttle") * E)
    k.eq("fuel flow", k.o("fuel_flow", "kg/s"), k.i("eng1.throttle") * E * PSFC)
    propeller(k, "prop1.", C(0.97) * t * M, D, 4, "propeller: ", M)

# ------------------------------------------------------------------ propulsion systems with a cooling loop
def chain(k, a, b, label):
    """the coolant leaving a enters b"""
    k.eq("coolant loop: " + label, k.v(b, "K"), k.fb(a, "K"))
def airside(k, duct, hx, q):
    k.eq("exchanger takes the duct's air flow", k.v(hx + ".mdot_cold", "kg/s"), k.fb(duct + ".mdot", "kg/s"))
    k.eq("duct sees the exchanger's pressure change", k.v(duct + ".delta_p_hex", "Pa"), k.fb(hx + ".delta_p_cold", "Pa"))
    md = k.v(hx + ".mdot_hot", "kg/s")
    k.eq("hot stream loses the transferred heat", md * k.v(hx + ".cp_hot") * (k.v(hx + ".T_in_hot", "K") - k.o(hx + ".T_out_hot", "K")), q)
THERM = dict(PROPDOM, **{"fltcond|Utrue": (60.0, 150.0), "fltcond|T": (230.0, 310.0), "ac|propulsion|thermal|hx|mdot_coolant": (0.05, 0.3), "ac|propulsion|thermal|hx|channel_width": (0.5, 2.0), "ac|propulsion|thermal|hx|channel_height": (10.0, 30.0), "ac|propulsion|thermal|hx|channel_length": (0.1, 0.5), "ac|propulsion|thermal|hx|n_parallel": (20.0, 60.0),
    "ac|propulsion|propeller|diameter": (1.5, 3.0), **{"hard:" + n: v for n, v in {"fltcond|Utrue": (60.0, 300.0), "prop1.rpm": (1000.0, 3000.0), "prop2.rpm": (1000.0, 3000.0), "ac|propulsion|propeller|diameter": (1.0, 4.0)}.items()},       # forward flight: the propellers stay out of their static range, which SimplePropeller's own contract covers
    "motorheatsink.T_initial": (300.0, 330.0), "batteryheatsink.T_initial": (290.0, 310.0), "reservoir.T_initial": (290.0, 320.0), "hybrid_split.power_split_fraction": (0.1, 0.9), "duration": (5.0, 20.0)})
@contract("E01 T01", "AllElectricSinglePropulsionSystemWithThermal_Incompressible", group=[dict(dom=THERM, opts=dict(specific_energy=400), setvals={"batt1.specific_energy": "default"})], modes=[3])
def allelectric(k):
    M, t, D = k.i("ac|propulsion|motor|rating", "W"), k.i("throttle"), k.i("ac|propulsion|propeller|diameter", "m")
    if k.prop == "E01":
        k.eq("motor load comes from the battery", k.v("batt1.elec_load", "W"), t * M)
        k.eq("battery stores weight x specific energy", k.o("batt1.max_energy", "J"), k.i("ac|weights|W_battery", "kg") * C(400 * 3600))
        propeller(k, "prop1.", C("0.97") * t * M, D, 4, "propeller: ", M)
        return
    k.eq("motor heat = load - shaft power", k.v("motorheatsink.q_in", "W"), t * M - k.o("motor1.shaft_power_out", "W"))
    k.eq("motor thermal mass", k.v("motorheatsink.mass", "kg"), M / 5000)
    k.eq("motor: energy balance", M / 5000 * 921 * k.o("motorheatsink.base.dTdt", "K/s"), C("0.03") * t * M - k.fb("motorheatsink.hex.q", "W"))
    chain(k, "motorheatsink.T_out", "hx.T_in_hot", "motor -> exchanger"); chain(k, "hx.T_out_hot", "reservoir.T_in", "exchanger -> reservoir"); chain(k, "reservoir.T_out", "motorheatsink.T_in", "reservoir -> motor")
    for c, n in (("motorheatsink", "mdot_coolant"), ("hx", "mdot_hot"), ("reservoir", "mdot_coolant")): k.eq("one coolant flow: " + c, k.v("%s.%s" % (c, n), "kg/s"), k.o("mdot_coolant", "kg/s"))
    airside(k, "duct", "hx", k.o("hx.heat_transfer", "W"))
@contract("E01 T01", "TwinSeriesHybridElectricThermalPropulsionSystem", group=[dict(dom=THERM)], modes=[3])
def thermhybrid(k):
    if k.prop == "E01": return series_hybrid(k)
    thermal_loads(k, k.o("battery_load", "W"))
    chain(k, "batteryheatsink.T_out", "motorheatsink.T_in", "batteries -> motors"); chain(k, "motorheatsink.T_out", "hx.T_in_hot", "motors -> exchanger"); chain(k, "hx.T_out_hot", "reservoir.T_in", "exchanger -> reservoir"); chain(k, "reservoir.T_out", "batteryheatsink.T_in", "reservoir -> batteries")
    for c, n in (("motorheatsink", "mdot_coolant"), ("batteryheatsink", "mdot_coolant"), ("hx", "mdot_hot"), ("reservoir", "mdot_coolant")): k.eq("one coolant flow: " + c, k.v("%s.%s" % (c, n), "kg/s"), k.i("ac|propulsion|thermal|hx|mdot_coolant", "kg/s"))
    k.eq("reservoir holds the coolant mass", k.v("reservoir.mass", "kg") if k.has("reservoir.mass") else k.v("coolant_mass", "kg"), k.i("ac|propulsion|thermal|hx|coolant_mass", "kg"))
    airside(k, "duct", "hx", k.o("hx.heat_transfer", "W"))
def thermal_loads(k, batt):
    M, t, a = k.i("ac|propulsion|motor|rating", "W"), k.i("throttle"), k.i("propulsor_active"); W = k.i("ac|weights|W_battery", "kg")
    k.eq("heat of both motors goes into their heat sink", k.v("motorheatsink.q_in", "W"), C("0.03") * (t * M + t * a * M))
    k.eq("battery heat goes into its heat sink", k.v("batteryheatsink.q_in", "W"), C("0.03") * batt)
    k.eq("motors: energy balance", 2 * M / 5000 * 921 * k.o("motorheatsink.base.dTdt", "K/s"), C("0.03") * (t * M + t * a * M) - k.fb("motorheatsink.hex.q", "W"))
    k.eq("batteries: energy balance", W * 921 * k.o("batteryheatsink.base.dTdt", "K/s"), C("0.03") * batt - k.fb("batteryheatsink.hex.q", "W"))
@contract("E01 T01", "TwinSeriesHybridElectricThermalPropulsionRefrigerated", group=[dict(dom=dict(THERM, **{"refrig.bypass_start": (0.0, 1.0), "refrig.bypass_end": (0.0, 1.0), "ac|propulsion|thermal|refrig|eff": (0.1, 0.9)}))], modes=[3])
def refrighybrid(k):
    if k.prop == "E01": return series_hybrid(k, extra=k.fb("refrig.elec_load", "W"))
    thermal_loads(k, k.o("battery_load", "W"))
    chain(k, "batteryheatsink.T_out", "motorheatsink.T_in", "batteries -> motors"); chain(k, "motorheatsink.T_out", "refrig.T_in_cold", "motors -> chiller's cold side"); chain(k, "refrig.T_out_cold", "batteryheatsink.T_in", "chiller's cold side -> batteries")
    chain(k, "refrig.T_out_hot", "hx.T_in_hot", "chiller's hot side -> exchanger"); chain(k, "hx.T_out_hot", "refrig.T_in_hot", "exchanger -> chiller's hot side")
    for c, n in (("motorheatsink", "mdot_coolant"), ("batteryheatsink", "mdot_coolant"), ("hx", "mdot_hot"), ("refrig", "mdot_coolant")): k.eq("one coolant flow: " + c, k.v("%s.%s" % (c, n), "kg/s"), k.i("ac|propulsion|thermal|hx|mdot_coolant", "kg/s"))
    k.eq("chiller runs at its rating", k.v("refrig.power_rating", "W"), k.i("ac|propulsion|thermal|refrig|rating", "W")); k.eq("chiller efficiency factor", k.v("refrig.eff_factor"), k.i("ac|propulsion|thermal|refrig|eff")); k.eq("chiller specific power", k.v("refrig.specific_power", "W/kg"), k.i("ac|propulsion|thermal|refrig|specific_power", "W/kg"))
    airside(k, "duct", "hx", k.o("hx.heat_transfer", "W"))

# ------------------------------------------------------------------ E02
@contract("E02", "SimpleBattery")
def battery(k):
    L, W = k.i("elec_load", "W"), k.i("battery_weight", "kg")
    k.eq("heat = inefficient share of the load", k.o("heat_out", "W"), (1 - k.opt("efficiency")) * L)
    k.eq("sizing margin = load / rated power", k.o("component_sizing_margin"), L / (k.opt("specific_power") * W))
    k.eq("stored energy = weight x specific energy", k.o("max_energy", "J"), W * k.i("specific_energy", "J/kg"))
    k.eq("cost affine in weight", k.o("component_cost", "USD"), W * k.opt("cost_inc") + k.opt("cost_base"))
def soc(k):
    battery(k)
    k.eq("dSOC/dt = - load / stored energy", k.o("dSOCdt", "1/s"), -k.i("elec_load", "W") / k.o("max_energy", "J"))
    history(k, "state of charge", "SOC", k.i("SOC_initial"), "dSOCdt", k.i("duration", "s"), None, "1/s"); final(k, "state of charge", "SOC_final", "SOC", None)
contract("E02", "SOCBattery", group=[dict(), dict(opts=dict(efficiency=0.9, specific_power=3000.0, specific_energy=450.0, cost_inc=20.0, cost_base=3.0), tag="options")], modes=[3, 5])(soc)
