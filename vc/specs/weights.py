"""W01 empty-weight roll-ups, weight items and operating cost (weights/*.py, costs/*.py)"""
from ..contract import contract
from ..component import Cfg
from ..terms import *

SWEEP = {n: (0.0, 0.7) for n in ("ac|geom|wing|c4sweep", "ac|geom|hstab|c4sweep", "ac|geom|vstab|c4sweep")}
LB = "lb"
def item(k, name, expr, label):
    """the item follows its correlation (in pounds, feet, knots ...) and is positive"""
    k.eq(label, k.o(name, LB), expr)
# ------------------------------------------------------------------ items, jet transport
@contract("W01", "WingWeight_JetTransport", dom=SWEEP)
def wing(k):
    W, S = k.i("ac|weights|MTOW", LB), k.i("ac|geom|wing|S_ref", "ft**2"); c = k.cos(k.i("ac|geom|wing|c4sweep", "rad"))
    item(k, "W_wing", C("0.0051") * (W * k.opt("n_ult")) ** C("0.557") * S ** C("0.649") * k.i("ac|geom|wing|AR") ** C("0.5") * k.i("ac|geom|wing|toverc") ** C("-0.4") * (1 + k.i("ac|geom|wing|taper")) ** C("0.1") / c * (k.opt("control_surface_area_frac") * S) ** C("0.1"), "Raymer 15.25")
@contract("W01", "HstabConst_JetTransport")
def hconst(k):
    k.eq("1 + fuselage width / tail span", k.o("HstabConst"), 1 + k.i("ac|geom|fuselage|height", "ft") * k.opt("fuselage_width_frac") / k.sqrt(k.i("ac|geom|hstab|S_ref", "ft**2") * k.i("ac|geom|hstab|AR")))
@contract("W01", "HstabWeight_JetTransport", dom=SWEEP)
def hstab(k):
    L = k.i("ac|geom|hstab|c4_to_wing_c4", "ft")
    item(k, "W_hstab", C("0.0379") * k.opt("K_uht") * k.i("HstabConst") ** C("-0.25") * k.i("ac|weights|MTOW", LB) ** C("0.639") * C(k.opt("n_ult")) ** C("0.1") * k.i("ac|geom|hstab|S_ref", "ft**2") ** C("0.75") * (C("0.3") * L) ** C("0.704") / L / k.cos(k.i("ac|geom|hstab|c4sweep", "rad")) * k.i("ac|geom|hstab|AR") ** C("0.166") * (1 + C(k.opt("elevator_area_frac"))) ** C("0.1"), "Raymer 15.26")
@contract("W01", "VstabWeight_JetTransport", dom=SWEEP)
def vstab(k):
    L = k.i("ac|geom|vstab|c4_to_wing_c4", "ft"); ht = 1 if k.opt("T_tail") else 0
    item(k, "W_vstab", C("0.0026") * C(1 + ht) ** C("0.225") * k.i("ac|weights|MTOW", LB) ** C("0.556") * C(k.opt("n_ult")) ** C("0.536") * L ** C("-0.5") * L ** C("0.875") * k.i("ac|geom|vstab|S_ref", "ft**2") ** C("0.5") / k.cos(k.i("ac|geom|vstab|c4sweep", "rad")) * k.i("ac|geom|vstab|AR") ** C("0.35") * k.i("ac|geom|vstab|toverc") ** C("-0.5"), "Raymer 15.27")
@contract("W01", "FuselageKws_JetTransport", dom=SWEEP)
def kws(k):
    t = k.i("ac|geom|wing|taper"); b = k.sqrt(k.i("ac|geom|wing|S_ref", "ft**2") * k.i("ac|geom|wing|AR"))
    k.eq("Raymer's K_ws", k.o("K_ws") * k.i("ac|geom|fuselage|length", "ft") * (1 + t), C("0.75") * (1 + 2 * t) * b * k.tan(k.i("ac|geom|wing|c4sweep", "rad")))
@contract("W01", "FuselageWeight_JetTransport")
def fus(k):
    L, d = k.i("ac|geom|fuselage|length", "ft"), k.i("ac|geom|fuselage|height", "ft")
    item(k, "W_fuselage", C("0.328") * k.opt("K_door") * k.opt("K_lg") * (k.i("ac|weights|MTOW", LB) * k.opt("n_ult")) ** C("0.5") * L ** C("0.25") * k.i("ac|geom|fuselage|S_wet", "ft**2") ** C("0.302") * (1 + k.i("K_ws")) ** C("0.04") * (L / d) ** C("0.1"), "Raymer 15.28")
@contract("W01", "MainLandingGearWeight_JetTransport")
def mlg(k):
    item(k, "W_mlg", C("0.0106") * k.opt("kneeling_gear_parameter") * k.i("ac|weights|MLW", LB) ** C("0.888") * C(k.opt("n_land_ult")) ** C("0.25") * k.i("ac|geom|maingear|length", "inch") ** C("0.4") * k.i("ac|geom|maingear|num_wheels") ** C("0.321") * k.i("ac|geom|maingear|num_shock_struts") ** C("-0.5") * k.i("ac|aero|Vstall_land", "kn") ** C("0.1"), "Raymer 15.29")
@contract("W01", "NoseLandingGearWeight_JetTransport")
def nlg(k):
    item(k, "W_nlg", C("0.032") * k.opt("kneeling_gear_parameter") * k.i("ac|weights|MLW", LB) ** C("0.646") * C(k.opt("n_land_ult")) ** C("0.2") * k.i("ac|geom|nosegear|length", "inch") ** C("0.5") * k.i("ac|geom|nosegear|num_wheels") ** C("0.45"), "Raymer 15.30")
@contract("W01", "EngineWeight_JetTransport")
def eng(k): item(k, "W_engine", k.i("ac|propulsion|engine|rating", "lbf") / C("5.5"), "thrust to weight ratio 5.5")
@contract("W01", "EngineSystemsWeight_JetTransport")
def engsys(k):
    T, n, Wf = k.i("ac|propulsion|engine|rating", "lbf"), k.i("ac|propulsion|num_engines"), k.i("ac|weights|W_fuel_max", LB)
    item(k, "W_thrust_rev", n * (C("0.034") * T), "thrust reversers: per engine"); item(k, "W_eng_control", n * (C("0.26") * T ** C("0.5")), "engine controls: per engine")
    item(k, "W_eng_start", n * (C("9.33") * (k.i("W_engine", LB) / 1000) ** C("1.078")), "starting system: per engine")
    item(k, "W_fuelsystem", C("1.07") * Wf ** C("0.58") * n ** C("0.43") * k.i("ac|aero|Mach_max") ** C("0.34"), "fuel system")
@contract("W01", "NacelleWeight_JetTransport")
def nac(k): item(k, "W_nacelle", k.i("ac|propulsion|num_engines") * (C("0.065") * k.i("ac|propulsion|engine|rating", "lbf")), "nacelles: per engine")
@contract("W01", "FurnishingWeight_JetTransport")
def furn(k):
    p = k.i("ac|num_passengers_max")
    item(k, "W_furnishings", 55 * k.i("ac|num_flight_deck_crew") + 32 * p + 15 * k.i("ac|num_cabin_crew") + C(k.opt("K_lav")) * p ** C("1.33") + C(k.opt("K_buf")) * p ** C("1.12") + 109 * (p * (1 + k.i("ac|cabin_pressure", "psi")) / 100) ** C("0.505") + C("0.771") * k.i("ac|weights|MTOW", LB) / 1000, "Roskam V 7.44")
@contract("W01", "EquipmentWeight_JetTransport")
def equip(k):
    W, n, fd = k.i("ac|weights|MTOW", LB), k.i("ac|propulsion|num_engines"), k.i("ac|num_flight_deck_crew"); people = fd + k.i("ac|num_cabin_crew") + k.i("ac|num_passengers_max")
    item(k, "W_flight_controls", C(k.opt("coeff_fc")) * W ** C(2 / 3), "Roskam V 7.6")
    item(k, "W_avionics", C(k.opt("coeff_avionics")) * (fd * (15 + C("0.032") * W / 1000) + n * (5 + C("0.006") * W / 1000) + C("0.15") * W / 1000 + C("0.012") * W), "Roskam V 7.23")
    item(k, "W_electrical", 1163 * ((k.i("W_fuelsystem", LB) + k.o("W_avionics", LB)) / 1000) ** C("0.506"), "Roskam V 7.15")
    item(k, "W_ac_pressurize_antiice", 469 * (k.i("ac|geom|V_pressurized", "ft**3") * people / 10000) ** C("0.419"), "Roskam V 7.29")
    item(k, "W_oxygen", 7 * people ** C("0.702"), "Roskam V 7.35"); item(k, "W_APU", C(k.opt("APU_weight_frac")) * W, "APU fraction of MTOW")
@contract("W01", "CabinWeight_BWB")
def cabin(k): item(k, "W_cabin", C("1.803246") * k.i("ac|weights|MTOW", LB) ** C("0.166552") * k.i("ac|geom|centerbody|S_cabin", "ft**2") ** C("1.061158"), "pressurised centerbody regression")
@contract("W01", "AftbodyWeight_BWB")
def aft(k): item(k, "W_aftbody", C("0.53") * (1 + C("0.05") * k.i("ac|propulsion|num_engines")) * k.i("ac|geom|centerbody|S_aftbody", "ft**2") * k.i("ac|weights|MTOW", LB) ** C("0.2") * (k.i("ac|geom|centerbody|taper_aftbody") + C("0.5")), "aft centerbody regression")
# ------------------------------------------------------------------ items, small turboprop
@contract("W01", "WingWeight_SmallTurboprop", dom=SWEEP)
def swing(k):
    c = k.cos(k.i("ac|geom|wing|c4sweep", "rad"))
    item(k, "W_wing", C("0.036") * k.i("ac|geom|wing|S_ref", "ft**2") ** C("0.758") * k.i("ac|weights|W_fuel_max", LB) ** C("0.0035") * (k.i("ac|geom|wing|AR") / c ** 2) ** C("0.6") * k.i("ac|q_cruise", "lb*ft**-2") ** C("0.006") * k.i("ac|geom|wing|taper") ** C("0.04") * (100 * k.i("ac|geom|wing|toverc") / c) ** C("-0.3") * (k.i("ac|weights|MTOW", LB) * k.opt("n_ult")) ** C("0.49"), "Raymer 15.46")
@contract("W01", "EmpennageWeight_SmallTurboprop")
def semp(k): item(k, "W_empennage", C("0.04") * (C(k.opt("n_ult")) * (k.i("ac|geom|vstab|S_ref", "ft**2") + k.i("ac|geom|hstab|S_ref", "ft**2")) ** 2) ** C("0.75"), "Torenbeek, Roskam V 5.16")
@contract("W01", "FuselageWeight_SmallTurboprop")
def sfus(k):
    L, h = k.i("ac|geom|fuselage|length", "ft"), k.i("ac|geom|fuselage|height", "ft")
    press = C("11.9") * (PI * (k.i("ac|geom|fuselage|width", "ft") + h) / 2 * L * C("0.8") * 8) ** C("0.271")
    item(k, "W_fuselage", C("0.052") * k.i("ac|geom|fuselage|S_wet", "ft**2") ** C("1.086") * (k.i("ac|weights|MTOW", LB) * k.opt("n_ult")) ** C("0.177") * k.i("ac|geom|hstab|c4_to_wing_c4", "ft") ** C("-0.051") * (L / h) ** C("-0.072") * k.i("ac|q_cruise", "lb*ft**-2") ** C("0.241") + press, "Raymer 15.49 with pressurisation penalty")
@contract("W01", "NacelleWeight_SmallSingleTurboprop")
def snac(k): k.eq("2.5 lb per square root of the take-off horsepower", k.o("W_nacelle", LB), C("2.5") * k.i("P_TO", "hp") ** C("0.5"))
@contract("W01", "NacelleWeight_MultiTurboprop")
def mnac(k): k.eq("0.14 lb per take-off horsepower", k.o("W_nacelle", LB), C("0.14") * k.i("P_TO", "hp"))
@contract("W01", "LandingGearWeight_SmallTurboprop")
def sgear(k):
    NW = k.i("ac|weights|MLW", LB) * k.opt("n_ult"); W = k.o("W_gear", LB)
    f = lambda unit: C("0.095") * NW ** C("0.768") * (k.i("ac|geom|maingear|length", unit) / 12) ** C("0.409") + C("0.125") * NW ** C("0.566") * (k.i("ac|geom|nosegear|length", unit) / 12) ** C("0.845")
    k.eq("strut lengths enter in inches", W, f("inch"))
    k.eq("main gear + nose gear, each once (whichever the length unit)", (W - f("inch")) * (W - f("ft")), C(0))
@contract("W01", "FuelSystemWeight_SmallTurboprop")
def sfuel(k): item(k, "W_fuelsystem", C("2.49") * (k.i("ac|weights|W_fuel_max", LB) / k.opt("Kfsp")) ** C("0.726") * C("0.5") ** C("0.363"), "Raymer 15.53, one integral tank, one engine")
@contract("W01", "EquipmentWeight_SmallTurboprop")
def sequip(k):
    W, p, L = k.i("ac|weights|MTOW", LB), k.i("ac|num_passengers_max"), k.i("ac|geom|fuselage|length", "ft"); b = k.sqrt(k.i("ac|geom|wing|S_ref", "ft**2") * k.i("ac|geom|wing|AR"))
    av = C("2.117") * C(110) ** C("0.933")
    items = [C("0.23") * W ** C("0.666"), C("0.2673") * (L * b) ** C("0.937"), av, C("12.57") * (k.i("W_fuelsystem", LB) + av) ** C("0.51"), C("0.265") * W ** C("0.52") * p ** C("0.68") * av ** C("0.17") * C("0.95"), 30 + C("1.2") * p, C("0.412") * p ** C("1.145") * W ** C("0.489"), C("0.003") * W]
    item(k, "W_equipment", sum(items[1:], items[0]), "flight controls, hydraulics, avionics, electrics, air conditioning, oxygen, furnishing and paint enter once each")
# ------------------------------------------------------------------ totals
def total(k, out, names, fac, label):
    k.eq(label, k.o(out, LB), sum((C(f) * k.v(n, LB) for n, f in zip(names, fac)), C(0)))
OPTJ = dict(structural_fudge=1.3, total_fudge=1.07, wing_weight_multiplier=0.9, n_ult=3.9, n_land_ult=4.1)
SYST = ["W_engines", "W_thrust_rev", "W_eng_control", "W_fuelsystem", "W_eng_start", "W_furnishings", "W_flight_controls", "W_avionics", "W_electrical", "W_ac_pressurize_antiice", "W_oxygen", "W_APU"]
def transport(k, struct):
    o = k.opt; sf = C(o("structural_fudge"))
    total(k, "W_structure", struct, [sf * o("wing_weight_multiplier") if n == "W_wing" else sf for n in struct], "structure = structural fudge x the listed items, each once, the wing also with its multiplier")
    total(k, "OEW", ["W_structure"] + SYST, [C(o("total_fudge"))] * 13, "empty weight = total fudge x (structure + every system item once)")
    n, T = k.i("ac|propulsion|num_engines"), k.i("ac|propulsion|engine|rating", "lbf")
    k.eq("engines: number x one engine", k.o("W_engines", LB), n * T / C("5.5")); k.eq("nacelles: number x one nacelle", k.o("W_nacelle", LB), n * (C("0.065") * T))
    k.eq("reversers: number x one", k.o("W_thrust_rev", LB), n * (C("0.034") * T)); k.eq("starters: number x one", k.o("W_eng_start", LB), n * (C("9.33") * (T / 5500) ** C("1.078")))
    k.eq("electrics see the fuel-system weight of this aircraft", k.o("W_electrical", LB), 1163 * ((k.v("W_fuelsystem", LB) + k.v("W_avionics", LB)) / 1000) ** C("0.506"))
    fd, people = k.i("ac|num_flight_deck_crew"), k.i("ac|num_flight_deck_crew") + k.i("ac|num_cabin_crew") + k.i("ac|num_passengers_max")
    k.eq("oxygen for everyone on board", k.o("W_oxygen", LB), 7 * people ** C("0.702"))
@contract("W01", "JetTransportEmptyWeight", group=[dict(dom=SWEEP, nnopt=None), dict(dom=SWEEP, nnopt=None, opts=dict(OPTJ, T_tail=True), tag="options")], modes=[1])
def jet(k):
    transport(k, ["W_wing", "W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle"])
    d, L = k.i("ac|geom|fuselage|height", "ft"), k.i("ac|geom|fuselage|length", "ft")
    people = k.i("ac|num_flight_deck_crew") + k.i("ac|num_cabin_crew") + k.i("ac|num_passengers_max")
    k.eq("pressurised volume: cabin fraction of the fuselage cylinder", k.o("W_ac_pressurize_antiice", LB), 469 * (PI / 4 * d ** 2 * L * C(k.opt("cabin_length_frac")) * people / 10000) ** C("0.419"))
@contract("W01", "BWBEmptyWeight", group=[dict(dom=SWEEP, nnopt=None), dict(dom=SWEEP, nnopt=None, opts=OPTJ, tag="options")], modes=[1])
def bwb(k): transport(k, ["W_wing", "W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle"])
def small(k, extra):
    total(k, "W_structure", ["W_wing", "W_fuselage", "W_nacelle", "W_empennage", "W_gear"], [1] * 5, "structure = every structural item once")
    k.eq("structural fudge 1.6", k.o("W_structure_adjusted", LB), C("1.6") * k.v("W_structure", LB))
    k.eq("empty weight = 1.6 x structure + every system item once + 20 kg of fluids", k.o("OEW", "kg"), sum((k.v(n, "kg") for n in ["W_structure_adjusted", "W_fuelsystem", "W_equipment"] + extra), C(20)))
contract("W01", "SingleTurboPropEmptyWeight", group=[dict(dom=SWEEP, nnopt=None)], modes=[1])(lambda k: small(k, ["W_engine", "W_propeller"]))
contract("W01", "TwinSeriesHybridEmptyWeight", group=[dict(dom=SWEEP, nnopt=None)], modes=[1])(lambda k: small(k, ["W_engine", "W_motors", "W_generator", "W_propeller"]))
# ------------------------------------------------------------------ operating cost
@contract("W01", "TurbopropOperatingCost", cfgs=[lambda cls, a=a, b=b: Cfg(cls, dict(n_components=a, n_batteries=b), tag="components=%d batteries=%s" % (a, b)) for a, b in ((1, None), (3, 2), (2, 1), (4, None), (0, 3))])
def cost(k):
    o = k.opt; n, b = o("n_components"), o("n_batteries"); comps = range(1, n + 1)
    A = (k.i("OEW", "kg") - sum((k.i("component_%d_weight" % i, "kg") for i in comps), C(0))) * o("airframe_cost_per_kg") * o("OEM_premium")
    k.eq("airframe cost: empty weight less every component once", k.o("airframe_NR_cost", "USD"), A)
    tot = A + C(o("OEM_premium")) * sum((k.i("component_%d_NR_cost" % i, "USD") for i in comps), C(0)); k.eq("purchase cost = airframe + premium x every component once", k.o("total_NR_cost", "USD"), tot)
    fuel = k.i("fuel_burn", "kg") * o("fuel_cost_per_kg"); k.eq("fuel cost", k.o("fuel_cost", "USD"), fuel)
    trip = fuel + tot / (C(o("aircraft_daily_cycles")) * 365 * o("aircraft_life_years")); energy = fuel
    if b is not None:
        el = C(o("electricity_cost_per_MJ")) * sum((k.i("battery_%d_energy_used" % i, "MJ") for i in range(1, b + 1)), C(0)); bat = sum((k.i("battery_%d_NR_cost" % i, "USD") for i in range(1, b + 1)), C(0)) / o("battery_replacement_cycles")
        k.eq("electricity cost: every battery once", k.o("electricity_cost", "USD"), el); k.eq("battery replacement: every battery once", k.o("trip_battery_cost", "USD"), bat); trip = trip + el + bat; energy = energy + el
    k.eq("energy cost = fuel + electricity", k.o("trip_energy_cost", "USD"), energy)
    k.eq("trip cost = energy + purchase cost per cycle + battery replacement", k.o("trip_direct_operating_cost", "USD"), trip)
