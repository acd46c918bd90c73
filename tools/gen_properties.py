"""Writes /verif/properties.jsonl (kept as a script so the wording has one source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or
        ["component outputs and component Jacobian (compute / compute_partials / linearize, declare_partials)"])))

ANA = ("At every physically meaningful input where the model is differentiable, each {what} component that supplies its own derivatives "
       "reports exactly the derivative of the outputs (or residuals) it computes, for every output/input pair, every node and every option value; "
       "a pair or matrix position it does not report has derivative zero, and this holds in every branch of piecewise formulas.")
WHYD = ("Tests run a partial-derivative check at one or two points, usually the defaults, with default options; an error that is only visible in another branch, at another "
        "option value, in an untested entry or is smaller than the check tolerance at that point is never seen. Exactness is a statement over all reals.")
p("D01", "Derivatives of vector/math utility components are exact", ANA.format(what="general-purpose mathematical utility"),
  ["inputs", "configurations"], "all input values, node counts, equation lists, scaling factors, shapes", WHYD,
  ["openconcept/utilities"], [("elementwise algebra, integration, differencing, split/join, selection, min/max, interpolation components", "openconcept/utilities/math, openconcept/utilities/*.py")])
p("D02", "Derivatives of mission, flight-condition and aerodynamic components are exact", ANA.format(what="mission-analysis, atmosphere, aerodynamics, geometry and stability"),
  ["inputs", "configurations"], "all flight conditions, both atmosphere layers, all branches of takeoff/climb/accelerate models", WHYD,
  ["openconcept/mission/phases.py", "openconcept/mission/profiles.py", "openconcept/atmospherics", "openconcept/aerodynamics", "openconcept/geometry", "openconcept/stability"],
  [("compute/compute_partials, apply_nonlinear/linearize pairs", "the listed files")])
p("D03", "Derivatives of propulsion and energy-storage components are exact", ANA.format(what="propulsion, battery and hydrogen-tank"),
  ["inputs", "configurations"], "all operating points, split rules, sizing options", WHYD,
  ["openconcept/propulsion", "openconcept/energy_storage"], [("compute/compute_partials pairs", "the listed files")])
p("D04", "Derivatives of thermal-management components are exact", ANA.format(what="thermal-management (heat exchanger, duct, pump, hose, manifold, chiller, motor/battery cooling, heat pipe)"),
  ["inputs", "configurations"], "all flow states, either side limiting capacity, all fouling/loss options", WHYD,
  ["openconcept/thermal"], [("compute/compute_partials, apply_nonlinear/linearize pairs", "openconcept/thermal/*.py")])
p("D05", "Derivatives of weight and cost components are exact", ANA.format(what="weight-estimation and operating-cost"),
  ["inputs", "configurations"], "all aircraft sizes and all empirical-coefficient options", WHYD,
  ["openconcept/weights", "openconcept/costs"], [("compute/compute_partials pairs", "the listed files")])
p("D06", "Complex-step components are complex-safe and fully declared", 
  "Every component that leaves its derivatives to complex-step differentiation computes outputs whose complex-step derivative equals the true derivative at every physically meaningful differentiable input, "
  "and every input an output really depends on is covered by a declared derivative at that position.",
  ["inputs", "configurations"], "all inputs of components that declare complex-step partials", 
  "A complex-unsafe operation (absolute value, real-valued copy, comparison of complex numbers) gives silently wrong totals that agree at test points by luck or when the affected branch is not sampled; a missing declaration makes the total derivative zero.",
  ["openconcept/thermal", "openconcept/geometry", "openconcept/weights", "openconcept/aerodynamics"], [("declare_partials(method='cs') with compute", "components in the listed packages")])
p("I01", "Time integration is exact up to its order and linear in the rates",
  "For every segment duration and number of points, integrating a rate history that is a quadratic polynomial in time reproduces the exact integral at every point with both the Simpson and the third-order backward-difference scheme, the Simpson scheme also reproduces the integral of a cubic at every second point including the last, "
  "and the integrated history is linear in the rates and the initial value, whatever the rates are.",
  ["inputs", "configurations"], "all rate histories, durations, initial values, node counts, one or several segments", 
  "Tests integrate a few polynomials on a few grids; exactness for all coefficients, all durations and linearity for arbitrary (non-smooth) data is a universal statement about the whole integration matrix.",
  ["openconcept/utilities/math/integrals.py"], [("integration matrices and Integrator component", "openconcept/utilities/math/integrals.py")])
p("I02", "Integrated states start, join and end consistently",
  "The first value of an integrated state equals the given initial value, each later segment starts from the value at which the previous one ends, the reported final value equals the last value of the history, "
  "and specifying time by step, by duration or by start/end bounds gives the same history for the same time axis; excluded segments contribute nothing.",
  ["inputs", "configurations"], "all rates, initial values, segment names, segment lists and time specifications, and several states at once",
  "Only a few node/segment counts and time modes are sampled, and always with the same units.",
  ["openconcept/utilities/math/integrals.py"], [("Integrator component", "openconcept/utilities/math/integrals.py")])
p("I03", "Numerical differentiation is exact for polynomials of its order",
  "For every segment length in points and every time step, the numerical time derivative of a sampled polynomial of degree up to the order of the scheme is exactly the polynomial's derivative at every node including the ends of each segment, "
  "segments do not influence each other, and the result is linear in the samples.",
  ["inputs", "configurations"], "all polynomials, time steps, node counts, segment counts", "Tests sample a few sine/polynomial histories with loose tolerances.",
  ["openconcept/utilities/math/derivatives.py"], [("finite-difference stencils", "openconcept/utilities/math/derivatives.py")])
p("U01", "Joining and splitting vectors place every entry exactly once, in order",
  "Joining vectors yields the entries of each named input in the stated order with no entry lost, repeated, scaled or reordered, splitting is the exact inverse, and several independent joins or splits in one component do not affect each other.",
  ["inputs", "configurations"], "all values, lengths, widths, numbers of inputs and of relations", "Tests use a handful of lengths and random values.",
  ["openconcept/utilities/math/combine_split_comp.py"], [("concatenate / split components", "openconcept/utilities/math/combine_split_comp.py")])
p("U02", "Elementwise sum and product components compute exactly the stated expression",
  "Every output of an add/subtract component equals the scaled sum of its named inputs, every output of a multiply/divide component equals the scaled product of the named inputs with exactly the marked ones divided, scalars broadcast over vectors, "
  "several equations in one component are independent, and setting the component up again gives the same variables and units.",
  ["inputs", "configurations"], "all values, scale factors, shapes, units, equation lists and numbers of set-ups", "Tests sample a few equations with random values and set each problem up once.",
  ["openconcept/utilities/math/add_subtract_comp.py", "openconcept/utilities/math/multiply_divide_comp.py"], [("equation-list components", "the listed files")])
p("U03", "Selection, interpolation, extremum, relabelling utilities are exact",
  "A selector returns, at each node, exactly the input its selector value names; a linear interpolator runs from the start value to the end value in equal steps; a maximum/minimum component returns an element of its input that bounds all others; "
  "a relabelling component returns each input unchanged under its new name and unit; a dictionary-driven source outputs exactly the stored value and unit.",
  ["inputs", "configurations"], "all values, node counts, input counts, selector patterns", "Tests sample a few vectors; ties, extremes and other counts are not covered.",
  ["openconcept/utilities/selector.py", "openconcept/utilities/linearinterp.py", "openconcept/utilities/math/max_min_comp.py", "openconcept/utilities/dvlabel.py", "openconcept/utilities/dict_indepvarcomp.py"], [("utility components", "the listed files")])
p("A01", "Atmosphere model is physically consistent at every altitude",
  "At every altitude of the standard-atmosphere model and every temperature increment, temperature follows the standard lapse then stays constant, pressure satisfies hydrostatic balance within the model's accuracy, is continuous and strictly decreasing across layers, density obeys the ideal-gas law, "
  "sound speed, dynamic pressure and Mach number satisfy their defining relations, and true and equivalent airspeed conversions are mutually inverse.",
  ["inputs"], "all altitudes in 0-20 km, all temperature increments, all airspeeds", "Tests compare a few tabulated altitudes.",
  ["openconcept/atmospherics"], [("atmosphere components", "openconcept/atmospherics/*.py")])
p("F01", "Flight-path accelerations and required lift obey Newton's second law",
  "At every flight condition, mass times horizontal acceleration equals thrust minus drag minus ground friction (with braking and runway slope as modelled), mass times vertical acceleration equals the vertical force balance within the model's stated limits, the lift coefficient required for steady or curved flight "
  "reproduces the normal force balance, and climb gradient equals excess thrust over weight.",
  ["inputs", "configurations"], "all weights, speeds, angles, lift, drag, thrust, friction values and node counts", "Tests check only a few partial derivatives or one mission result.",
  ["openconcept/mission/phases.py"], [("force-balance components", "openconcept/mission/phases.py")])
p("F02", "Flight kinematics are consistent",
  "Ground speed and vertical speed are the components of true airspeed along the flight path, the reported flight-path sine and cosine satisfy the Pythagorean identity, speed conversions invert each other, "
  "and takeoff transition, climb and rotation geometry (heights, distances, arcs, timings) satisfy their defining circle, triangle and constant-rate relations.",
  ["inputs"], "all airspeeds and vertical speeds with vertical speed below airspeed, all takeoff geometries", "Tests exercise one mission trajectory.",
  ["openconcept/mission/phases.py"], [("kinematic components", "openconcept/mission/phases.py")])
p("F03", "Mission phases hand every state on without a gap",
  "In every mission profile, each integrated quantity present in consecutive phases (range, altitude where applicable, fuel used, charge, temperatures and user-added states) starts a phase with exactly the value, in the same unit, with which the preceding phase ended, "
  "the first phase starts from the given initial value, and no state is linked twice or skipped.",
  ["configurations", "programs"], "all mission profiles, phase lists, node counts and sets of integrated states", "Tests look at final numbers of a few aircraft; a missing link silently leaves an initial value at its default.",
  ["openconcept/mission/mission_groups.py", "openconcept/mission/profiles.py"], [("phase and trajectory linking", "openconcept/mission/mission_groups.py")], ["connections between phases after set-up"])
p("F04", "Mission profiles fly the mission that was asked for",
  "In every mission profile, the quantities left to the solver are asked to bring about exactly the requested mission: climb ends at the requested cruise altitude, the whole mission covers the requested range, descent ends at the airport altitude, throttle gives the requested acceleration, the diversion climbs to the reserve altitude and covers the reserve range "
  "counted from the end of the main mission, loiter is flown at its altitude for its duration, and the takeoff phases run from standstill to the decision speed, on to the rotation speed and the obstacle, or back to a stop, each starting where and at the speed the preceding one ended, with both distances handed to the balanced-field solver.",
  ["configurations", "inputs"], "all mission profiles and options, all requested altitudes, ranges, durations and speeds, every aircraft model", "Tests fly a few aircraft with default settings and compare final numbers.",
  ["openconcept/mission/profiles.py", "openconcept/mission/phases.py"], [("mission profile groups", "openconcept/mission/profiles.py"), ("duration and throttle balances", "openconcept/mission/phases.py")], ["inputs and residual equations of the balance components of an assembled mission"])
p("N02", "Aerodynamic databases belong to the wing and flight condition asked for",
  "The lift, drag, failure and weight data behind an OpenAeroStruct drag polar are the analysis of exactly the wing geometry, flight condition and options given, in every history of calls: data kept from an earlier call are served for unchanged inputs only, each table entry belongs to its own Mach number, angle of attack and altitude, "
  "the flow solver is handed the altitude's density, Mach number times speed of sound and Reynolds number, the angle of attack is the one at which the database gives the required lift coefficient, and drag is dynamic pressure times reference area times the database's coefficient plus the non-wing coefficient counted once.",
  ["inputs", "call histories", "configurations"], "all wings, flight conditions, training grids and sequences of evaluations", "Tests compare one or two geometries with stored numbers, each in a fresh process state.",
  ["openconcept/aerodynamics/openaerostruct/drag_polar.py", "openconcept/aerodynamics/openaerostruct/aerostructural.py"], [("database components and drag polar groups", "openconcept/aerodynamics/openaerostruct/drag_polar.py"), ("aerostructural database and drag polar", "openconcept/aerodynamics/openaerostruct/aerostructural.py")], ["outputs and partials of the database components with the analysis replaced by a recording function", "inputs of the flow solver in an assembled group"])
p("E01", "Propulsion components conserve power and mass balance",
  "At every operating point, a power splitter's outputs sum to its input after its efficiency loss, motors, generators and turboshafts satisfy power in = power out + heat with outputs given by throttle times rating and efficiency, fuel flow equals shaft power times specific consumption, "
  "propeller thrust times airspeed equals shaft power times efficiency, component cost and weight are affine in rating, and sizing margin is power over rating.",
  ["inputs", "configurations"], "all power levels, throttles, ratings, efficiencies, splitter rules and node counts", "Tests evaluate defaults at few points; the two splitter rules and clipping regions are sampled thinly.",
  ["openconcept/propulsion/splitter.py", "openconcept/propulsion/motor.py", "openconcept/propulsion/generator.py", "openconcept/propulsion/turboshaft.py", "openconcept/propulsion/propeller.py", "openconcept/propulsion/rubberized_turbofan.py"], [("component energy bookkeeping", "the listed files")])
p("E02", "Battery energy bookkeeping is conserved",
  "At every condition, battery heat equals the inefficient share of the electrical load, the sizing margin is load over rated power, stored energy is weight times specific energy, and the state-of-charge rate equals minus the load over stored energy, "
  "so charge drawn over a segment equals the integral of load over capacity.",
  ["inputs", "configurations"], "all loads, weights, efficiencies, specific powers and energies, node counts", "Tests evaluate a few loads.",
  ["openconcept/energy_storage/battery.py"], [("battery components", "openconcept/energy_storage/battery.py")])
p("T01", "Thermal components obey the first law of thermodynamics",
  "At every state, the heat a fluid stream gains equals mass flow times specific heat times its temperature rise, heat lost by one stream equals heat gained by the other, stored heat rate equals mass times specific heat times temperature rate, mixing and splitting of flows conserve mass and enthalpy, "
  "and a heat pump rejects exactly what it absorbs plus the work it consumes.",
  ["inputs", "configurations"], "all temperatures, flows, heat loads, specific heats, options and node counts", "Tests sample a few steady states.",
  ["openconcept/thermal"], [("energy balances", "openconcept/thermal/*.py")])
p("T02", "Heat exchanger performance respects thermodynamic and resistance laws",
  "Heat exchanger effectiveness lies between zero and one, the larger stream capacity is never used as the limiting one, capacity ratio is at most one, overall conductance is the reciprocal of the sum of the hot and cold convective and fouling resistances, fin efficiency does not exceed one, "
  "pressure drops have the sign and the quadratic flow scaling stated, and cooled devices end between coolant inlet and device temperature.",
  ["inputs", "configurations"], "all flows, geometries, fouling factors and loss coefficients", "Tests use one geometry, zero fouling and one limiting side.",
  ["openconcept/thermal/heat_exchanger.py", "openconcept/thermal/thermal.py", "openconcept/thermal/motor_cooling.py", "openconcept/thermal/battery_cooling.py", "openconcept/thermal/chiller.py"], [("NTU-effectiveness chain", "openconcept/thermal/heat_exchanger.py")])
p("T03", "Ducted-flow relations are mutually consistent",
  "At every duct state, static and total quantities satisfy the isentropic relations and their inverses, density satisfies the ideal-gas law, mass flow is continuous, total temperature and pressure change across a station exactly by the heat and losses added, "
  "the nozzle is choked exactly below the critical pressure ratio, and net force equals the momentum plus pressure balance.",
  ["inputs", "configurations"], "all Mach numbers, temperatures, pressures, areas, gas constants and node counts", "Tests converge one duct.",
  ["openconcept/thermal/ducts.py"], [("duct components", "openconcept/thermal/ducts.py")])
p("H01", "Hydrogen tank geometry and structure follow their definitions",
  "For every radius, length and pressure, tank volume and surface are those of a cylinder with hemispherical ends, stored hydrogen plus ullage fills the tank, wall thicknesses satisfy the stated stress and buckling criteria with the governing one chosen, "
  "each wall and insulation weight is its area times thickness times density, and total weight is the marked-up sum of its parts.",
  ["inputs", "configurations"], "all tank dimensions, pressures, fill levels and material options", "Tests evaluate a couple of tanks.",
  ["openconcept/energy_storage/hydrogen"], [("tank sizing components", "openconcept/energy_storage/hydrogen/*.py")])
p("G01", "Wing planform and tail sizing formulas agree with exact plane geometry",
  "For every trapezoidal planform and every list of wing sections, span, aspect ratio, area, mean aerodynamic chord and its location equal the exact integrals over the planform, a one-panel section list agrees with the trapezoidal formulas, and tail areas reproduce the requested volume coefficients.",
  ["inputs", "configurations"], "all areas, aspect ratios, tapers, section positions and chords, section counts, sub-ranges", "Tests use one or two wings.",
  ["openconcept/geometry", "openconcept/stability"], [("geometry components", "openconcept/geometry/*.py, openconcept/stability/*.py")])
p("N01", "Aerodynamic force, stall and drag-buildup relations hold identically",
  "At every condition drag equals dynamic pressure times area times the parabolic polar, lift equals dynamic pressure times area times lift coefficient, at the reported stall speed maximum lift equals weight, and maximum lift coefficients and skin-friction, form-factor, flap and wave drag "
  "follow their stated correlations and unit conventions.",
  ["inputs", "configurations"], "all weights, areas, speeds, coefficients, Reynolds and Mach numbers, laminar fractions and option values", "Tests evaluate a few points.",
  ["openconcept/aerodynamics"], [("aerodynamic components", "openconcept/aerodynamics/*.py")])
p("W01", "Empty-weight and cost totals count every item exactly once",
  "Each empty-weight or operating-cost total equals the stated factors times the sum of the listed item values in consistent units, every item enters exactly once with positive sign, and per-engine items scale with the number of engines.",
  ["inputs", "configurations"], "all aircraft definitions and factor options", "Tests compare one aircraft total.",
  ["openconcept/weights", "openconcept/costs"], [("weight roll-ups", "openconcept/weights/*.py, openconcept/costs/*.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
