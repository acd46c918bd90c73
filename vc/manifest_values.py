"""technique and level note of each value property, for MANIFEST.json"""
E = "discharged for all inputs by the exact normal-form, interval and z3 back ends over the symbolically executed real setup/compute/apply_nonlinear code"
N = "Inputs, float options and (where the code allows) num_nodes are symbolic; reals stand for floats; structural options are enumerated; a refuted obligation is confirmed by running the real component before it is reported. "
def v(what, note=""): return ("postcondition contracts (%s), %s" % (what, E), N + note)
VALUES = {
 "A01": v("ISA layers, hydrostatic balance, gas law, speed of sound, dynamic pressure, Mach, airspeed conversions"),
 "F01": v("force balances of the acceleration, lift-coefficient and climb-angle components and of every flight-phase group around an arbitrary aircraft model"),
 "F02": v("velocity triangle, speed/height/range histories and end conditions of every flight-phase group, transition arc, climb triangle, balanced-field residual, airspeed conversions"),
 "F04": v("what the duration, throttle and decision-speed solvers of every assembled mission profile are asked to balance, and where each takeoff phase starts", "The leaf components of the phases are given the contract true (arbitrary outputs), the requested altitudes, ranges, speeds and durations are symbolic; num_nodes is 3 (labelled bounded)."),
 "N01": v("polar drag, lift, stall speed, CLmax, skin friction, form factors, flap and wave drag, drag build-ups, critical-section maximum lift"),
 "N02": v("inputs and outputs of the flow solver, drag polars, and histories of calls on the database components with the analysis left an arbitrary function", "Histories of up to three calls over two instances, small meshes and tables (labelled bounded); numeric inputs are symbolic. The OpenAeroStruct solver itself is assumed."),
 "W01": v("weight items, roll-ups, operating cost"),
 "I01": v("integral of a quadratic/cubic rate history with symbolic coefficients, linearity in symbolic rates", "num_nodes and the number of segments are enumerated (labelled bounded); rates, durations and initial values are symbolic."),
 "I02": v("start, join, final value, time specifications, excluded segments", "num_nodes and the number of segments are enumerated (labelled bounded)."),
 "I03": v("derivative of a sampled polynomial with symbolic coefficients and time step", "num_nodes and the number of segments are enumerated (labelled bounded)."),
 "U01": v("position of every entry after joining/splitting", "vector lengths symbolic where the code allows, otherwise enumerated."),
 "U02": v("sums and products of named inputs"),
 "U03": v("selector, interpolation, extremum, relabelling"),
 "E01": v("power, heat and fuel balances, sizing laws"),
 "E02": v("battery heat, sizing margin, stored energy, state-of-charge rate"),
 "T01": v("enthalpy balances, heat-rate balances, mixing, splitting, heat pump"),
 "T02": v("effectiveness, capacity ratio, conductance, fin efficiency, pressure drops, ordering of temperatures"),
 "T03": v("isentropic relations, gas law, continuity, choking, net force"),
 "H01": v("volumes, areas, wall thickness criteria, component weights, totals"),
 "G01": v("area, span, MAC and sweep integrals, tail volume coefficients", "the number of wing sections is enumerated (2, 3, 4 ...)."),
 "F03": ("contracts on the linking functions (_link_phases, find_integrators_in_model, PhaseGroup.configure, link_phases/_configure), discharged by exhaustive case enumeration over arbitrary (opaque) names; the connection table of every mission profile compared with the linking contract",
   "Names are arbitrary; lists of states are enumerated up to two or three entries; the assembled missions are checked for generated aircraft models (labelled bounded). That a connected input equals its source is OpenMDAO's contract; that a history starts at the initial value and the final value is its last entry is I02."),
}
