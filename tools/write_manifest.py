"""Regenerates /verif/MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
 "P19": "Contraction kernels and matrix wrappers are pure functions of their arguments: no schedule, state, time, I/O or fault "
        "for a simulator to decide. They run as real code inside every simulated history, where wrong values surface through the other properties.",
 "P20": "The compiled and GPU kernels are pure functions and are neither built nor importable here (no Cython build, no GPU), so no simulated run can execute them.",
}
TECH = "deterministic simulation with fault injection: seeded operation histories and faults against an independent reference model"
NOTE = ("Seeded random search over histories, configurations and faults with every nondeterminism source simulated; evidence for what "
        "was sampled, not a proof. Trusts numpy/LAPACK and the small reference model in sim/.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "sim", "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check still under construction.")))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
         hooks=dict(guard="EVOMPS_SIM", enable="No hooks in /repo were needed: the simulator replaces module attributes (numpy/scipy entry points, open, clock) before importing evoMPS.", source_commits=[]),
         notes="See DESIGN.md. ./check <id> quick|thorough, ./check --replay FILE.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
