"""Writes MANIFEST.json: one check per checks/cNN.py, the rest not claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C43": "The module behind it (train_value) imports a module that does not "
           "exist in the tree, so no execution can be observed to bind a "
           "specification to.",
}
NOTES = {}
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": "TLA+ specification checked with TLC; conformance by "
            "replaying specification behaviours into, and validating recorded "
            "calls of, the real code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "Exhaustive over the bounded "
                                    "specification and over the recorded calls;"
                                    " the code is observed on the generated "
                                    "inputs, not for all inputs."),
        })
    else:
        na.append({"property": i, "reason": NA.get(
            i, "Not covered yet: no check is built for it.")})
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks: every observation is "
               "made through the public API.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "./check <id>; VERIF_TIER and VERIF_SEED from the environment."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
