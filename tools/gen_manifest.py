#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: "
CLAIMED = {
 "C01": (T+"random value pairs per key type (shrinking choice sequences) against the values' own order and equality; exhaustive small domains", "exploration",
  "Searches value pairs over about 120 key types and compositions; absence of a counterexample is evidence, not proof. Two known findings (signed fixed-width order, null-prefix order in composites) are matched by exact signatures."),
}
import sys
sys.path.insert(0, os.path.join(here, "tools"))
try:
    from claims import MORE, NOT_APPLICABLE
except ImportError:
    MORE, NOT_APPLICABLE = {}, {}
CLAIMED.update(MORE)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [
  {"property": i, "quick_cmd": f"bash run.sh {i} --tier quick", "thorough_cmd": f"bash run.sh {i} --tier thorough",
   "technique": CLAIMED[i][0], "level": CLAIMED[i][1], "level_note": CLAIMED[i][2]}
  for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "its check is not built yet")} for i in ids if i not in CLAIMED],
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
