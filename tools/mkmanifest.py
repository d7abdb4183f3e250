"""Writes MANIFEST.json from vlib/registry.py and tools/notes.json."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from vlib import registry
notes = json.load(open(os.path.join(R, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
for p in props:
    if p not in registry.CHECKS:
        continue
    n = notes["checks"][p]
    checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=n["technique"], level=registry.CHECKS[p][2], level_note=n["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none: no hooks were needed, the checks use the public API and the network only", enable="(nothing to enable)", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p, reason=notes["not_applicable"].get(p, "not built yet")) for p in props if p not in registry.CHECKS],
         notes=notes["notes"])
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
