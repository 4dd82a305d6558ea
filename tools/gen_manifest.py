"""writes MANIFEST.json from the registered checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import props

ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": props.TECH[p][0], "level": props.CHECKS[p][1], "level_note": props.TECH[p][1]}
                for p in ids if p in props.CHECKS],
     "not_applicable": [{"property": p, "reason": props.NA.get(p, "not decided yet: its part of the specification is being written")}
                        for p in ids if p not in props.CHECKS],
     "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
