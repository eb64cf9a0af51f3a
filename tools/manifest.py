#!/usr/bin/env python3
"""Write MANIFEST.json from checks.json (run by hand after editing checks.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/checks.json"))
checks = []
for k in sorted(x for x in c if not x.startswith("_")):
    p = c[k]
    checks.append({
        "property": k, "quick_cmd": "./check %s quick" % k, "thorough_cmd": "./check %s thorough" % k,
        "technique": "symbolic execution of the compiled code (LLVM IR), path conditions and assertions decided by Z3",
        "level": "model_checking",
        "level_note": "Every path of the harness entries within the bounds is explored and decided by the solver; "
                      "counterexamples and sampled paths are replayed natively. Bounds: " + p["bounds"]
                      + " Outside: " + p.get("outside", ""),
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": c.get("_not_applicable", [])}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
claimed = {x["property"] for x in checks} | {x["property"] for x in m["not_applicable"]}
assert set(ids) == claimed, (set(ids) ^ claimed)
