#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ("value-graph dataflow (gated SSA, global value numbering): normal forms of what each anchor function "
       "returns and does are compared with those of a reviewed reference program")
NOTE = ("Decides, for every input, that the anchors of the property return and do what the reference does; trusts the "
        "models of library functions, the summaries of loops, and that the reference has the property. What cannot be "
        "put into a normal form is reported as undecided, not as a violation.")
claimed = json.load(open(os.path.join(here, "tools", "claims.json")))
checks = []
for c in claimed["checks"]:
    checks.append({
        "property": c["id"],
        "quick_cmd": "bash check.sh %s quick" % c["id"],
        "thorough_cmd": "bash check.sh %s thorough" % c["id"],
        "technique": c.get("technique", REF),
        "level": "other",
        "level_note": c.get("note", NOTE),
    })
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": claimed["not_applicable"]}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
