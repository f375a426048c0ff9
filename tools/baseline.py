#!/usr/bin/env python3
"""Records which contracts are proved on the unchanged tree (from the evidence of a run of all checks)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(os.listdir(os.path.join(HERE, "evidence"))):
    d = json.load(open(os.path.join(HERE, "evidence", f)))
    if d["coverage"]["proved_contracts"]:
        out[d["property"]] = d["coverage"]["proved_contracts"]
json.dump(out, open(os.path.join(HERE, "prover", "baseline.json"), "w"), indent=1)
