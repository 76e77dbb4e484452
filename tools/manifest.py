#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (kept as code so that it stays valid)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 25)]
TRUST = ("Assumes: the translation of Go SSA to obligations by vcgen, z3; machine integers treated as mathematical; "
         "content types outside the module behave as the interface contracts say. ")
claims = {}
def claim(p, technique, level, note):
    claims[p] = dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                     thorough_cmd="python3 check.py %s --tier thorough" % p,
                     evidence_file="evidence/%s.json" % p,
                     technique=technique, level=level, level_note=note)
CT = "contracts on the real Go functions, obligations generated from go/ssa by vcgen and discharged by z3; generated inputs on the real code as bounded stand-in and to find failing inputs"
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
na = [dict(property=p, reason=NA.get(p, "no contract built yet")) for p in ALL if p not in claims]
m = dict(version=1,
         setup_cmd="python3 check.py --setup",
         checks=[claims[p] for p in ALL if p in claims],
         not_applicable=na,
         notes="Every check builds vcgen and the harness from /verif and reads /repo's current tree; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
