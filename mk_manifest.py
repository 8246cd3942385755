#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/texts.py."""
import json
from vlib.texts import TEXT
doc = dict(version=1, setup_cmd="python3 check.py --setup",
           checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                        evidence_file="evidence/%s.json" % p, technique=t["technique"], level=t.get("level", "exploration"), level_note=t["level_note"])
                   for p, t in sorted(TEXT.items())],
           not_applicable=[],
           notes="No hooks in /repo are needed: the public API, the allocator boundary, memory protection and single-stepping give all observations. See DESIGN.md.")
json.dump(doc, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
