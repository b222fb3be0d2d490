#!/usr/bin/env python3
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, V + "/mc")
from properties_map import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import subprocess
hooks = ["80a00d9"]
out = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "hooks": {"guard": "MLIO_VERIF",
                 "enable": "The checks compile /repo's sources themselves (mc/build.py) with -DMLIO_VERIF; the sizes of internal buffers then become variables of namespace mlio_verif.",
                 "source_commits": hooks},
       "checks": [], "not_applicable": [],
       "notes": "See DESIGN.md. Every check builds its harness from /repo's working tree into /verif/.build."}
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        out["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
        continue
    out["checks"].append({"property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "stateless model checking of the implementation (exhaustive within bounds)"),
        "level": "model_checking",
        "level_note": c.get("note", "Every execution within the stated bounds is run on the real code and compared with a reference model.")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
