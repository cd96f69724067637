#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN, PROPS_INFO
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = {}
BUILD = {"rel": "optimised", "ndebug": "optimised without assertions", "asan": "ASan+UBSan+LSan", "asannd": "ASan+UBSan without assertions", "tsan": "ThreadSanitizer"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason=NA.get(i, "check not written yet")))
        continue
    info = PROPS_INFO[i]
    kinds = sorted({BUILD[s["variant"].split("-")[0]] for s in PLAN[i]})
    checks.append(dict(
        property=i,
        quick_cmd="python3 run.py %s --tier quick" % i,
        thorough_cmd="python3 run.py %s --tier thorough" % i,
        technique=info.get("technique", "runtime monitoring: monitors and sanitizers over instrumented runs with exact reference oracles over generated workloads"),
        level=info.get("level", "exploration"),
        level_note=info.get("note", "Observed executions only: a violation is real, a pass covers the generated cases recorded in the evidence. Builds: %s, gcc 13, this machine's instruction sets." % ", ".join(kinds)),
    ))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="SVS_VERIF_HOOKS", enable="run.py compiles every driver with -DSVS_VERIF_HOOKS=1", source_commits=["f471858", "edc878c"]),
         checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
