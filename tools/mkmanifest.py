#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J  # noqa: E402

TOP = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(TOP, "properties.jsonl"))]
WHAT = {"mc": "histories of statements", "text": "texts from pools of pieces", "layout": "laid-out files", "size": "large files", "many": "files with tens of thousands of something",
        "write": "models written down", "swap": "statements exchanged", "join": "files put together", "purity": "schedules of calls", "trace": "recorded random runs"}
checks = []
for p in props:
    plan = J.PLAN[p["id"]]
    kinds = [k for k in ("purity", "mc", "text", "layout", "size", "many", "write", "swap", "join", "trace") if any(j[0] == k for j in plan["quick"])]
    gen = ", ".join(WHAT[k] for k in kinds if k != "trace")
    inv = J.INVARIANTS.get(p["id"], [])
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ specification model-checked with TLC" + (" (%s)" % ", ".join(inv) if inv else "") +
                     "; every behaviour TLC generates (%s) is replayed into the library" % gen +
                     (", and recorded random runs of the library are validated by TLC as behaviours of the specification" if "trace" in kinds else ""),
        "level": "model_checking",
        "level_note": "Exhaustive over the bounded alphabets, pools and depths listed in the evidence file; beyond them, random recorded runs. " +
                      "Trusts TLC, Rust's f32 parser as the meaning of a decimal literal, and the harness's projection of the returned structures.",
    })
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: every check uses only the public functions load_obj and load_mtl. Commands run in /verif. "
                    "python3 check.py replay FILE judges a replay file again."},
          open(os.path.join(TOP, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
