#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and checks.json from the table in props.py."""
import json, os, subprocess
from props import P, NA, HOOK_COMMITS
V = os.path.dirname(os.path.abspath(__file__))
E = "server/src/engine/"
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": [E + x for x in p["files"]],
                        "mechanism": [{"name": n, "where": E + w} for n, w in p["mech"]]},
        }) + "\n")
checks = {}
man = {"version": 1, "setup_cmd": "cargo kani --version",
       "hooks": {"guard": "cfg(skyverif)",
                 "enable": "harness/build.rs passes --cfg skyverif; SKYVERIF_DIR names the directory of harness bodies (set by run.py)",
                 "source_commits": HOOK_COMMITS},
       "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "run.py <ID> decides one property; see DESIGN.md. Exit 2 means no answer (compile failure or unreproduced counterexample)."}
for p in P:
    checks[p["id"]] = {"harnesses": p["harnesses"], "assumptions": p.get("assume", []), "outside": p["outside"]}
    for k in ("cbmc_args", "flags", "jobs", "unwind_hint", "harness_timeout"):
        if k in p: checks[p["id"]][k] = p[k]
    man["checks"].append({
        "property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "bounded symbolic execution of the real Rust source (Kani -> CBMC -> SAT), counterexamples replayed",
        "level": "other",
        "level_note": "Holds for every value within the stated bounds (unwinding assertions on); outside: " + p["outside"]
                      + (" Trusts: " + "; ".join(p["assume"]) if p.get("assume") else "")
                      + " Trusted base: Kani's MIR translation, CBMC, the SAT solver."})
json.dump(checks, open(f"{V}/checks.json", "w"), indent=1)
json.dump(man, open(f"{V}/MANIFEST.json", "w"), indent=1)
