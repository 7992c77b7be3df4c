#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_data.py (the single source)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props_data import PROPS, NOT_APPLICABLE
root = os.path.dirname(os.path.dirname(here))
seen = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in seen, p["id"]
        seen.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p["over"], "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
na = [{"property": i, "reason": " ".join(r.split())} for i, r in NOT_APPLICABLE.items()]
assert all(x["property"] in seen for x in na)
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: " + " ".join(p["tech"].split()),
        "level": "exploration",
        "level_note": " ".join(p.get("note", "Seeded search over schedules and faults, one process per execution; every explored execution satisfied the oracle. Sampling, not proof. Trusts the patched runtime scheduler/clock, the harness model and (where listed) the simulated TCP.").split()),
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none: no hook is committed in /repo",
              "enable": "tools/dsim builds /repo's working tree with 'go build -overlay': a patched scheduler/clock/net in the standard library and a yield call inserted before every statement of the code under test; nothing in /repo changes",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "VERIF_SEED selects the seeds; 'build/dsim replay FILE' (or 'bash replay.sh FILE') re-executes a replay file.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(checks), "checks", len(na), "n/a")
