#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from tools/props/*.json (one file per property)."""
import json, glob, os
V = "/verif"
TECH = "contract-based deductive verification (Verus) of functions extracted from /repo on every run"
ps = [json.load(open(f)) for f in sorted(glob.glob(V + "/tools/props/*.json"))]
with open(V + "/properties.jsonl", "w") as o:
    for p in ps:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        o.write(json.dumps(q) + "\n")
checks, na, cfg = [], [], {}
for p in ps:
    if "not_applicable" in p:
        na.append({"property": p["id"], "reason": p["not_applicable"]}); continue
    cfg[p["id"]] = p["check"]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p.get("technique", TECH),
        "level": "proof",
        "level_note": p["level_note"],
    })
src = json.load(open(V + "/tools/hooks.json"))
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "cfg vp_hooks", "enable": "RUSTFLAGS='--cfg vp_hooks' (set by check.py for the harness crate)", "source_commits": src},
    "checks": checks, "not_applicable": na,
    "notes": "See DESIGN.md. Every check: extraction of the functions from /repo, Verus on them, a reachability (vacuity) run, and the replay harness that evaluates the same contracts on the compiled code.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(cfg, open(V + "/checks.json", "w"), indent=1)
print(len(ps), "properties,", len(checks), "claimed")
