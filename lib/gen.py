#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the catalogue."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, checks, na = [], [], []
for p in sorted(catalog.ALL, key=lambda p: p["id"]):
    assert len(p["title"]) <= 80, p["id"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
    rows.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}})
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    b = p["bounds"] if isinstance(p["bounds"], str) else p["bounds"]["quick"]
    checks.append({"property": p["id"], "quick_cmd": f"python3 lib/run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 lib/run.py {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": "symbolic execution of clazy's compiled code (LLVM instrumentation) with Z3",
                   "level": "model_checking",
                   "level_note": (f"The solver decides every assertion for every value within the bounds ({b}); counterexamples are replayed on an uninstrumented build. "
                                  + (f"Outside: {p['outside']}. " if p["outside"] else "") + (p["note"] or "") + "Trusted: the instrumentation pass and runtime, clang 20's front end, "
                                  "the library models in harness/sup.cpp, and the reference in the harness.").strip()})
with open(f"{V}/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": {"guard": "CLAZY_VERIF", "enable": "no hooks: /repo carries no instrumentation", "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "See DESIGN.md. known_findings.txt lists genuine defects (fixed and recorded)."}, f, indent=1)
    f.write("\n")
