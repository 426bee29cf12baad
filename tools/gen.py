#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from catalogue import PROPS, NOT_APPLICABLE  # noqa: E402

LEVEL_NOTE = (
    "Symbolic execution of the real functions (regenerated from /repo on every run); z3 decides every claim for all "
    "real inputs in the stated boxes and array sizes. Trusts: z3, the normaliser and rewriting rules of symx, the "
    "real-number reading of floating point, and the stated contracts of scipy/hmf leaves. "
)
with open(V / "properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p["id"] in na or not (V / "props" / f"{p['id'].lower()}.py").exists():
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "symbolic execution of the Python source with z3 deciding each claim; counterexamples replayed on the real code",
        "level": "model_checking",
        "level_note": LEVEL_NOTE + p.get("note", ""),
    })
missing = [p["id"] for p in PROPS if p["id"] not in na and p["id"] not in {c["property"] for c in checks}]
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --selftest",
    "checks": checks,
    "not_applicable": NOT_APPLICABLE + [{"property": m, "reason": "check under construction"} for m in missing],
    "notes": "No hooks in /repo: the checks execute the unmodified sources with symbolic stand-ins for numpy/scipy.",
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks;", "missing", missing)
