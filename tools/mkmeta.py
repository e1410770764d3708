#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand, output committed)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ns: dict = {}
exec((V / "tools" / "properties.py").read_text(), ns)
props, na = ns["PROPS"], ns["NA"]
PY = "/opt/venv/bin/python /verif/checks/run.py"
with open(V / "properties.jsonl", "w") as f:
    for p in props + na:
        r = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(r["title"]) <= 80, r["id"]
        for fn in r["anchors"]["files"]:
            assert (Path("/repo") / fn).exists(), fn
        f.write(json.dumps(r) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import torch, pyqtorch'",
    checks=[
        dict(
            property=p["id"],
            quick_cmd=f"{PY} {p['id']} --tier quick",
            thorough_cmd=f"{PY} {p['id']} --tier thorough",
            evidence_file=f"/verif/evidence/{p['id']}.json",
            technique="symbolic execution of the real code (every ATen operation on symbolic tensors), decided by z3; counterexamples replayed",
            level="other",
            level_note=p["note"],
        )
        for p in props
    ],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in na],
    notes="Known findings and repaired defects: known_findings.json. Engine in symq/, harnesses in checks/p_*.py, oracle in checks/oracle.py.",
)
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(props), "claimed,", len(na), "not applicable")
