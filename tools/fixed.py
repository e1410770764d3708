"""Fills the 'fixed' list of known_findings.json from the fix: commits of /repo and the map below."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent
PROP = json.loads((V / "tools" / "fixed_props.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s", "a6ac9bf..HEAD"], capture_output=True, text=True).stdout
k = json.loads((V / "known_findings.json").read_text())
k["fixed"] = []
for line in log.splitlines():
    h, s = line.split("\t")
    if s.startswith("fix: "):
        p, what = PROP[s[5:]]
        k["fixed"].append(f"fixed: property={p} {h} {what}")
(V / "known_findings.json").write_text(json.dumps(k, indent=1) + "\n")
