"""Renders DESIGN.md from tools/design.tmpl, tools/properties.py ('method' fields), seeded/*/meta.json and tools/caught.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ns: dict = {}
exec((V / "tools" / "properties.py").read_text(), ns)
out = []
for p in ns["PROPS"]:
    out.append(f"### {p['id']} {p['title']}\n\n{p.get('method', '').strip()}\n")
for p in ns["NA"]:
    out.append(f"### {p['id']} {p['title']} (not applicable)\n\n{p['reason']}\n")
caught = json.loads((V / "tools" / "caught.json").read_text())
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, '?')} |")
t = (V / "tools" / "design.tmpl").read_text()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows))
t = t.replace("@@KNOWN@@", ns.get("KNOWN", "")).replace("@@DROPPED@@", ns.get("DROPPED", ""))
(V / "DESIGN.md").write_text(t)
