"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import re
from pathlib import Path

root = Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for meta in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(meta.read_text())
    rows.append(f"| {meta.parent.name} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |")
text = (root / "DESIGN.md").read_text()
text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], text, flags=re.S)
(root / "DESIGN.md").write_text(text)
