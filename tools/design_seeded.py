"""Rewrite the table of section 5 of DESIGN.md from seeded/*/meta.json (a development tool, not used by checks)."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
rows = {}
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.setdefault(m["property"], []).append(d.name)
text = "\n".join(f"| {p} | {', '.join('`' + n + '`' for n in rows[p])} |" for p in sorted(rows))
f = root / "DESIGN.md"
s = f.read_text()
s = re.sub(r"(\| reported by \| planted changes \|\n\|---\|---\|\n).*?(?=\n\n)", lambda m: m[1] + text, s, flags=re.S)
f.write_text(s)
