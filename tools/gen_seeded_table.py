"""Rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
also = json.loads((root / "tools/also_caught.json").read_text()) if (root / "tools/also_caught.json").exists() else {}
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["what_it_breaks"], m["needs"]))
rows.sort()
out = ["| caught by | planted bug | what it breaks | needs |", "|----|----|----|----|"]
out += [f"| {', '.join([p, *also.get(n, [])])} | {n} | {b} | {k} |".replace("\n", " ") for p, n, b, k in rows]
f = root / "DESIGN.md"
s = f.read_text()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
f.write_text(s[:i] + "\n".join(out) + "\n" + s[j:])
