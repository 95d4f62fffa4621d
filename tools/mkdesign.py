"""Writes the table of planted bugs into DESIGN.md."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
rows = ['| bug | needs | breaks |', '|---|---|---|']
for d in sorted((V / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['needs']} | {m['what_it_breaks']} |")
p = V / 'DESIGN.md'
s = p.read_text()
a, b = s.split('<!-- seeded -->')[0], s.split('<!-- /seeded -->')[1]
p.write_text(a + '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->' + b)
