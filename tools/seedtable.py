"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import json, pathlib
rows = []
for d in sorted((pathlib.Path(__file__).parent.parent / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    files = sorted({l[6:].strip() for l in (d / 'patch.diff').read_text().splitlines() if l.startswith('+++ b/')})
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} |")
print('| id | caught by | what it breaks |\n|---|---|---|')
print('\n'.join(rows))
