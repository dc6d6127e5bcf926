"""python3 tools/table.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
rows = [(d.name, json.load(open(d/'meta.json'))) for d in sorted((R/'seeded').iterdir())]
t = ''.join(f"| {n} | {m['property']} | {m['needs']} |\n" for n, m in rows)
s = (R/'DESIGN.md').read_text()
h = s.index('## Planted bugs')
a = s.index('|---', h)
a = s.index('\n', a) + 1
b = a
while s[b:b+1] == '|':
    b = s.index('\n', b) + 1
(R/'DESIGN.md').write_text(s[:a] + t + s[b:])
