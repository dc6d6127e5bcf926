"""writes /verif/MANIFEST.json from the claims below (python3-vt tools/mkmanifest.py)"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTE = {}
exec((ROOT/'tools'/'claims.py').read_text())
props = [json.loads(x) for x in (ROOT/'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:  # noqa: F821
        tech, note = CLAIMS[i]  # noqa: F821
        checks.append(dict(property=i, quick_cmd=f'./run {i} quick', thorough_cmd=f'./run {i} thorough', technique=tech,
                           level='model_checking', level_note=note, evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))  # noqa: F821
m = dict(version=1, setup_cmd='./run setup', checks=checks, not_applicable=na,
         notes='Symbolic execution of the real sources into a term DAG, decided by z3; see DESIGN.md.')
(ROOT/'MANIFEST.json').write_text(json.dumps(m, indent=1, ensure_ascii=False) + '\n')
print(len(checks), 'claimed', len(na), 'not')
