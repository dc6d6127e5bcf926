"""python3 tools/seed.py [ID...]: write seeded/ID after confirming it in a scratch copy (build, tests, demonstration)."""
import json, os, pathlib, subprocess, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
from seeds import SEEDS
ROOT = pathlib.Path(__file__).resolve().parent.parent
BASE = '4a16317'
HEAD = '''"""Fails (exit 1) if the repository in the current directory has the defect."""
import os, sys, warnings
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
import sunwhere as sw
'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    want = sys.argv[1:]
    for sid, prop, edits, needs, breaks, demo in SEEDS:
        if want and sid not in want:
            continue
        w = f'/tmp/seedwork'
        sh(f'rm -rf {w}; cp -a /repo {w}')
        ok = True
        for f, reps in edits.items():
            p = pathlib.Path(w, f)
            s = p.read_text()
            for old, new, cnt in reps:
                if old not in s:
                    print(sid, 'NO MATCH in', f); ok = False; continue
                s = s.replace(old, new, cnt)
            p.write_text(s)
        diff = sh(f'git -C {w} diff').stdout
        base = sh(f'git -C /repo show {BASE}:' + list(edits)[0]).stdout
        for f in edits:
            b = set(sh(f'git -C /repo show {BASE}:{f}').stdout.splitlines())
            cur = None
            for l in diff.splitlines():
                if l.startswith('--- a/'):
                    cur = l[6:]
                elif cur == f and l.startswith('-') and l[1:] not in b:
                    print(sid, 'changes a line of our own:', l); ok = False
        d = ROOT/'seeded'/sid
        d.mkdir(parents=True, exist_ok=True)
        (d/'patch.diff').write_text(diff)
        (d/'demo.py').write_text(HEAD + demo)
        (d/'demo.sh').write_text(SH)
        os.chmod(d/'demo.sh', 0o755)
        (d/'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        a = sh(f'bash {d}/demo.sh', cwd='/repo')
        b = sh(f'bash {d}/demo.sh', cwd=w)
        t = sh(f'PYTHONPATH={w}/src:/opt/vp/plugins /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_fixed_seed --timeout=300 tests 2>&1 | tail -3', cwd=w)
        c = sh(f'git -C /repo apply --check {d}/patch.diff')
        good = ok and a.returncode == 0 and b.returncode != 0 and '20 passed' in t.stdout and c.returncode == 0
        print(sid, prop, 'OK' if good else 'BAD', '' if good else (a.returncode, a.stderr[-400:], b.returncode, b.stdout[-200:], t.stdout[-300:], c.stderr[:200]), '|', b.stderr.strip().splitlines()[-1][:150] if b.stderr else '')
    sh('rm -rf /tmp/seedwork')


main()
