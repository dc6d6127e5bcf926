"""Runs the oracle of every job of every check on the real code with several seeds: on a tree where the
properties hold all of them must find nothing, else an obligation that merely stays undecided would raise an alarm.

  soak.py [-s SEED,SEED] [C01 ...]"""
import concurrent.futures as cf
import importlib
import inspect
import json
import sys
sys.path.insert(0, '/verif')
sys.path.insert(1, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from checks import common as C, oracles  # noqa: E402

args = sys.argv[1:]
seeds = [11, 12, 13]
if args[:1] == ['-s']:
    seeds = [int(x) for x in args[1].split(',')]
    args = args[2:]
specs = []
for c in args or [f'C{i:02}' for i in range(1, 24)]:
    jobs = []
    C.Check.run_jobs = lambda self, js, *a, **k: jobs.extend(js)
    m = importlib.import_module('checks.' + c.lower())
    try:
        m.main(C.Check(c, 'quick'))
    except Exception as e:
        print(c, 'main', repr(e)[:200])
    seen = set()
    flat = []
    for j in jobs:
        x = j[1][0] if j[1] else None
        flat += x if isinstance(x, list) and x and isinstance(x[0], tuple) and callable(x[0][0]) else [j]
    miss = sum(len(j) < 3 for j in flat)
    if miss:
        print(c, miss, 'jobs without oracle')
    for j in flat:
        if len(j) < 3:
            continue
        o, p = j[2]
        for s in seeds if 'seed' in inspect.signature(getattr(oracles, o)).parameters else seeds[:1]:
            q = dict(p, seed=s) if 'seed' in inspect.signature(getattr(oracles, o)).parameters else p
            k = json.dumps([o, q], default=str, sort_keys=True)
            if k not in seen:
                seen.add(k)
                specs.append({'property': c, 'oracle': o, 'params': q})
    print(c, len(jobs), 'jobs', len(seen), 'replays', flush=True)


def go(s):
    return s, C.run_oracle(s, 900)


with cf.ThreadPoolExecutor(6) as ex:
    n = 0
    for s, r in ex.map(go, specs):
        n += 1
        if r.get('violated') or r.get('error'):
            print(s['property'], s['oracle'], str(s['params'])[:200], '->', str(r.get('message') or r.get('error'))[-500:], flush=True)
print(n, 'replays')
