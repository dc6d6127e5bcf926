"""python3 tools/catch.py [ID...]: which planted bugs their property's quick check catches (in a scratch copy)."""
import json, os, pathlib, subprocess, sys, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
want = sys.argv[1:]
for d in sorted((ROOT/'seeded').iterdir()):
    if want and d.name not in want:
        continue
    p = json.load(open(d/'meta.json'))['property']
    w = '/tmp/catchwork'
    subprocess.run(f'rm -rf {w}; mkdir {w}; cp -a /repo/src {w}/src; cd {w} && git init -q . && git apply {d}/patch.diff', shell=True, check=True)
    t = time.time()
    r = subprocess.run(['./run', p, 'quick'], cwd=ROOT, env={**os.environ, 'SYMX_REPO_SRC': w + '/src'}, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(f'{d.name:30} {p} exit {r.returncode} {"CAUGHT" if r.returncode == 1 and v else "MISSED"} {time.time()-t:.0f} s', flush=True)
    if not v:
        print(r.stdout[:1500], r.stderr[-300:])
subprocess.run('rm -rf /tmp/catchwork', shell=True)
