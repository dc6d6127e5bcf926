"""Replays a counterexample on the real, unpatched code: python replay.py FILE.json
exit 1 = the violation is reproduced, 0 = it is not."""
import json
import pathlib
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here.parent))
if not any('sunwhere' in p or p.endswith('/repo/src') for p in sys.path):
    sys.path.insert(0, '/repo/src')


def main():
    txt = sys.stdin.read() if sys.argv[1] == '-' else open(sys.argv[1]).read()
    spec = json.loads(txt)
    from checks import oracles
    try:
        r = getattr(oracles, spec['oracle'])(**spec['params'])
    except Exception:
        r = {'error': traceback.format_exc()}
    print('RESULT ' + json.dumps(r, default=oracles.js))
    if sys.argv[1] != '-':
        print(r.get('message', r.get('error', 'not reproduced')))
    return 1 if r.get('violated') else 0


if __name__ == '__main__':
    sys.exit(main())
