"""python3 tools/refactor.py [GROUP...] [-c C01,C02]: edits that keep the behaviour (tools/refactors/*.py, each a
script with `edit(read, write)`), in a scratch copy; every check's quick run has to stay quiet on them."""
import importlib.util, os, pathlib, subprocess, sys, time
R = pathlib.Path(__file__).resolve().parent
args = sys.argv[1:]
only = None
if '-c' in args:
    i = args.index('-c')
    only = args[i + 1].split(',')
    del args[i:i + 2]
fast = '-n' in args
args = [a for a in args if a != '-n']
SAME = r'''
import sys, pickle, numpy as np, pandas as pd
sys.path.insert(0, sys.argv[1])
import sunwhere as sw
from sunwhere.utils import datetime as dtm
out = {}
t = pd.date_range('1952-01-01 00:00:13', '2099-12-31', periods=301)
r = np.random.default_rng(3)
for z in (None, 'Europe/Madrid', 'Asia/Kolkata'):
    tt = t if z is None else t.tz_localize('UTC').tz_convert(z)
    for uc in ('sites', 'regular_grid', 'transect'):
        n = 301 if uc == 'transect' else 5
        lat, lon = r.uniform(-90, 90, n), r.uniform(-180, 180, n)
        for alg, eng in [(a, e) for a in ('psa', 'soltrack', 'iqbal') for e in ('numpy', 'numexpr')] + [('nrel', 'numexpr')]:
            for ref in (False, True):
                s = getattr(sw, uc)(tt, lat, lon, algorithm=alg, engine=eng, refraction=ref)
                q = {k: getattr(s, k) for k in 'latitude longitude true_solar_time ecf eot declination dec zenith sza elevation azimuth saa cosz'.split()}
                q['tz'] = s.timezone
                if z != 'Asia/Kolkata' and ref:
                    q.update({'eth' + c: s.eth(am_correction=c) for c in ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')})
                    q.update({'am' + c: s.airmass(c) for c in ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')})
                    for u in ('deg', 'rad', 'tst', 'utc', 'local'):
                        q['sr' + u], q['ss' + u] = s.sunrise(u), s.sunset(u)
                    q['dl'], q['inc'] = s.daylight_length(), s.incidence(33., -41.)
                out[z, uc, alg, eng, ref] = q
out['tst'], out['utc'] = dtm.true_solar_time(t.to_numpy(), 12.5), dtm.universal_time_coordinated(t.to_numpy(), 12.5)
for f, a in (('sites', ([91.], [0.])), ('sites', ([0.], [180.])), ('sites', ([0., 1], [0.])), ('transect', ([0.], [0.])), ('regular_grid', ([0., np.nan, -90.1], [0.]))):
    try:
        getattr(sw, f)(t, *a)
        out[f, str(a)] = 'no'
    except Exception as e:
        out[f, str(a)] = type(e).__name__, str(e)
from typer.testing import CliRunner
from sunwhere._cli.main import app
for i, a in enumerate(('2024-06-15T12:00:00 40N 3W', '2024-06-21 80N 3E', '2024-02-11T12:00:30.75 12.5s 3.25W -z Asia/Tokyo -a nrel', '2024-02-11 51N 120W -z America/Vancouver --no-refraction', '2024-12-21 0n 180W', '2024-12-21 0n 180E', '2024-12-21 91n 10E', '2024-01-01 xn 3e', '2024-01-01 3x 3e', '2024-03-31T12:00:00 10N 53E -z Europe/Madrid')):
    r = CliRunner().invoke(app, ['at', *a.split()])
    out['cli', i] = r.exit_code, r.output if r.exit_code == 0 else ''
for k, d in enumerate(pd.date_range('2024-01-01', '2025-01-01', periods=150)):
    out['cli day', k] = CliRunner().invoke(app, ['at', str(d)]).output
pickle.dump(out, open(sys.argv[2], 'wb'))
'''
CMP = r'''
import pickle, sys, numpy as np, xarray as xr
a, b = [pickle.load(open(f, 'rb')) for f in sys.argv[1:]]
def same(x, y, w):
    if isinstance(x, dict):
        assert x.keys() == y.keys(), w
        for k in x: same(x[k], y[k], (w, k))
    elif isinstance(x, xr.DataArray):
        assert x.dims == y.dims and x.name == y.name and x.attrs == y.attrs and set(x.coords) == set(y.coords), (w, x.dims, y.dims)
        for k in x.coords: assert (x[k].values == y[k].values).all(), (w, k)
        same(x.values, y.values, w)
    elif isinstance(x, np.ndarray):
        assert x.dtype == y.dtype and x.shape == y.shape, (w, x.dtype, y.dtype, x.shape, y.shape)
        if x.dtype.kind == 'f':
            ok = np.isclose(x, y, rtol=1e-6, atol=2e-4, equal_nan=True)
            d = np.abs(x - y)
            assert (ok | (np.abs(d - 360) < 1e-6)).all(), (w, np.nanmax(d))
        else:
            assert (np.abs((x.view('i8') - y.view('i8'))) < 2000).all(), w
    else:
        assert x == y, (w, x, y)
same(a, b, '')
'''
for f in sorted((R/'refactors').glob('*.py')):
    if args and f.stem not in args:
        continue
    w = pathlib.Path('/tmp/refwork')
    subprocess.run(f'rm -rf {w}; mkdir {w}; cp -a /repo/src {w}/src', shell=True, check=True)
    spec = importlib.util.spec_from_file_location(f.stem, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    base = w/'src/sunwhere'
    def read(p): return (base/p).read_text()
    def write(p, s): (base/p).write_text(s)
    m.edit(read, write)
    (w/'same.py').write_text(SAME)
    (w/'cmp.py').write_text(CMP)
    py = '/opt/venv/bin/python -B -W ignore'
    r = subprocess.run(f'{py} same.py /repo/src a.pkl && {py} same.py {w}/src b.pkl && {py} cmp.py a.pkl b.pkl', shell=True, cwd=w, capture_output=True, text=True)
    print(f.stem, 'preserves' if r.returncode == 0 else 'CHANGES BEHAVIOUR ' + r.stderr[-900:], flush=True)
    if r.returncode or fast:
        continue
    for c in only or [f'C{i:02}' for i in range(1, 25)]:
        t = time.time()
        r = subprocess.run(['./run', c, 'quick'], cwd=R.parent, env={**os.environ, 'SYMX_REPO_SRC': str(w/'src')}, capture_output=True, text=True)
        l = r.stdout.splitlines()
        u = [x for x in l if x.startswith('UNDECIDED')]
        print(f'  {c} exit {r.returncode} {time.time()-t:.0f} s {"ALARM" if r.returncode else ""} {len(u) or ""} {(u or [""])[0][:250]}', flush=True)
        if r.returncode:
            print('    ' + '\n    '.join(x[:300] for x in l[:6]), r.stderr[-300:])
