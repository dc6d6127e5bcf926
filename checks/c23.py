"""C23: the container and the number type of the inputs do not matter.

Every use case and algorithm is executed on symbolic values held in each kind of container and type; each
entry of each result is proved to be the term of the execution on float64 arrays and a nanosecond index."""
import numpy as np
import xarray as xr

from symx import pdshim, smt, terms as T
from symx.arr import SymArray
from . import common as C

N = 2
OUT = [*C.RAW, 'latitude', 'longitude', 'true_solar_time', "sunrise('utc')", "sunset('deg')", 'daylight_length()', 'incidence(30., 20.)']
TICK = {'D': 86400, 'h': 3600, 'm': 60, 's': 1, 'ms': 10**-3, 'us': 10**-6, 'ns': 10**-9}
PLACES = ('f4', 'i8', 'i4', 'i2', 'u1', 'i8 f8', 'f8 f4', 'f8 u1', 'list', 'tuple', 'integers', 'mixed', 'object', 'series', 'data array', 'scalar', '0-d', 'integer')
TIMES = (*(f'array {u}' for u in TICK), 'list of timestamps', 'data array', 'texts', 'text', '0-d s', '0-d us', 'timestamp')
ONE = ('scalar', '0-d', 'integer', 'text', '0-d s', '0-d us', 'timestamp')


class Series:
    """a pandas Series: entries are looked up by label"""

    def __init__(self, a):
        self.a = a
        self.index = list(range(10, 10 - len(a), -1))

    values = property(lambda s: s.a)
    dtype = property(lambda s: s.a.dtype)
    shape = property(lambda s: s.a.shape)
    size = property(lambda s: s.a.size)
    ndim = 1
    def to_numpy(self, *a, **k): return self.a
    def __symarray__(self): return self.a
    def __array__(self, *a, **k): return self.a.__array__()
    def __len__(self): return len(self.a)
    def __iter__(self): return iter(self.a)
    def __getitem__(self, k): return Series(self.a[k]) if isinstance(k, slice) else self.a[self.index.index(k)]


def build(vs, form):
    """(the input, the same values as a float64 array)"""
    def arr(ns, dt):
        return SymArray(C.obj(list(ns)), dt)
    exact = arr([T.toreal(v) for v in vs], 'f8')
    if form in ('list', 'integers', 'mixed'):
        return list(vs), exact
    if form == 'tuple':
        return tuple(vs), exact
    if form == 'object':
        return arr(vs, 'O'), exact
    if form == 'series':
        return Series(arr(vs, 'f8')), exact
    if form == 'data array':
        return xr.DataArray(arr(vs, 'f8'), dims='point'), exact
    if form in ('scalar', 'integer'):
        return vs[0], exact
    if form == '0-d':
        return arr(vs, 'f8').reshape(()), exact
    return arr(vs, form), exact


def kinds(form):
    """number types of latitude and longitude and their ranges"""
    f = form.split() if form[:2] in ('f8', 'i8') and ' ' in form else [form]*2
    out = []
    for i, k in enumerate(f):
        real = k in ('f4', 'f8', 'list', 'tuple', 'object', 'series', 'data array', 'scalar', '0-d')
        b = ((-90, 90), (-180, 180, True))[i] if real else ((-90, 90), (-180, 179))[i]
        if k == 'u1':
            b = (0, b[1])
        out.append((k, 'R' if real else 'I', b))
    return out


def job(chk, uc, alg, eng, ref, what, forms):
    m = C.sw()
    chk.functions |= {'sunwhere.usecases.'+uc, 'sunwhere._core.evaluate', 'sunwhere._base.Sunpos', 'sunwhere.utils.validate.check_timelatlon',
                      f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos'}
    for form in forms:
        one = form in ONE
        nt = ny = 1 if one else N
        nx = ny
        name = f'{uc} {alg}/{eng} refraction={ref}: {what} as {form}'
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, what=what, form=form)
        b = C.bounds(nt, ny, nx)
        env = C.sample_env(nt, ny, nx)
        tv = [T.var(f't{i}', 'I') for i in range(nt)]
        tms = base_t = pdshim.SymIndex(tv, 's', None)
        lat = base_a = C.floats('a', ny)
        lon = base_o = C.floats('o', nx)
        pdshim.TEXTS.clear()
        if what == 'places':
            got = []
            for p, n, (k, typ, bnd) in zip('ao', (ny, nx), kinds(form)):
                vs = [T.var(f'{p}{i}', typ if form != 'mixed' else 'RI'[i % 2]) for i in range(n)]
                for i in range(n):
                    b[f'{p}{i}'] = bnd
                    if vs[i].typ == 'I':
                        env[f'{p}{i}'] = np.clip(np.round(env[f'{p}{i}']), bnd[0], bnd[1]).astype('i8')
                        if form == 'mixed':
                            b[f'{p}{i}'] = ((-90, 90), (-180, 179))[p == 'o']
                got.append(build(vs, k))
            (lat, base_a), (lon, base_o) = got
        else:
            u = form.split()[1] if form.split()[0] in ('array', '0-d') else 'us' if form in ('list of timestamps', 'timestamp') else 's' if 'text' in form else 'ns'
            f = TICK[u]
            for i in range(nt):
                b[f't{i}'] = (-(-C.T0//f) if f >= 1 else C.T0*round(1/f), C.T1//f if f >= 1 else C.T1*round(1/f))
                v = env[f't{i}']
                env[f't{i}'] = v//f if f >= 1 else np.array([int(x)*round(1/f) + 7*j % round(1/f) for j, x in enumerate(v)], object)
            raw = SymArray(C.obj(tv), f'M8[{u}]')
            if form.startswith('array'):
                tms = raw
            elif form.startswith('0-d'):
                tms = raw.reshape(())
            elif form == 'data array':
                tms = xr.DataArray(raw, dims='time')
            elif form == 'list of timestamps':
                tms = list(pdshim.SymIndex(tv, u, None))
            elif form == 'timestamp':
                tms = pdshim.SymIndex(tv, u, None, True)
            else:
                for i, v in enumerate(tv):
                    pdshim.TEXTS[f'<time {i}>'] = pdshim.SymIndex([v], u, None, True)
                tms = list(pdshim.TEXTS) if form == 'texts' else '<time 0>'
            base_t = pdshim.SymIndex([T.dt_convert(v, u, 'ns', False) for v in tv], 'ns', None)

        def run(*x):
            def g():
                sp = getattr(m, uc)(*x, algorithm=alg, engine=eng, refraction=ref)
                return {k: C.access(sp, k) for k in OUT}
            return C.single(C.explore(g, b))
        try:
            want = run(base_t, base_a, base_o)
            got = run(tms, lat, lon)
        except Exception as e:
            chk.unproved(name, 'c23', params, f'{type(e).__name__}: {e}'[:400])
            continue
        finally:
            pdshim.TEXTS.clear()
        bad, pairs, P = [], [], None
        for k in OUT:
            x, y = C.nodes(got[k]), C.nodes(want[k])
            if x.shape != y.shape or got[k].dims != want[k].dims or got[k].dtype != want[k].dtype:
                bad.append(f'{k}: {got[k].dims} {x.shape} {got[k].dtype}')
                continue
            for c in want[k].coords:
                if c not in got[k].coords or not all(u is v for u, v in zip(C.nodes(got[k].coords[c]).reshape(-1), C.nodes(want[k].coords[c]).reshape(-1))):
                    bad.append(f'{k}: label {c}')
            for u, v in zip(x.reshape(-1), y.reshape(-1)):
                if u is not v:
                    try:
                        P = P or smt.Prover(b, env)
                        u, v = P.canon(u), P.canon(v)
                    except Exception as e:
                        bad.append(f'{k}: {type(e).__name__} {e}')
                        break
                pairs.append((u, v))
                if u is not v:
                    bad.append(f'{k}: {T.show(u, 4)[:150]}')
                    break
        if not bad and C.same_all(pairs):
            chk.proved(name)
        else:
            chk.unproved(name, 'c23', params, str(bad[:3])[:400])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'{N} times and places (one in scalar forms), 1950-2099; every value of each number type within the range of coordinates',
                  f'places as {", ".join(PLACES)}; times as {", ".join(TIMES)}']
    chk.assumptions = ['reading containers into arrays is left to numpy and pandas']
    jobs = []
    for alg, eng in C.IMPL[::-1]:
        for uc in C.USECASES:
            for ref in ((True, False) if th or (alg, eng) == ('psa', 'numexpr') else (True,)):
                for what, forms in (('places', PLACES), ('times', TIMES)):
                    fs = [f for f in forms if not (uc == 'regular_grid' and what == 'x')]
                    jobs.append((job, (uc, alg, eng, ref, what, fs), ('c23', dict(uc=uc, alg=alg, eng=eng, ref=ref, what=what, form=fs[0]))))
    chk.run_jobs(jobs)
