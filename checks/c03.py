"""C03: results carry the labels of the inputs they belong to.

The use cases run symbolically on the real xarray with symbolic times (naive, or aware in a zone whose
UTC offset is an unknown function), latitudes and longitudes; dimensions, coordinates and metadata of
every accessor are compared with the input terms."""
import numpy as np

from symx import pdshim, smt, terms as T
from . import c03spec as S, common as C

SHAPES = {'sites': [(2, 3), (3, 3), (1, 2)], 'regular_grid': [(2, 3, 4), (2, 2, 2), (3, 2, 3), (1, 2, 1)], 'transect': [(3,), (2,)]}
MORE = {'sites': [(4, 5), (1, 1), (3, 1)], 'regular_grid': [(4, 3, 2), (1, 1, 1), (3, 3, 3)], 'transect': [(1,), (5,)]}


def coord_terms(uc, t, a, o):
    return {k: (d, [x if isinstance(x, T.Node) else T.const(x) for x in v]) for k, (d, v) in S.coords(uc, t, a, o).items()}


def job(chk, uc, alg, eng, ref, shapes, tz, unit, names):
    m = C.sw()
    mul = {'s': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}[unit]
    chk.functions |= {'sunwhere._base.Sunpos', 'sunwhere.usecases.'+uc}
    for s in shapes:
        nt, ny, nx = s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3
        z = pdshim.SymTZ(pdshim.NAMES[tz], tz) if tz else None
        name0 = f'{uc}{s} {alg}/{eng} refraction={ref} ' + (f'{tz} zone' if tz else 'naive') + f' times in {unit}'
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, shapes=[s], tz=tz, unit=unit)
        b = C.bounds(nt, ny, nx, (C.T0*10**9//mul, C.T1*10**9//mul))
        tms = C.times(nt, unit, z)
        wall = [T.mul(w, T.const(mul)) for w in tms.wall()]
        utc = [T.mul(w, T.const(mul)) for w in tms.ticks]
        a, o = C.floats('a', ny), C.floats('o', nx)
        want = coord_terms(uc, wall, list(C.nodes(a)), list(C.nodes(o)))
        try:
            ps = C.explore(lambda: getattr(m, uc)(C.times(nt, unit, z), a, o, algorithm=alg, engine=eng, refraction=ref), b)
            sp = C.single(ps)
            vals = {k: C.access(sp, k) for k in names}
        except Exception as e:
            chk.unproved(name0, 'c03', params, f'{type(e).__name__}: {e}'[:500])
            continue
        def eqs(got, exp, what, bad, ids):
            got = list(got)
            if len(got) != len(exp):
                bad.append(f'{what}: {len(got)} entries for {len(exp)}')
                return
            for i, (x, y) in enumerate(zip(got, exp)):
                ids.append((T.toreal(x), T.toreal(y)) if x.typ != y.typ else (x, y))
                if ids[-1][0] is not ids[-1][1] and not P.prove(T.eq(*ids[-1])):
                    bad.append(f'{what}[{i}] is {T.show(x, 4)[:80]}, expected {T.show(y, 4)[:80]}')
                    ids.pop()
        P = smt.Prover(b, {'_': np.zeros(1)})
        for k in names:
            v = vals[k]
            bad, ids = [], [(utc[0], utc[0])]
            if not S.dims_ok(k, v.dims, uc):
                bad.append(f'dimensions {v.dims}')
            need = set(v.dims) if uc != 'transect' else {'time'}
            if S.full(k):
                need |= {'time', 'latitude', 'longitude'}
            for c in need - set(v.coords):
                bad.append(f'no coordinate {c}')
            for c in v.coords:
                if c not in want:
                    continue
                dim, exp = want[c]
                if v.coords[c].dims != (dim,):
                    bad.append(f'coordinate {c} along {v.coords[c].dims}')
                    continue
                eqs(C.nodes(v.coords[c]).reshape(-1), exp, f'coordinate {c}', bad, ids)
            name = f'{name0}: labels of {k}'
            if not bad and C.same_all(ids):
                chk.proved(name)
            else:
                chk.unproved(name, 'c03', params, '; '.join(bad)[:500])
        bad, ids = [], []
        eqs(C.nodes(sp.latitude).reshape(-1), want['latitude'][1], 'latitude', bad, ids)
        eqs(C.nodes(sp.longitude).reshape(-1), want['longitude'][1], 'longitude', bad, ids)
        if sp.latitude.dims != (want['latitude'][0],) or sp.longitude.dims != (want['longitude'][0],):
            bad.append('dimension of latitude/longitude')
        eqs(C.nodes(sp.times.tz_convert(None)).reshape(-1), utc, 'times', bad, ids)
        eqs(C.nodes(sp.times.tz_localize(None)).reshape(-1), wall, 'times (wall clock)', bad, ids)
        if tz and sp.times.tz is not z:
            bad.append('time zone of times')
        for k, x in (('algorithm', alg), ('engine', eng), ('has_refraction', ref), ('usecase', uc)):
            if getattr(sp, k) != x or type(getattr(sp, k)) is not type(x):
                bad.append(f'{k} is {getattr(sp, k)!r}')
        name = f'{name0}: inputs reported back'
        if not bad and C.same_all(ids):
            chk.proved(name)
        else:
            chk.unproved(name, 'c03', params, '; '.join(bad)[:500])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes {SHAPES}' + (f', thorough also {MORE}' if th else ''), 'any times of 1950-2099 (s, ms, us, ns), any places',
                  'naive times; aware times of pytz, zoneinfo and fixed-offset zones with an arbitrary offset function']
    chk.assumptions = ['xarray and pandas indexes run for real, with one unique token per symbolic label']
    every = list(C.RAW) + C.DERIVED
    jobs = []
    fb = lambda **k: ('c03', dict(shapes=SHAPES[k['uc']], **k))  # noqa: E731
    for uc in C.USECASES:
        sh = SHAPES[uc] + (MORE[uc] if th else [])
        for tz in (None, 'pytz', 'zoneinfo', 'fixed'):
            for unit in (('s', 'ms', 'us', 'ns') if th else ('s', 'ns') if tz is None else ('ns',)):
                p = dict(uc=uc, alg='psa', eng='numexpr', ref=True, tz=tz, unit=unit)
                jobs.append((job, (uc, 'psa', 'numexpr', True, sh, tz, unit, every), fb(**p)))
        for alg, eng in C.IMPL:
            for ref in (True, False):
                p = dict(uc=uc, alg=alg, eng=eng, ref=ref, tz=None, unit='s')
                jobs.append((job, (uc, alg, eng, ref, sh[:1], None, 's', list(C.RAW) + ['elevation', 'airmass()']), fb(**p)))
    chk.run_jobs(jobs)
