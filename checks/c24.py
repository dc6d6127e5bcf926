"""C24: a missing latitude or longitude gives missing values at its places and nowhere else.

Every pattern of missing coordinates of small shapes: the execution with NaN in them is compared, entry by
entry, with the execution of the same shape in which every coordinate is any number."""
import itertools

import numpy as np

from symx import smt, terms as T
from symx.arr import SymArray
from . import common as C

SHAPES = {'sites': [(1, 1, 1), (2, 2, 2)], 'regular_grid': [(1, 1, 1), (1, 2, 2), (2, 1, 2)], 'transect': [(1, 1, 1), (2, 2, 2)]}
MORE = {'sites': [(2, 3, 3)], 'regular_grid': [(2, 3, 2), (2, 2, 3)], 'transect': [(3, 3, 3)]}
OF_LAT = ['latitude', 'daylight_length()'] + [f'{f}({u!r})' for f in ('sunrise', 'sunset') for u in ('deg', 'rad')]
OF_LON = ['longitude', 'true_solar_time']
OF_NONE = ['ecf', 'eot', 'declination', 'dec']
NAT = -2**63


def depends(k):
    """on latitude, on longitude"""
    return k not in OF_NONE + OF_LON, k not in OF_NONE + OF_LAT


def missing(x, dt, P):
    if dt.kind in 'mM':
        x = T.isnat(x)
    elif x.typ == 'R':
        x = T.isnan(x)
    else:
        return False
    if x.op != 'const':
        x = P().canon(x)
    return x.op == 'const' and bool(x.val)


def places(prefix, pat):
    return SymArray(C.obj([T.NANC if p else T.var(f'{prefix}{i}', 'R') for i, p in enumerate(pat)]), 'f8')


def job(chk, uc, alg, eng, ref, shapes, derived):
    m = C.sw()
    names = ['latitude', 'longitude', *C.RAW] + (C.DERIVED if derived else ["incidence(30., 20.)", 'true_solar_time'])
    chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere._base.Sunpos',
                      'sunwhere.usecases.'+uc, 'sunwhere.utils.validate.check_timelatlon'}
    for nt, ny, nx in shapes:
        b = C.bounds(nt, ny, nx)
        prover = []

        def P():
            if not prover:
                prover.append(smt.Prover(b, C.sample_env(nt, ny, nx)))
            return prover[0]

        def run(py, px):
            def g():
                sp = getattr(m, uc)(C.times(nt), places('a', py), places('o', px), algorithm=alg, engine=eng, refraction=ref)
                return {k: C.access(sp, k) for k in names}
            return C.single(C.explore(g, b))
        name0 = f'{uc} {alg}/{eng} refraction={ref} shape {(nt, ny, nx)}'
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, nt=nt, ny=ny, nx=nx)
        try:
            want = run((False,)*ny, (False,)*nx)
        except Exception as e:
            chk.unproved(name0, 'c24', params, f'{type(e).__name__}: {e}'[:400])
            continue
        for pat in itertools.product((False, True), repeat=ny+nx):
            if not any(pat):
                continue
            py, px = pat[:ny], pat[ny:]
            name = f'{name0} missing latitudes {list(map(int, py))} longitudes {list(map(int, px))}'
            par = {**params, 'pattern': list(pat)}
            try:
                got = run(py, px)
            except Exception as e:
                chk.unproved(name, 'c24', par, f'{type(e).__name__}: {e}'[:400])
                continue
            bad, pairs = [], []
            for k in names:
                x, y = C.nodes(got[k]), C.nodes(want[k])
                if x.shape != y.shape or got[k].dims != want[k].dims or got[k].dtype != want[k].dtype:
                    bad.append(f'{k}: {got[k].dims} {x.shape} {got[k].dtype}')
                    continue
                la, lo = depends(k)
                for idx in np.ndindex(x.shape):
                    i, j, l = C.where(want[k].dims, idx, uc)
                    u, v = x[idx], y[idx]
                    if la and py[j] or lo and px[l]:
                        if not missing(u, got[k].dtype, P):
                            bad.append(f'{k}{idx}: not missing: {T.show(u, 4)[:120]}')
                            break
                        continue
                    if u is not v:
                        try:
                            u, v = P().canon(u), P().canon(v)
                        except Exception as e:
                            bad.append(f'{k}: {type(e).__name__} {e}')
                            break
                    pairs.append((u, v))
                    if u is not v:
                        bad.append(f'{k}{idx}: {T.show(u, 4)[:120]}')
                        break
            if not bad and C.same_all(pairs):
                chk.proved(name)
            else:
                chk.unproved(name, 'c24', par, str(bad[:3])[:400])


def helpers(chk):
    import importlib
    C.sw()
    D = importlib.import_module('sunwhere.utils.datetime')
    chk.functions |= {'sunwhere.utils.datetime.true_solar_time', 'sunwhere.utils.datetime.universal_time_coordinated'}
    for fn in ('true_solar_time', 'universal_time_coordinated'):
        for nt, nx in ((1, 2), (2, 2)):
            b = C.bounds(nt, 1, nx)
            P = []

            def p():
                if not P:
                    P.append(smt.Prover(b, C.sample_env(nt, 1, nx)))
                return P[0]

            def run(px):
                return C.single(C.explore(lambda: getattr(D, fn)(C.times(nt).__symarray__(), places('o', px)), b))
            for px in itertools.product((False, True), repeat=nx):
                name = f'{fn} of {nt} times, missing longitudes {list(map(int, px))}'
                par = dict(uc=fn, alg='', eng='', ref=None, nt=nt, ny=0, nx=nx, pattern=list(px))
                try:
                    got, want = run(px), run((False,)*nx)
                    x, y = C.nodes(got).reshape(nt, nx), C.nodes(want).reshape(nt, nx)
                except Exception as e:
                    chk.unproved(name, 'c24', par, f'{type(e).__name__}: {e}'[:400])
                    continue
                bad, pairs = [], []
                for i, l in np.ndindex(nt, nx):
                    u, v = x[i, l], y[i, l]
                    if px[l]:
                        if not missing(u, got.dtype, p):
                            bad.append(f'{(i, l)}: not missing: {T.show(u, 4)[:120]}')
                        continue
                    if u is not v:
                        u, v = p().canon(u), p().canon(v)
                    pairs.append((u, v))
                    if u is not v:
                        bad.append(f'{(i, l)}: {T.show(u, 4)[:120]}')
                if not bad and C.same_all(pairs):
                    chk.proved(name)
                else:
                    chk.unproved(name, 'c24', par, str(bad[:3])[:400])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes (times, latitudes, longitudes) {SHAPES}' + (f', thorough {MORE}' if th else '') + ', every pattern of missing coordinates',
                  'times: any whole second of 1950-2099; other coordinates: any; all algorithms and engines; every accessor for psa/numexpr (all, thorough)']
    chk.assumptions = ['numpy conversions of NaN to datetime64/timedelta64 give NaT (checked on the build at hand)']
    jobs = [(helpers, (), ('c24', dict(uc='true_solar_time', alg='', eng='', ref=None, nt=2, ny=0, nx=2)))]
    for a, e in C.IMPL[::-1]:
        for uc in C.USECASES:
            for ref in (True, False):
                d = (a, e) == ('psa', 'numexpr') and ref or th
                jobs.append((job, (uc, a, e, ref, SHAPES[uc] + (MORE[uc] if th else []), d),
                             ('c24', dict(uc=uc, alg=a, eng=e, ref=ref, nt=2, ny=2, nx=2))))
    chk.run_jobs(jobs)
