"""C02: every element of a result is the single-point answer.

Each use case is executed symbolically on shapes with symbolic times and places; every output
element must denote the term of the one-point request with the variables of that element."""
import numpy as np

from symx import pdshim, smt, terms as T
from . import common as C

SHAPES = {'sites': [(1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (4, 4)],
          'regular_grid': [(1, 1, 1), (2, 2, 2), (1, 2, 3), (2, 3, 2), (3, 1, 2), (2, 1, 1), (1, 1, 2), (3, 3, 3), (2, 3, 4), (4, 3, 3)],
          'transect': [(1,), (2,), (3,), (4,)]}
BIG = {'sites': [(3, 130), (150, 2)], 'regular_grid': [(2, 70, 3), (3, 2, 66), (70, 2, 2)], 'transect': [(140,)]}
# one job each, with refraction
LARGE = {('psa', 'numexpr'): {'sites': [(10500, 1), (1, 4200)], 'regular_grid': [(10500, 1, 1), (1, 1, 4200), (1, 4200, 1), (22, 22, 22)], 'transect': [(5000,)]},
         None: {'sites': [(1100, 1), (1, 1100)], 'regular_grid': [(1100, 1, 1), (1, 1100, 1), (1, 1, 1100)], 'transect': [(1100,)]},
         ('nrel', 'numexpr'): {'sites': [(520, 1), (2, 130)], 'regular_grid': [(2, 11, 12)], 'transect': [(140,)]}}
MORE = {'sites': [(5, 4), (4, 5), (6, 6), (1100, 1), (1, 1100)], 'regular_grid': [(5, 4, 3), (3, 4, 5), (4, 5, 3), (4, 4, 4), (1, 300, 4), (1, 4, 300), (300, 1, 2)],
        'transect': [(5,), (6,), (1100,)]}


def full(uc, s):
    return s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3


def shape_job(chk, alg, eng, ref, uc, shapes, derived=False, unit='s'):
    m = C.sw()
    b1 = C.bounds(1, 1, 1)
    mul = {'s': 1, 'ms': 10**3, 'ns': 10**9}[unit]

    def bnd(nt, ny, nx):
        return C.bounds(nt, ny, nx, (C.T0*mul, C.T1*mul))
    names = list(C.RAW) + (C.DERIVED if derived else [])
    one = C.single(C.request('sites', alg, eng, ref, tms=C.times(1, unit), bnds=bnd(1, 1, 1)))
    chk.functions.add(f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos')
    chk.functions |= {'sunwhere.usecases.'+uc, 'sunwhere._core.evaluate', 'sunwhere._base.Sunpos'}
    env = {k: v*(mul if k[0] == 't' else 1) for k, v in C.sample_env(1, 1, 1, 40).items()}
    P = smt.Prover(bnd(1, 1, 1), env)
    tpl = {}
    covered = False
    self1 = None
    for s in shapes:
        nt, ny, nx = full(uc, s)
        name = f'{uc} {alg}/{eng} refraction={ref} shape {s}' + (f' times in {unit}' if unit != 's' else '') + (' derived' if derived else '')
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, shapes=[s], unit=unit)
        try:
            sp = C.single(C.request(uc, alg, eng, ref, nt, ny, nx, tms=C.times(nt, unit), bnds=bnd(nt, ny, nx)))
            vals = {k: C.access(sp, k) for k in names}
        except Exception as e:
            chk.unproved(name, 'c02', params, f'{type(e).__name__}: {e}'[:600])
            continue
        bad = []
        ids = []
        at = []
        for k in names:
            if k not in tpl:
                tpl[k] = C.nodes(C.access(one, k)).reshape(-1)[0]
            v = vals[k]
            arr = C.nodes(v)
            if arr.shape != v.shape:
                bad.append((k, 'shape'))
            chk.nodes += arr.size
            for idx in np.ndindex(arr.shape):
                i, j, l = C.where(v.dims, idx, uc)
                x = arr[idx]
                y = C.rename(tpl[k], i, j, l)
                if x is y:
                    ids.append((x, y))
                    continue
                # another use case may compute it in another way: prove it once, on the renamed term
                back = {T.var(f'{p}{q}', t): T.var(f'{p}0', t) for p, q, t in (('t', i, 'I'), ('a', j, 'R'), ('o', l, 'R'))}
                xr = x
                if i or j or l:
                    # variables of other entries are kept apart
                    other = {w: T.var('x_' + w.val, w.typ) for w in T.variables([x]) if w not in back}
                    xr = T.substitute([x], {**other, **back})[0]
                fv = {w.val for w in T.variables([xr])}
                if not fv <= {'t0', 'a0', 'o0'}:
                    at.append([int(q) for q in idx])
                    bad.append((f'{k}{idx}', f'depends on other entries: {sorted(fv)}'))
                    continue
                if not covered:
                    P.cover([xr] + [tpl[q] for q in tpl])
                    covered = True
                if P.canon(xr) is P.canon(tpl[k]):
                    ids.append((x, x))
                else:
                    at.append([int(q) for q in idx])
                    bad.append((f'{k}{idx}', f'{T.show(xr, 3)[:150]} differs from {T.show(tpl[k], 3)[:150]}'))
                if len(bad) > 3:
                    break
        if not bad and C.same_all(ids):
            chk.proved(name)
        else:
            chk.unproved(name, 'c02', {**params, 'at': at[:12]}, str(bad[:3])[:600])


def job(chk, alg, eng, ref, uc, thorough):
    sh = list(SHAPES[uc])
    cheap = alg != 'nrel'
    if cheap:
        sh += BIG[uc]
    if thorough:
        sh += [s for s in MORE[uc] if cheap or max(s) < 10]
    shape_job(chk, alg, eng, ref, uc, sh)
    small = {'sites': [(2, 3)], 'regular_grid': [(2, 3, 2)], 'transect': [(3,)]}[uc]
    if not ref:
        shape_job(chk, alg, eng, ref, uc, small, unit='ns')
    if (alg, eng) == ('psa', 'numexpr'):
        shape_job(chk, alg, eng, ref, uc, small + SHAPES[uc][1:3], derived=True)


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = ['shapes (times, locations) / (times, latitudes, longitudes) / (times): ' + str(SHAPES) + ', not nrel: ' + str(BIG)
                  + ', with refraction psa/numexpr: ' + str(LARGE['psa', 'numexpr']) + ', nrel: ' + str(LARGE['nrel', 'numexpr']) + ', others: ' + str(LARGE[None])
                  + (', thorough: ' + str(MORE) if th else ''),
                  'values: any whole second (and nanosecond) of 1950-2099, any latitude and longitude',
                  'refraction on and off, all algorithms and engines; derived accessors for psa/numexpr (they do not depend on the algorithm)']
    chk.assumptions = ['scalar inputs behave as arrays of length one (np.array(..., ndmin=1) in every use case)']
    jobs = [(shape_job, (a, e, True, uc, [z]), ('c02', dict(uc=uc, alg=a, eng=e, ref=True, shapes=[z])))
            for a, e in C.IMPL for uc in C.USECASES for z in LARGE.get((a, e), LARGE[None])[uc]]
    jobs += [(job, (a, e, r, uc, th), ('c02', dict(uc=uc, alg=a, eng=e, ref=r, shapes=SHAPES[uc])))
            for a, e in C.IMPL[::-1] for r in (True, False) for uc in C.USECASES]
    chk.run_jobs(jobs)
