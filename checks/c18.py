"""C18: accessors are views of one consistent result.

Each use case runs symbolically; every accessor element is compared with the term returned by the
selected algorithm's module for the same symbolic request."""
import importlib

import numpy as np

from symx import smt, terms as T
from . import common as C

SHAPES = {'sites': [(2, 3)], 'regular_grid': [(2, 3, 2)], 'transect': [(3,)]}
MORE = {'sites': [(1, 1), (3, 3), (4, 2)], 'regular_grid': [(1, 1, 1), (3, 3, 3), (2, 3, 4)], 'transect': [(1,), (5,)]}
NDIM = {'sites': 1, 'regular_grid': 2, 'transect': 0}


def expected(raw):
    """what each accessor shows, as a term of the algorithm's raw output (radians)"""
    z, s, d = T.var('z', 'R'), T.var('s', 'R'), T.var('d', 'R')
    deg = T.rad2deg
    return {'zenith': deg(z), 'sza': deg(z), 'azimuth': deg(s), 'saa': deg(s), 'declination': deg(d), 'dec': deg(d),
            'elevation': T.sub(T.const(90.), deg(z)), 'cosz': T.fn('cos', z), 'ecf': T.var('e', 'R'), 'eot': T.var('q', 'R')}


SRC = {'z': 'zenith', 's': 'azimuth', 'd': 'declination', 'e': 'ecf', 'q': 'eot'}


def job(chk, uc, alg, eng, ref, shapes):
    m = C.sw()
    mod = f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}'
    chk.functions |= {mod + '.sunpos', 'sunwhere._base.Sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc}
    env = {'z': np.linspace(.01, 3.1, 40), 's': np.linspace(-3.1, 3.1, 40), 'd': np.linspace(-.4, .4, 40), 'e': np.linspace(.97, 1.03, 40), 'q': np.linspace(-16, 16, 40)}
    P = smt.Prover({'z': (0, 3.1416), 's': (-3.1416, 3.1416), 'd': (-.42, .42), 'e': (.9, 1.1), 'q': (-20, 20)}, env)
    exp = expected(None)
    for s in shapes:
        nt, ny, nx = s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3
        name0 = f'{uc}{s} {alg}/{eng} refraction={ref}'
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, shape=s)
        b = C.bounds(nt, ny, nx)
        tms, a, o = C.times(nt), C.floats('a', ny), C.floats('o', nx)

        def run():
            sp = getattr(m, uc)(C.times(nt), a, o, algorithm=alg, engine=eng, refraction=ref)
            raw = importlib.import_module(mod).sunpos(tms.__symarray__(), o, a, NDIM[uc], ref)
            return sp, raw, {k: C.access(sp, k) for k in exp}
        try:
            sp, raw, vals = C.single(C.explore(run, b))
        except Exception as e:
            chk.unproved(name0, 'c18', params, f'{type(e).__name__}: {e}'[:500])
            continue
        r = {}
        for k, v in SRC.items():
            r[k] = C.nodes(raw[v])
            if r[k].shape != vals[v].shape and r[k].size == vals[v].size:
                r[k] = r[k].reshape(vals[v].shape)
        for k in exp:
            src = [v for v in SRC if any(x.val == v for x in T.variables([exp[k]]))][0]
            got = C.nodes(vals[k])
            bad, ids = [], []
            if got.shape != r[src].shape or vals[k].dims != vals[SRC[src]].dims:
                bad.append(f'shape {got.shape} {vals[k].dims}')
            else:
                for idx in np.ndindex(got.shape):
                    base = r[src][idx]
                    x = T.substitute([got[idx]], {base: T.var(src, 'R')})[0]
                    fv = {w.val for w in T.variables([x])}
                    if fv - {src}:
                        bad.append(f'{idx} is {T.show(got[idx], 3)[:100]}, not a function of what the algorithm returned')
                        break
                    cx, cy = P.canon(x), P.canon(exp[k])
                    if cx is not cy:
                        bad.append(f'{idx} is {T.show(x, 4)[:100]}')
                        break
                    ids.append((cx, cy))
            name = f'{name0}: {k}'
            if not bad and ids and C.same_all(ids):
                chk.proved(name)
            else:
                chk.unproved(name, 'c18', params, '; '.join(bad)[:400])
        lst = C.nodes(sp.local_standard_time.tz_convert(None)).reshape(-1)
        tt = C.nodes(sp.times.tz_convert(None)).reshape(-1)
        if len(lst) == nt and all(x is y for x, y in zip(lst, tt)) and C.same_all(list(zip(lst, tt))):
            chk.proved(f'{name0}: local standard time')
        else:
            chk.unproved(f'{name0}: local standard time', 'c18', params, str(lst)[:200])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes {SHAPES}' + (f', thorough also {MORE}' if th else ''), 'any times of 1950-2099, any places; all algorithms, engines and refraction settings']
    chk.assumptions = ['np.degrees multiplies by 180/pi']
    jobs = [(job, (uc, a, e, ref, SHAPES[uc] + (MORE[uc] if th else [])), ('c18', dict(uc=uc, alg=a, eng=e, ref=ref, shape=SHAPES[uc][0])))
            for a, e in C.IMPL[::-1] for uc in C.USECASES for ref in (True, False)]
    chk.run_jobs(jobs)
