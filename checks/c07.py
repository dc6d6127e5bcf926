"""C07: psa, soltrack and iqbal against nrel over 2020-2050.

Both algorithms are executed on the same symbolic instant; the difference of declination, eccentricity
factor, equation of time and hour angle is enclosed over cells covering the period."""
import numpy as np

from symx import terms as T
from . import common as C, sun as S

TOL = {'psa': (.02, 3e-4, .1, .02), 'soltrack': (.02, 3e-4, .1, .02), 'iqbal': (.6, 2e-3, .9, .6)}


def job(chk, alg, eng):
    th = chk.tier == 'thorough'
    lo, hi = S.days('2020-01-01', '2050-01-01')
    N = S.Angles()
    memo, valid = {}, []
    dd, de, dq, dh = TOL[alg]
    for uc in C.USECASES:
        for ref in (False, True):
            name = f'{uc} {alg}/{eng} refraction={ref}'
            params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
            chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{a}.sunpos' for a in (alg, 'nrel')} | {'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc}
            try:
                x, y = S.request(uc, alg, eng, ref), S.request(uc, 'nrel', 'numexpr', ref)
                ks = ('declination', 'ecf', 'eot', 'azimuth')
                v = S.tidy([S.node(getattr(s, k)) for s in (x, y) for k in ks], lo, hi)
                v[3], v[7] = N.lon(v[3]), N.lon(v[7])
                key = tuple(n.id for n in v)
                if key not in memo:
                    goals = {'declination': (T.sub(v[0], v[4]), -dd, dd), 'eccentricity factor': (T.sub(v[1], v[5]), -de, de)}
                    for nm, u, tol in (('equation of time', T.mul(T.sub(v[2], v[6]), T.const(S.RAD/4)), dq/4), ('hour angle', T.deg2rad(T.sub(v[3], v[7])), dh)):
                        s, c = N.sc(u)
                        t = np.sin(tol*S.RAD)
                        goals[nm] = (s, -t, t)
                        goals[nm + ' (same half turn)'] = (c, .5, 1.01)
                    memo[key] = S.decide(goals, lo, hi)
                valid += [(uc, alg, eng, ref, x, (1, 1, 1)), (uc, 'nrel', 'numexpr', ref, y, (1, 1, 1))]
            except Exception as e:
                chk.unproved(name, 'c07', params, f'{type(e).__name__}: {e}'[:400])
                continue
            for k, (ok, ts, a, b) in memo[key].items():
                if ok:
                    chk.proved(f'{name}: {k}', f'enclosed in [{a:.3g}, {b:.3g}]')
                else:
                    chk.unproved(f'{name}: {k}', 'c07', {**params, 'ts': ts}, f'[{a:.4g}, {b:.4g}] at {ts[:4]}')
    C.validate(chk, valid, 4)


def main(chk):
    chk.bounds = ['every second of 2020-2050, every longitude (the hour angle is the azimuth at the pole), cells of a day bisected down to seconds; every use case and refraction setting']
    chk.assumptions = ['real arithmetic; single precision of the coordinates ignored (C01, C02)', '|equation of time| < 20 minutes (C05)',
                       'zenith and azimuth at other latitudes follow from declination and hour angle (C06)']
    chk.run_jobs([(job, (a, e), ('c07', dict(uc='transect', alg=a, eng=e, ref=False))) for a, e in C.IMPL[::-1] if a != 'nrel'])
