"""C20: hour angle of the position against true solar time.

The azimuth at the pole (the hour angle) minus 15 degrees per hour of the code's own true solar time is
brought to normal form, where longitude cancels, and enclosed over cells of time."""
import numpy as np

from symx import terms as T
from . import common as C, sun as S


def job(chk, alg, eng):
    lo, hi = S.days('2020-01-01', '2050-01-01') if chk.tier != 'thorough' else S.days('1950-01-01', '2100-01-01')
    N = S.Angles()
    tol = np.sin((.05 if alg == 'nrel' else .1)*S.RAD)
    memo, valid = {}, []
    for uc in C.USECASES:
        for ref in (False, True):
            name = f'{uc} {alg}/{eng} refraction={ref}'
            params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
            chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc, 'sunwhere._base.Sunpos.true_solar_time'}
            try:
                x = S.request(uc, alg, eng, ref)
                az, q, tst = S.tidy([S.node(x.azimuth), S.node(x.eot), S.untrunc(S.whole([T.toreal(S.node(x.true_solar_time))])[0])], lo, hi)
                h = T.deg2rad(N.lon(az))
                key = (h.id, q.id, tst.id)
                if key not in memo:
                    goals = {}
                    hr = T.const(np.pi/43200)
                    mine = T.mul(hr, T.add(T.add(T.toreal(S.TT), T.mul(T.const(240.), S.O0)), T.mul(T.const(60.), q)))
                    for nm, w in (('true_solar_time', T.mul(hr, T.div(tst, T.const(1e9)))), ('longitude and equation of time', mine)):
                        s, c = N.sc(T.sub(h, T.sub(w, T.const(np.pi))))
                        goals[nm] = (s, -tol, tol)
                        goals[nm + ' (same half turn)'] = (c, .5, 1.01)
                    memo[key] = S.decide(goals, lo, hi)
                valid += [(uc, alg, eng, ref, x, (1, 1, 1))]
            except Exception as e:
                chk.unproved(name, 'c20', params, f'{type(e).__name__}: {e}'[:400])
                continue
            for k, (ok, ts, a, b) in memo[key].items():
                if ok:
                    chk.proved(f'{name}: {k}', f'enclosed in [{a:.3g}, {b:.3g}]')
                else:
                    chk.unproved(f'{name}: {k}', 'c20', {**params, 'ts': ts}, f'[{a:.4g}, {b:.4g}] at {ts[:4]}')
    C.validate(chk, valid, 4)


def main(chk):
    chk.bounds = ['every second of ' + ('1950-2100' if chk.tier == 'thorough' else '2020-2050') + ', every longitude; the hour angle is the azimuth at the pole']
    chk.assumptions = ['real arithmetic; single precision of the coordinates ignored (C01, C02)',
                       'zenith and azimuth at other latitudes follow from declination and hour angle (C06)']
    chk.run_jobs([(job, (a, e), ('c20', dict(uc='transect', alg=a, eng=e, ref=False))) for a, e in C.IMPL[::-1]])
