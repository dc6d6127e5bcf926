"""C15: extraterrestrial irradiance.

The accessor's term on abstract zenith and eccentricity factor, for any solar constant, is compared by SAT
sweeping with the definition and the published corrections; ranges are decided from enclosures by z3."""
import numpy as np

from symx import smt, terms as T
from symx.arr import SymArray
from . import common as C, derived as D
from .c14 import Z, c, cells, enc, published, z3_between

E, ISC = T.var('E', 'R'), T.var('ISC', 'R')


def am(p):
    return published(p)


def factor(k):
    if k == 'none':
        return c(1.)
    if k == 'perez_1990':
        return T.add(c(.1), T.mul(c(1.031), T.fn('exp', T.div(c(-1.4), T.add(c(.9), T.div(c(9.4), am('kasten_and_young_1989')))))))
    if k == 'skarveith_1998':
        return T.sub(c(.83), T.mul(c(.56), T.fn('exp', T.mul(c(-.06), T.sub(c(90.), Z)))))
    m = am('gueymard_2003')
    d = T.sub(c(.124), T.mul(c(.0285), T.fn('log', m)))
    return T.add(c(.229), T.mul(c(.957), T.fn('exp', T.mul(T.mul(c(-1.74), m), d))))


def study(x, k, n, isc):
    """x over Z, E and ISC"""
    out = {}
    b = {'Z': (0, 90), 'E': (.96, 1.04), 'ISC': (0, 2000)}
    env = {'Z': np.linspace(0, 90, 80), 'E': np.linspace(.97, 1.03, 80), 'ISC': np.linspace(1000, 1500, 80)}
    day = smt.Prover(b, env)
    night = smt.Prover({**b, 'Z': (90 + 1e-9, 180)}, {**env, 'Z': np.linspace(90.001, 180, 80)})
    one = T.mul(T.mul(isc, E), T.fn('cos', T.deg2rad(Z)))
    # by day: the definition times the published factor
    xd = day.canon(D.denan(day.canon(x)))
    want = T.mul(one, factor(k))
    ok = xd is day.canon(want)
    if not ok:
        # sums and products in another order: the quotient by the definition, over cells
        lo, hi = cells(n)
        m = hi <= 89.999
        q = {'E': (.96, 1.04), 'ISC': (1000., 1500.)}
        try:
            f = T.substitute([xd], {E: c(1.), ISC: c(1.)})[0]
            g = T.substitute([want], {E: c(1.), ISC: c(1.)})[0]
            (a, bb), = enc([T.sub(f, g)], lo, hi)
            ok = z3_between(a, bb, -1e-5, 1e-5) and linear(xd, q)
        except Exception:
            ok = False
    out['definition by day'] = ok
    if k == 'none':
        xn = night.canon(D.denan(night.canon(x)))
        out['zero at night'] = xn.op == 'const' and xn.val == 0 or night.prove(T.eq(xn, c(0.)), timeout=5.) or xn is night.canon(T.mul(T.mul(isc, E), c(0.)))
        allp = smt.Prover({**b, 'Z': (0, 180)}, {**env, 'Z': np.linspace(0, 180, 80)})
        y = allp.canon(x)
        out['never negative'] = allp.prove(T.le(c(0.), y), timeout=5.)
        out['at most ISC times the eccentricity factor'] = allp.prove(T.le(y, T.mul(isc, E)), timeout=5.)
    else:
        lo, hi = cells(n)
        (a, bb), = enc([factor(k)], lo, hi)
        out['factor between 0.1 and 1.2'] = z3_between(a, bb, .1, 1.2)
    return out


def linear(x, q):
    """proportional to E and to ISC: x(2E) = 2 x(E) by polynomial identity"""
    P = smt.Prover({'Z': (0, 90), 'E': (.9, 2.1), 'ISC': (0, 4000)}, {'Z': np.linspace(0, 90, 60), 'E': np.linspace(.97, 1.03, 60), 'ISC': np.linspace(1, 1400, 60)})
    two = c(2.)
    for v in (E, ISC):
        if v.val in {w.val for w in T.variables([x])}:
            if P.canon(T.substitute([x], {v: T.mul(two, v)})[0]) is not P.canon(T.mul(two, x)):
                return False
    return True


def job(chk, uc, alg, eng, ref):
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    got = D.case(chk, uc, alg, eng, ref, 'c15', params)
    if not got:
        return
    name, sp, ab = got
    isc = SymArray(C.obj([ISC]).reshape(()), 'f8')
    memo = {}
    for k in C.CORR:
        for label, kw, ic in (('any solar constant', dict(ISC=isc, am_correction=k), ISC), ('default solar constant', dict(am_correction=k), c(1361.1))):
            bad = []
            try:
                acc = sp.eth(**kw)
                for idx, x in ab.elements(acc):
                    f = D.foreign(x, ('Z', 'E', 'ISC'))
                    if f:
                        bad.append(f'{idx} depends on {f[:4]}')
                        break
                    if (k, x.id) not in memo:
                        memo[k, x.id] = study(x, k, 3000, ic)
                    w = [q for q, v in memo[k, x.id].items() if not v]
                    if w:
                        bad.append(f'{idx}: {w} {T.show(x, 7)[:300]}')
                        break
            except Exception as e:
                bad.append(f'{type(e).__name__}: {e}')
            if bad:
                chk.unproved(f'{name}: eth {k}, {label}', 'c15', {**params, 'corr': k}, str(bad)[:600])
            else:
                chk.proved(f'{name}: eth {k}, {label}')


def main(chk):
    chk.bounds = [f'shapes {D.SHAPES}; every zenith angle of [0, 180] degrees, eccentricity factors .96-1.04, solar constants 0-2000 W/m2']
    chk.assumptions = ['zenith angles between 90 and 90 + 1e-9 degrees are not considered', 'by night the air-mass corrections are outside the statement']
    chk.run_jobs(D.jobs(job, 'c15'))
