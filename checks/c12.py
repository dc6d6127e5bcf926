"""C12: sunrise, sunset and day length.

Case split on the spec's own condition (the sun rises or not); under each case every accessor is
normalised by SAT sweeping against the spec's angle, which then becomes a free variable, and z3 decides
the remaining linear integer-real statements about instants."""
import numpy as np

from symx import pdshim, smt, terms as T
from . import common as C, derived as D
from .c11 import within

NS = 10**9
DAY = 86400*NS
UNITS = C.UNITS
ZONE = pdshim.SymTZ('Europe/Madrid', 'pytz')


def case_samples(inside):
    e = D.samples(400, 5)
    tt = -np.tan(np.radians(e['a']))*np.tan(np.radians(e['D']))
    m = np.abs(tt) < .999 if inside else np.abs(tt) > 1.001
    e = {k: v[m][:60] for k, v in e.items()}
    n = len(e['t'])
    e['N'] = e['t']*NS + 12345
    e['W'] = np.linspace(.2, 3., n)
    e['off'] = np.full(n, 3600)
    return e


BND = {**{k: D.BOUNDS[k] for k in 'toQD'}, 'a': (-89.99, 89.99), 'N': ((C.T0 - 86400)*NS, (C.T1 + 86400)*NS), 'off': (-86400, 86400)}


def spec_terms():
    a, d = T.var('a', 'R'), T.var('D', 'R')
    tt = T.neg(T.mul(T.fn('tan', T.deg2rad(a)), T.fn('tan', T.deg2rad(d))))
    dom = T.band(T.le(T.const(-1.), tt), T.le(tt, T.const(1.)))
    return tt, dom


def strip(x, P, w, out):
    """canonical form; the spec's angle (or its degrees) becomes W (radians)"""
    y = P.canon(x)
    m = {P.rep[w.id]: T.var('W', 'R')} if not out else {}
    return D.denan(T.substitute([y], m)[0]) if m else D.denan(y)


def missing(x):
    """is the term NaN or NaT whatever its variables"""
    if x.op == 'const':
        return float(x.val) != float(x.val) or x.val == T.NAT
    g = T.isnan(x) if x.typ == 'R' else T.isnat(x)
    return g is T.TRUE


def job(chk, uc, alg, eng, ref, tzname):
    tz = ZONE if tzname else None
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    got = D.case(chk, uc, alg, eng, ref, 'c12', params, 's', tz)
    if not got:
        return
    name, sp, ab = got
    name += ' zoned' if tz else ''
    try:
        tst = sp.true_solar_time
        ab.also(tst, 'N', 'I')
        acc = {f'{f}({u!r})': C.access(sp, f'{f}({u!r})') for f in ('sunrise', 'sunset') for u in UNITS}
        acc['daylight_length()'] = sp.daylight_length()
        els = {k: ab.elements(v) for k, v in acc.items()}
    except Exception as e:
        chk.unproved(name, 'c12', params, f'{type(e).__name__}: {e}'[:500])
        return
    tt, dom = spec_terms()
    off = {}

    def offset(x):
        """the UTC offset of the instant becomes the variable `off`"""
        m = {}
        for n in T.topo([x]):
            if n.op == 'uf:off_' + ZONE.name and {v.val for v in T.variables([n])} == {'t'}:
                if n.args[0] is t or PL.prove(T.eq(n.args[0], t), timeout=5.):
                    m[n] = T.var('off', 'I')
        return T.substitute([x], m)[0] if m else x
    Pin = smt.Prover(BND, case_samples(True), assume=[dom])
    Pout = smt.Prover(BND, case_samples(False), assume=[T.bnot(dom)])
    wspec = T.fn('acos', tt)
    Pin.canon(wspec)
    Pin.canon(T.rad2deg(wspec))
    W, N, Q, o, t = T.var('W', 'R'), T.var('N', 'I'), T.var('Q', 'R'), T.var('o', 'R'), T.var('t', 'I')
    PL = smt.Prover({**BND, 'W': (0, float(np.pi) + 1e-12)}, {'_': np.zeros(1)})
    day = T.toreal(T.mul(T.floordiv(N, T.const(DAY)), T.const(DAY)))
    wh = T.mul(T.const(12/np.pi), W)                         # hours
    rise = T.add(day, T.mul(T.const(3.6e12), T.sub(T.const(12.), wh)))
    shift = T.mul(T.const(60e9), T.add(Q, T.mul(T.const(4.), o)))
    loc = T.toreal(T.mul(T.var('off', 'I'), T.const(NS))) if tz else T.const(0.)
    length = T.mul(T.const(2*3.6e12), wh)
    base = {'tst': rise, 'utc': T.sub(rise, shift), 'local': T.add(T.sub(rise, shift), loc)}
    exp = {}
    for u in ('tst', 'utc', 'local'):
        exp[f'sunrise({u!r})'] = (base[u], 3000)
        exp[f'sunset({u!r})'] = (T.add(base[u], length), 3000)
    exp["sunrise('rad')"] = (W, 1e-9)
    exp["sunrise('deg')"] = (T.rad2deg(W), 1e-7)
    exp["sunset('rad')"] = (T.neg(W), 1e-9)
    exp["sunset('deg')"] = (T.neg(T.rad2deg(W)), 1e-7)
    exp['daylight_length()'] = (T.mul(T.const(2/15), T.rad2deg(W)), 1e-8)
    memo = {}
    for k, (sp_, tol) in exp.items():
        bad = []
        for idx, x in els[k]:
            f = D.foreign(x, ('t', 'o', 'Q', 'D', 'a', 'N'))
            if f:
                bad.append(f'{idx} depends on {f[:4]}')
                break
            if (k, x.id) not in memo:
                y = offset(x)
                r = []
                try:
                    z = strip(y, Pin, wspec, False)
                    if D.foreign(z, ('t', 'o', 'Q', 'W', 'N', 'off')) or any(n.op in smt.APPS for n in T.topo([z])):
                        r.append(f'rising: {T.show(z, 6)[:200]}')
                    else:
                        v = within(PL, z, sp_, tol, 500 if tol == 3000 else 0)
                        if v != 'unsat':
                            r.append(f'rising: {v} {T.show(z, 9)[:300]}')
                    z = strip(y, Pout, wspec, True)
                    if not missing(z):
                        r.append(f'not rising: {T.show(z, 6)[:200]}')
                except Exception as e:
                    r.append(f'{type(e).__name__}: {e}')
                memo[k, x.id] = r
            if memo[k, x.id]:
                bad.append(f'{idx}: {memo[k, x.id]}')
                break
        if bad:
            chk.unproved(f'{name}: {k}', 'c12', params, str(bad)[:900])
        else:
            chk.proved(f'{name}: {k}', 'missing exactly where |tan lat tan dec| > 1')
    # the poles (tan is not finite there in the reals; its binary64 value is)
    for lat in (90., -90.):
        x = els["sunrise('deg')"][0][1]
        y = T.substitute([x], {T.var('a', 'R'): T.const(lat)})[0]
        ok = True
        for lo, hi in ((-23.6, -1e-4), (1e-4, 23.6)):
            P = smt.Prover({'D': (lo, hi)}, {'D': np.linspace(lo, hi, 40)})
            try:
                ok &= missing(D.denan(P.canon(y)))
            except Exception:
                ok = False
        nm = f'{name}: no sunrise at latitude {lat}'
        if ok:
            chk.proved(nm)
        else:
            chk.unproved(nm, 'c12', params, T.show(y, 6)[:300])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes {D.SHAPES}; latitudes within 89.99 degrees and the poles, any declination within 23.6 degrees, equation of time within 20 minutes, times 1950-2099',
                  'naive (UTC) times and times in a zone whose UTC offset is any function of the instant']
    chk.assumptions = ['the true solar time of the instant is the one C11 establishes', 'rounding of the instants: below 0.5 microseconds (64-bit arithmetic on hours)',
                       'declinations within 1e-4 degrees of 0 are not considered at the poles themselves']
    js = []
    for zn in ('', 'zone'):
        js += D.jobs(job, 'c12', (zn,), (True, False) if th else (False,))
    chk.run_jobs(js)
