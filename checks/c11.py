"""C11: true solar time = UTC + 4 min/degree + equation of time.

The accessor and the helper functions run symbolically on abstract equations of time; z3 (linear
integer-real arithmetic with truncation) bounds the distance to the definition, rounding included."""
import importlib

import numpy as np
import z3

from symx import pdshim, smt, terms as T
from symx.arr import SymArray
from . import common as C, derived as D

NS = 10**9
ZONE = pdshim.SymTZ('Europe/Madrid', 'pytz')


def within(P, term, spec, tol, err):
    """z3: |term + e - spec| <= tol for every |e| <= err, all variables in bounds"""
    if not np.isfinite(err):
        return 'rounding not bounded'
    e = smt.Enc(P.bounds)
    x, y = e.enc(T.toreal(term)), e.enc(spec)
    r = z3.Real('rnd')
    s = z3.Solver()
    s.add(*e.side)
    b = z3.RealVal(str(float(err)))
    s.add(r <= b, r >= -b, z3.Or(x + r - y > tol, x + r - y < -tol))
    v = smt.STATS.check(s, 30)
    if v == 'sat':
        m = s.model()
        return {k: str(m.eval(z3.Real(k) if D.TYPES.get(k[0], 'R') == 'R' else z3.Int(k))) for k in P.bounds}
    return v


def spec_ns(k, t, o, q, sign=1):
    shift = T.mul(T.const(60e9*sign), T.add(T.mul(T.const(4.), o), q))
    return T.add(T.toreal(T.mul(t, T.const(k))), shift)


def job(chk, uc, alg, eng, ref, unit):
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref, unit=unit)
    got = D.case(chk, uc, alg, eng, ref, 'c11', params, 's' if unit == 'zone' else unit, ZONE if unit == 'zone' else None)
    if not got:
        return
    name, sp, ab = got
    k = 1 if unit == 'ns' else NS
    b = {'t': (C.T0*NS//k, C.T1*NS//k), 'o': (-180, 180, True), 'Q': (-20, 20)}
    P = smt.Prover(b, {kk: v for kk, v in D.samples().items() if kk in b} | ({'t': D.samples()['t']*NS} if k == 1 else {}))
    tst = sp.true_solar_time
    seen = {}
    bad = []
    try:
        if np.dtype(tst.dtype) != np.dtype('M8[ns]'):
            bad.append(f'dtype {tst.dtype}')
        for idx, x in ab.elements(tst):
            f = D.foreign(x, 'toQ')
            if f:
                bad.append(f'{idx} depends on {f[:4]}')
                break
            if x.id not in seen:
                err = D.rounding(x.args[0] if x.op == 'itrunc' else x, P)
                seen[x.id] = within(P, x, spec_ns(k, T.var('t', 'I'), T.var('o', 'R'), T.var('Q', 'R')), 1000, err)
            if seen[x.id] != 'unsat':
                bad.append(f'{idx}: {seen[x.id]} {T.show(x, 8)[:200]}')
                break
    except Exception as e:
        bad.append(f'{type(e).__name__}: {e}')
    nm = f'{name}: true solar time ({unit})'
    if bad:
        chk.unproved(nm, 'c11', params, str(bad)[:600])
    else:
        chk.proved(nm)


def helper_job(chk, fn, tkind, okind, unit, nt, no):
    """helpers of utils.datetime on scalars and arrays"""
    C.sw()
    h = importlib.import_module('sunwhere.utils.datetime')
    core = importlib.import_module('sunwhere._core')
    sign = 1 if fn == 'true_solar_time' else -1
    k = NS if unit == 's' else 1
    chk.functions |= {'sunwhere.utils.datetime.'+fn}
    name = f'{fn}({tkind} of {nt} times [{unit}], {okind} of {no} longitudes)'
    params = dict(helper=fn, tkind=tkind, okind=okind, unit=unit, nt=nt, no=no)

    def arr(p, n, typ, dt, kind):
        a = SymArray(C.obj([T.var(f'{p}{i}', typ) for i in range(n)]), dt)
        return a.reshape(()) if kind == 'scalar' else a if kind == 'array' else list(a._d)
    b = {f't{i}': (C.T0*NS//k, C.T1*NS//k) for i in range(nt)} | {f'o{i}': (-180, 180, True) for i in range(no)}

    def run():
        r = getattr(h, fn)(arr('t', nt, 'I', f'M8[{unit}]', tkind), arr('o', no, 'R', 'f8', okind))
        t = arr('t', nt, 'I', f'M8[{unit}]', 'array')
        return r, core.evaluate(t, 0., 0.)['eot']
    try:
        r, eot = C.single(C.explore(run, b))
        a, q = C.nodes(r), C.nodes(eot).reshape(-1)
        want = tuple(n for n, kd in ((nt, tkind), (no, okind)) if n > 1)
        bad = []
        if a.shape != want:
            bad.append(f'shape {a.shape}, expected {want}')
        if np.dtype(r.dtype) != np.dtype('M8[ns]'):
            bad.append(f'dtype {r.dtype}')
        if not bad:
            flat = a.reshape(nt, no)
            mp = {x: T.var(f'Q{i}', 'R') for i, x in enumerate(q)}
            P = smt.Prover(b | {f'Q{i}': (-20, 20) for i in range(nt)}, {'_': np.zeros(1)})
            for i, j in np.ndindex(nt, no):
                x = D.denan(T.substitute([flat[i, j]], mp)[0])
                f = D.foreign(x, [f't{i}', f'o{j}', f'Q{i}'])
                if f:
                    bad.append(f'{(i, j)} depends on {f[:4]}')
                    break
                v = within(P, x, spec_ns(k, T.var(f't{i}', 'I'), T.var(f'o{j}', 'R'), T.var(f'Q{i}', 'R'), sign), 1000,
                           D.rounding(x.args[0] if x.op == 'itrunc' else x, P))
                if v != 'unsat':
                    bad.append(f'{(i, j)}: {v} {T.show(x, 8)[:200]}')
                    break
    except Exception as e:
        bad = [f'{type(e).__name__}: {e}']
    if bad:
        chk.unproved(name, 'c11', params, str(bad)[:600])
    else:
        chk.proved(name)


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes {D.SHAPES}; times 1950-2099 at second and nanosecond resolution, naive or in a zone with any UTC offsets, longitudes [-180, 180), any equation of time within 20 minutes',
                  'helpers: scalars, lists and arrays of up to 3 times and longitudes']
    chk.assumptions = ['binary64 rounding is bounded by the term-wise worst case at the magnitudes of the bounds']
    js = []
    for unit in ('s', 'ns', 'zone'):
        js += D.jobs(job, 'c11', (unit,), (True, False) if th else (False,))
    for fn in ('true_solar_time', 'universal_time_coordinated'):
        for tk, ok in (('scalar', 'scalar'), ('scalar', 'array'), ('array', 'scalar'), ('array', 'array'), ('array', 'list')):
            for nt, no in ((1, 1), (3, 2), (2, 2), (1, 3), (3, 1)):
                if tk == 'scalar' and nt > 1 or ok == 'scalar' and no > 1:
                    continue
                for unit in ('s', 'ns'):
                    js.append((helper_job, (fn, tk, ok, unit, nt, no), ('c11', dict(helper=fn, tkind=tk, okind=ok, unit=unit, nt=nt, no=no))))
    chk.run_jobs(js)
