"""C08: nrel against the published Solar Position Algorithm.

The published algorithm is pvlib's transcription (ref/pvlib_spa.py), executed on the same symbolic instant
and place.  Quantities of time are enclosed as differences.  In the position the largest sub-terms of time
alone (declination, parallax, time part of the hour angle) are paired, their differences enclosed, and each
pair replaced by one variable; what remains, a function of these and the place, is proved the same."""
import os
import types

import numpy as np

from symx import smt, terms as T, tm, loader
from symx.arr import SymArray
from . import common as C, sun as S
from symx.trig import Norm
from .c05 import unit
from .c09 import detan, dominator

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'pvlib_spa.py')
PART, HOUR = 1.4e-5, 1.1e-4      # declination, angles that go round; degrees
REFRACTION = 3.5e-5


def published():
    """nodes of the published algorithm at t0, a0, o0 (sea level, 1013.25 hPa, 12 C, 67 s)"""
    m = types.ModuleType('published')
    m.__dict__['__builtins__'] = loader.BUILTINS
    exec(compile(open(REF).read(), REF, 'exec', dont_inherit=True), m.__dict__)

    def arr(n):
        o = np.empty(1, object)
        o[0] = n
        return SymArray(o, 'f8')
    a = arr(T.toreal(S.TT)), arr(S.A0), arr(S.O0), 0., 1013.25, 12., 67., .5667, 1
    app, zen, _, _, az, eot = [S.node(x) for x in m.solar_position_numpy(*a)]
    v, alpha, dec = [S.node(x) for x in m.solar_position_numpy(*a, sst=True)]
    R, = [S.node(x) for x in m.solar_position_numpy(*a, esd=True)]
    return dict(apparent=app, zenith=zen, azimuth=T.sub(az, T.const(180.)), eot=eot, declination=dec, ecf=T.div(T.const(1.), T.mul(R, R)),
                hour=T.sub(T.add(v, S.O0), alpha))


def timely_goals(x, p, N, lo, hi):
    v = S.tidy([S.node(x.declination), S.node(x.ecf), S.node(x.eot), N.lon(S.node(x.azimuth)), p['declination'], p['ecf'], p['eot'], p['hour']], lo, hi)
    goals = {'declination': (T.sub(v[0], v[4]), -PART, PART), 'distance': (T.sub(v[1], v[5]), -1e-7, 1e-7)}
    for nm, u, tol in (('equation of time', T.mul(T.sub(v[2], v[6]), T.const(S.RAD/4)), 2e-4), ('hour angle', T.deg2rad(T.sub(v[3], v[7])), HOUR)):
        s, c = N.sc(u)
        t = np.sin(tol*S.RAD)
        goals[nm] = (s, -t, t)
        goals[nm + ' (same half turn)'] = (c, .5, 1.01)
    return goals


def timeonly(n):
    return {v.val for v in T.variables([n])} <= {'t0'}


def group(root, N):
    """inside sines and cosines of the place, what depends on time alone is summed first"""
    memo = {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        if n.op in ('sin', 'cos', 'tan') and not timeonly(n):
            atoms, const, _ = N.lin(a[0])
            rest, tau = T.const(0.), T.const(0.)
            for i, (m, q) in sorted(atoms.items()):
                x = T.toreal(m)
                x = x if q == 1 else T.mul(T.const(float(q)), x)
                if timeonly(m):
                    tau = T.add(tau, x)
                else:
                    rest = T.add(rest, x)
            if any(timeonly(m) for m, _ in atoms.values()):
                tau, const = T.add(tau, T.const(float(const % (2*smt.PI)))), 0
            memo[n.id] = T.fn(n.op, T.add(T.add(rest, T.const(float(const))) if const else rest, tau))
        else:
            memo[n.id] = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


def fringe(roots, chains=False):
    """angles (and other quantities) of time alone the roots are made of, without constant factors and summands
    (chains: and the same with them)"""
    out, seen, st = {}, set(), list(roots)
    while st:
        n = st.pop()
        if n.id in seen or n.op == 'const':
            continue
        seen.add(n.id)
        if timeonly(n):
            if n.op in ('sin', 'cos', 'tan'):
                n = n.args[0]
            chain = [n]
            while n.op in ('mul', 'div', 'add', 'sub', 'neg') and sum(x.op != 'const' for x in n.args) == 1:
                n, = [x for x in n.args if x.op != 'const']
                chain.append(n)
            out[n.id] = chain if chains else n
        else:
            st += n.args
    return list(out.values())


def pair(u, w, N):
    """u, w: roots of either side; pairs of their time-only parts that look alike"""
    cu, cw = fringe(u, True), fringe(w, True)
    env = {'t0': np.random.default_rng(5).integers(C.T0, C.T1, 40)}
    nodes = list({n.id: n for c in cu + cw for n in c}.values())
    at = {n.id: np.asarray(x, float) for n, x in zip(nodes, T.evaluate(nodes, env))}
    out = []
    for cn in cw:
        if any(cn[-1] is c[-1] for c in cu):
            continue
        # the innermost ones that look alike
        for n in cn[::-1]:
            d = [(np.abs((at[m.id] - at[n.id] + np.pi) % (2*np.pi) - np.pi).max(), k, m) for c in cu for k, m in enumerate(c[::-1])]
            near = [x for x in d if x[0] < 1e-3]
            if near:
                out.append((min(near, key=lambda x: (x[1], x[0]))[2], n))
                break
    return out


def unclip(root):
    """clips to [-1, 1] of what never exceeds one"""
    memo = {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        r = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if r.op in ('min', 'max'):
            k = [x for x in r.args if x.op == 'const']
            y = [x for x in r.args if x.op != 'const']
            if len(k) == 1 and (k[0].val >= 1 if r.op == 'min' else k[0].val <= -1) and y[0].op == 'add' and unit(y[0]):
                r = y[0]
        memo[n.id] = r
    return memo[root.id]


def share(v, N, lo, hi):
    """(roots with time-only parts paired and replaced by variables, goals for the differences, variables' bounds)"""
    sc, N = N.sc, N.canon
    v = [group(masked(n), N) for n in v]
    k = len(v)//2
    goals, m, box = {}, {}, {}
    ps = pair(v[:k], v[k:], N)
    both = {n.id for n in fringe(v[:k])} & {n.id for n in fringe(v[k:])}
    ps += [(n, n) for n in fringe(v[:k]) if n.id in both]
    env = {'t0': np.random.default_rng(6).integers(C.T0, C.T1, 400)}
    for i, (a, b) in enumerate(ps):
        y = T.var(f'F{i}', 'R')
        m[a] = m[b] = y
        x = np.asarray(T.evaluate([a], env)[0], float)
        box[f'F{i}'] = float(x.min() - .1*np.ptp(x) - .01), float(x.max() + .1*np.ptp(x) + .01)
        if a is not b:
            ua, uc, _ = N.lin(a)
            ra, rc, _ = N.lin(b)
            acc = T.const(0.)
            for j in {*ua, *ra}:
                n, q = ua.get(j) or (ra[j][0], 0)
                q = q - (ra[j][1] if j in ra else 0)
                if abs(q) > 1e-15:
                    acc = T.add(acc, T.mul(T.const(float(q)), T.toreal(n)))
            c0 = float((uc - rc) % (2*smt.PI))
            c0 = c0 - 2*np.pi if c0 > np.pi else c0
            acc = T.add(acc, T.const(c0))
            if box[f'F{i}'][1] - box[f'F{i}'][0] > np.pi:
                s, c = sc(acc)
                t = float(np.sin(HOUR*S.RAD))
                goals[f'time-only angle {i}'], goals[f'time-only angle {i} (same half turn)'] = (s, -t, t), (c, .5, 1.01)
            else:
                goals[f'time-only angle {i}'] = (T.mul(T.const(1/S.RAD), acc), -PART, PART)
    return T.substitute(v, m), goals, box


def masked(root):
    """x times a condition is x or nothing"""
    memo = {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        r = None
        if n.op == 'mul':
            for x, y in (a, a[::-1]):
                if x.op == 'toreal':
                    x = x.args[0]
                if x.typ == 'B' or (x.op == 'ite' and x.args[1].op == x.args[2].op == 'const' and (x.args[1].val, x.args[2].val) == (1, 0)):
                    r = T.ite(x if x.typ == 'B' else x.args[0], T.toreal(y), T.const(0.))
                    break
        memo[n.id] = r if r is not None else n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


CUT = -.26667 - .5667      # published cut-off of refraction, degrees


def position(u, w, box, az):
    """u, w (radians): the same function of the shared variables and the place; (holds, lowest, highest difference in degrees, zeniths)"""
    b = {**box, 'a0': (-90, 90), 'o0': (-180, 180)}
    P = smt.Prover(b, {k: np.random.default_rng(7).uniform(*v, 60) for k, v in b.items()})
    u, w = [P.canon(unclip(masked(x))) for x in (u, w)]
    if u is w:
        return True, 0., 0., []
    got = dominator(u, w)
    if not got:
        raise T.Unsupported('no common part: ' + T.show(u, 5)[:150] + ' | ' + T.show(w, 5)[:150])
    n, f, g = got
    if az:
        N = Norm(False)
        (ua, uc, _), (ra, rc, _) = N.lin(f), N.lin(g)
        t = (uc - rc)/(2*smt.PI)
        ok = set(ua) == set(ra) and all(abs(ua[i][1] - ra[i][1]) < 1e-12 for i in ua) and abs(t - round(t)) < 1e-9
        return ok, 0., 0. if ok else np.inf, []
    if n.op not in ('asin', 'acos'):
        raise T.Unsupported('common part is ' + n.op)
    h = np.radians(np.unique(np.concatenate([np.linspace(-90, 90, 4001), np.linspace(-2, 1, 6001), [CUT - .001, CUT + .001]])))
    h = h[(np.abs(h - CUT*S.RAD) >= .000999*S.RAD)]
    lo, hi = h[:-1], h[1:]
    m = ~((lo < CUT*S.RAD) & (hi > CUT*S.RAD))
    lo, hi = lo[m], hi[m]
    if n.op == 'acos':
        lo, hi = np.pi/2 - hi, np.pi/2 - lo
    d = detan(T.mul(T.const(1/S.RAD), T.sub(f, g)))
    for k in range(12):
        v = tm.enclose([d], {'d': (lo, hi)}, 'd')[d.id]
        und = np.asarray(v.und) | np.zeros(len(lo), bool)
        a, b = np.where(und, -np.inf, v.lo()), np.where(und, np.inf, v.hi())
        bad = ~((a >= -REFRACTION) & (b <= REFRACTION))
        if k == 0:
            low, high = np.inf, -np.inf
        if not bad.all():
            low, high = min(low, a[~bad].min()), max(high, b[~bad].max())
        if not bad.any() or bad.sum() > 3000:
            break
        if k < 11:
            c = .5*(lo[bad] + hi[bad])
            lo, hi = np.concatenate([lo[bad], c]), np.concatenate([c, hi[bad]])
    if bad.any():
        z = np.degrees(.5*(lo + hi))[bad] if n.op == 'acos' else 90 - np.degrees(.5*(lo + hi))[bad]
        return False, float(a.min()), float(b.max()), [float(q) for q in z[:: max(1, len(z)//24)][:24]]
    return S.verdict([low], [high], -REFRACTION, REFRACTION), low, high, []


def job(chk, eng):
    alg = 'nrel'
    lo, hi = S.days('1950-01-01', '2100-01-01')
    N = S.Angles()
    p, memo, valid = published(), {}, []
    for uc in C.USECASES:
        for ref in (False, True):
            name = f'{uc} {alg}/{eng} refraction={ref}'
            params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
            chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc, 'the published algorithm: pvlib.spa.solar_position_numpy'}
            try:
                x = S.request(uc, alg, eng, ref)
                key = tuple(S.node(getattr(x, k)).id for k in ('declination', 'ecf', 'eot', 'azimuth'))
                if key not in memo:
                    goals = timely_goals(x, p, N, lo, hi)
                    memo[key] = {k: (ok, dict(ts=ts), a, b) for k, (ok, ts, a, b) in S.decide(goals, lo, hi).items()}
                res = dict(memo[key])
                v = S.tidy([S.node(x.zenith), S.node(x.azimuth), p['apparent' if ref else 'zenith'], p['azimuth']], lo, hi)
                key = tuple(n.id for n in v)
                if key not in memo:
                    v, goals, box = share([N.canon(T.deg2rad(n)) for n in v], N, lo, hi)
                    out = {k: (ok, dict(ts=ts), a, b) for k, (ok, ts, a, b) in S.decide(goals, lo, hi).items()}
                    for k, i in (('zenith', 0), ('azimuth', 1)):
                        ok, a, b, zs = position(v[i], v[2 + i], box, k == 'azimuth')
                        out[k] = ok, dict(zs=zs), a, b
                    if sum('same' not in k and not max(abs(out[k][2]), abs(out[k][3])) < 1e-8 for k in goals) > 2:
                        raise T.Unsupported(f'{len(goals)} quantities of time differ ' + str({k: out[k][2:] for k in goals}))
                    memo[key] = out
                res.update(memo[key])
                valid += [(uc, alg, eng, ref, x, (1, 1, 1))]
            except Exception as e:
                chk.unproved(name, 'c08', params, f'{type(e).__name__}: {e}'[:400])
                continue
            for k, (ok, q, a, b) in res.items():
                if ok:
                    chk.proved(f'{name}: {k}', f'enclosed in [{a:.3g}, {b:.3g}]')
                else:
                    chk.unproved(f'{name}: {k}', 'c08', {**params, **q}, f'[{a:.4g}, {b:.4g}] {[*q.values()][0][:4]}')
    C.validate(chk, valid, 4)


def main(chk):
    chk.bounds = ['every second of 1950-2100; every latitude of [-90, 90] and longitude of [-180, 180], every use case and refraction setting',
                  f'time-only angles within {PART} ({HOUR} where they go round) degrees each, the rest of the position the same function of them (of the zenith, within {REFRACTION} degrees)']
    chk.assumptions = ['real arithmetic; single precision of the coordinates ignored (C01, C02)',
                       'the great-circle distance of two positions is at most the sum of the differences of declination and hour angle; refraction does not magnify it',
                       f'cut-off of refraction excluded by .001 degree at an elevation of {CUT:.5f}']
    chk.run_jobs([(job, ('nrel', e)[1:], ('c08', dict(uc='transect', alg='nrel', eng=e, ref=True))) for a, e in C.IMPL if a == 'nrel'])
