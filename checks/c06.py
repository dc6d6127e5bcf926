"""C06: zenith and azimuth as the local view of the declination and the hour angle.

The pipeline is executed on one symbolic instant and place; the angles inside sines and cosines are brought
to linear normal form modulo whole turns.  z3 proves that the cosine of zenith and the direction of azimuth
are the spherical transform of one declination-like and one hour-angle-like angle; these are compared with
the declination returned and with the azimuth at the pole (the hour angle)."""
import itertools

import numpy as np

from symx import smt, terms as T, tm
from symx.trig import Norm
from . import common as C, sun as S

TOL = .01
LAT = T.mul(S.A0, T.const(S.RAD))


def chain(root):
    """nodes through which every path from the root to a variable passes, deepest first"""
    tp = T.topo([root])
    pos = {n.id: i for i, n in enumerate(tp)}
    has = {}
    for n in tp:
        has[n.id] = n.op == 'var' or any(has[a.id] for a in n.args)
    # walk from the root keeping the frontier
    import heapq
    heap, seen, out = [-pos[root.id]], {root.id}, []
    while heap:
        if len(heap) == 1:
            out.append(tp[-heap[0]])
        n = tp[-heapq.heappop(heap)]
        if n.op == 'var':
            break
        for a in n.args:
            if has[a.id] and a.id not in seen:
                seen.add(a.id)
                heapq.heappush(heap, -pos[a.id])
    return out[::-1]


def unarc(root, w):
    """acos(cos w) = w, asin(cos w) = pi/2 - w, clips of a cosine, for w in [0, pi]"""
    cw = T.fn('cos', w)
    memo = {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        r = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if r.op == 'acos' and r.args[0] is cw:
            r = w
        elif r.op == 'asin' and r.args[0] is cw:
            r = T.sub(T.const(np.pi/2), w)
        elif r.op in ('min', 'max') and any(m is cw for m in r.args):
            k = [x for x in r.args if x is not cw]
            if k and k[0].op == 'const' and (k[0].val >= 1 if r.op == 'min' else k[0].val <= -1):
                r = cw
        memo[n.id] = r
    return memo[root.id]


def leads(roots):
    """arguments of the outermost sines, cosines and tangents"""
    out, seen, st = {}, set(), list(roots)
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op in ('sin', 'cos', 'tan'):
            out[n.args[0].id] = n.args[0]
        else:
            st += n.args
    return list(out.values())


def encode(root, names, side):
    """term over sines and cosines of the named angles as a z3 real term (constraints on square roots in side)"""
    import z3
    memo = {}

    def go(n):
        if n.id in memo:
            return memo[n.id]
        op, a = n.op, n.args
        if op == 'const':
            r = z3.RealVal(str(smt.rat(n.val)))
        elif op in ('sin', 'cos', 'tan'):
            k = names.get(a[0].id)
            if k is None:
                raise T.Unsupported(f'{op} of {T.show(a[0], 3)[:120]}')
            s, c = z3.Real('s' + k), z3.Real('c' + k)
            r = s if op == 'sin' else c if op == 'cos' else s/c
        elif op in ('add', 'sub', 'mul', 'div'):
            x, y = go(a[0]), go(a[1])
            r = x + y if op == 'add' else x - y if op == 'sub' else x*y if op == 'mul' else x/y
        elif op == 'neg':
            r = -go(a[0])
        elif op == 'sqrt':
            r, x = z3.Real(f'r{n.id}'), go(a[0])
            side.append(z3.Implies(x >= 0, z3.And(r >= 0, r*r == x)))
        elif op == 'roundd' and n.val >= 6:
            r = go(a[0])
        else:
            raise T.Unsupported(op)
        memo[n.id] = r
        return r
    return go(root)


def z3prove(goal, names, side=(), timeout=20):
    import z3
    s = z3.Solver()
    for k in set(names.values()):
        x, c = z3.Real('s' + k), z3.Real('c' + k)
        s.add(x*x + c*c == 1)
        if k == 'q':
            s.add(c >= z3.RealVal('0.9'))
        if k == 'l':
            s.add(c >= 0)
    s.add(*side, z3.Not(goal))
    return smt.STATS.check(s, timeout) == 'unsat'


def study(zen, az, dec, h, fold, lo, hi):
    """{obligation: (holds, candidate instants)}"""
    import z3
    out = {}
    zr, ar = fold(T.deg2rad(zen)), T.deg2rad(az)
    atoms, const, _ = fold.lin(fold(ar))
    (at, coef), = list(atoms.values())
    turns = const/(smt.PI/2)
    if at.op != 'atan2' or abs(coef) != 1 or abs(turns - round(turns)) > 1e-9:
        raise T.Unsupported('azimuth ' + T.show(ar, 5)[:200])
    Y, X = at.args
    if coef < 0:
        Y = T.neg(Y)
    for _ in range(round(turns) % 4):
        Y, X = X, T.neg(Y)
    done = None
    for y in chain(zr):
        ls = leads([y, Y, X])
        lat = [n for n in ls if {v.val for v in T.variables([n])} == {'a0'}]
        hour = [n for n in ls if 'o0' in {v.val for v in T.variables([n])} and any(m.val == 'o0' for m in map(T.by_id, fold.lin(n)[0]) if m.op == 'var')]
        rest = [n for n in ls if not any(n is m for m in (*lat, *hour))]
        for p, q in itertools.product(hour, rest):
            names = {n.id: 'l' for n in lat if n is fold(LAT)}
            names.update({p.id: 'p', q.id: 'q'})
            side = []
            try:
                ey, eY, eX = [encode(n, names, side) for n in (y, Y, X)]
            except T.Unsupported:
                continue
            sl, cl, sp, cp, sq, cq = [z3.Real(k) for k in ('sl', 'cl', 'sp', 'cp', 'sq', 'cq')]
            ref = sl*sq + cl*cq*cp
            Yr, Xr = cq*sp, sl*cq*cp - cl*sq
            sg = next((g for g in (1, -1) if z3prove(ey == g*ref, names, side)), None)
            done = done or (y, p, q, sg, False)
            if sg is None:
                continue
            ok = z3prove(eY*Xr - eX*Yr == 0, names, side) and z3prove(z3.Implies(z3.Or(Xr*Xr + Yr*Yr > 0), eY*Yr + eX*Xr > 0), names, side)
            done = (y, p, q, sg, ok)
            if ok:
                break
        if done and done[4]:
            break
    if not done:
        raise T.Unsupported('no declination and hour angle found')
    y, p, q, sg, ok = done
    out['cosine of zenith'] = sg is not None, []
    out['direction of azimuth'] = ok, []
    # zenith as a function of the angle whose cosine y is
    w = T.var('w', 'R')
    cells = np.concatenate([np.linspace(0, .02, 401), np.linspace(.02, np.pi - .02, 3000)[1:], np.linspace(np.pi - .02, np.pi, 401)[1:]])
    a, b = cells[:-1], cells[1:]
    cw = T.fn('cos', w)
    f = unarc(T.substitute([zr], {y: cw if sg in (1, None) else T.neg(cw)})[0], w)
    if sg == -1:
        f = unarc(fold(f), w)
    d = T.mul(T.const(1/S.RAD), T.sub(f, w))
    v = tm.enclose([d], {'w': (a, b)}, 'w')[d.id]
    und = np.asarray(v.und) | np.zeros(len(a), bool)
    x, z = np.where(und, -np.inf, v.lo()), np.where(und, np.inf, v.hi())
    mid = (a > 1*S.RAD) & (b < np.pi - 1*S.RAD)
    dz = float(np.max(np.maximum(-x[mid], z[mid])))
    out['zenith near the zenith and nadir'] = S.verdict(x[~mid], z[~mid], -.1, .1), []
    # the angles against declination and hour angle
    goals = {}
    for nm, u, r in (('declination', q, T.deg2rad(dec)), ('hour angle', p, h)):
        ua, uc, _ = fold.lin(u)
        ra, rc, _ = fold.lin(fold(r))
        diff = dict(ua)
        acc = T.const(0.)
        for i in {*ua, *ra}:
            n, k = ua.get(i) or (ra[i][0], 0)
            k = k - (ra[i][1] if i in ra else 0)
            if abs(k) > 1e-15:
                acc = T.add(acc, T.mul(T.const(float(k)), T.toreal(n)))
        c0 = (uc - rc) % (2*smt.PI)
        c0 = c0 - 2*smt.PI if c0 > smt.PI else c0
        goals[nm] = (T.mul(T.const(1/S.RAD), T.add(acc, T.const(float(c0)))), -TOL, TOL)
    goals['declination below 25.8 degrees'] = (T.mul(T.const(1/S.RAD), q), -25.8, 25.8)
    over = {n.id: tm.V(0., r=np.pi/2) for n in T.topo([g[0] for g in goals.values()]) if n.op == 'atan'}
    cut, ver = {}, {}
    at = list(fold.lin(fold(T.deg2rad(dec)))[0].values())
    if len(at) == 1 and abs(at[0][1] - 1) < 1e-12 and at[0][0].op != 'var':
        cut = {at[0][0]: T.var('D', 'R')}
    for nm, (d, x, z) in list(goals.items()):
        n, = T.substitute([d], cut)
        if 'D' not in {v.val for v in T.variables([n])}:
            continue
        # any declination of the range in place of the one of the instant
        cells = np.linspace(-.45, .45, 3001)
        e = tm.enclose([n], {**S.BOX, 't0': (lo.min(), hi.max()), 'D': (cells[:-1], cells[1:])}, 'D', over=over)[n.id]
        und = np.asarray(e.und) | np.zeros(3000, bool)
        l, u = np.where(und, -np.inf, e.lo()), np.where(und, np.inf, e.hi())
        if S.verdict(l, u, x, z):
            ver[nm] = True, [], l.min(), u.max()
            goals['declination in range'] = T.mul(T.const(1/S.RAD), T.deg2rad(dec)), -25.7, 25.7
            del goals[nm]
    ver.update(S.decide(goals, lo, hi, over=over))
    total = dz
    for nm, (g, ts, l, u) in ver.items():
        out[nm] = g, ts
        if nm in ('declination', 'hour angle'):
            total += max(-l, u)
    c = dict((n.val, k) for n, k in fold.lin(h)[0].values() if n.op == 'var').get('o0', 0)
    if any(v.val == 'o0' for n, k in fold.lin(h)[0].values() if n.op != 'var' for v in T.variables([n])):
        c = np.nan
    out['one to one with longitude'] = S.verdict([float(c)], [float(c)], S.RAD*(1 - 1e-9), S.RAD*(1 + 1e-9)), []
    out[f'within {TOL} degrees'] = S.verdict([0.], [total], 0, TOL), []
    return out


def prepare(x, N, lo, hi):
    """zenith, azimuth, declination (degrees) and hour angle (radians)"""
    az, zen, dec = S.tidy([S.node(x.azimuth), S.node(x.zenith), S.node(x.declination)], lo, hi)
    h = S.flat(T.deg2rad(N.lon(az)), lo, hi)
    return zen, az, dec, h


def job(chk, alg, eng):
    lo, hi = S.days('1950-01-01', '2100-01-01')
    N = S.Angles()
    memo, valid = {}, []
    for uc in C.USECASES:
        name = f'{uc} {alg}/{eng}'
        params = dict(uc=uc, alg=alg, eng=eng)
        chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc}
        try:
            x = S.request(uc, alg, eng, False)
            v = prepare(x, N, lo, hi)
            key = tuple(n.id for n in v)
            if key not in memo:
                memo[key] = study(*v, N.canon, lo, hi)
            valid += [(uc, alg, eng, False, x, (1, 1, 1))]
        except Exception as e:
            chk.unproved(name, 'c06', params, f'{type(e).__name__}: {e}'[:400])
            continue
        for k, (ok, ts) in memo[key].items():
            if ok:
                chk.proved(f'{name}: {k}')
            else:
                chk.unproved(f'{name}: {k}', 'c06', {**params, 'ts': ts}, str(ts[:4]))
    C.validate(chk, valid, 4)


def main(chk):
    chk.bounds = ['every second of 1950-2100, every latitude and longitude; hour angle: azimuth at the pole; |declination| < 25 degrees']
    chk.assumptions = ['real arithmetic; single precision of the coordinates ignored (C01, C02)', 'the direction of azimuth is not constrained with the sun exactly overhead or at the nadir']
    chk.run_jobs([(job, (a, e), ('c06', dict(uc='transect', alg=a, eng=e))) for a, e in C.IMPL[::-1]])
