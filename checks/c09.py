"""C09: refraction changes the zenith angle only, by a function of the airless zenith angle.

Requests with and without refraction are executed on the same symbolic input; the other outputs are proved
equal by sweeping. The apparent zenith is proved to depend on the input only through the airless one, and
the difference is enclosed over cells covering [0, 180] degrees; z3 decides the bounds from the enclosures."""
import numpy as np

from symx import smt, terms as T, tm
from . import common as C
from .c14 import z3_between

OTHER = ('azimuth', 'declination', 'eot', 'ecf')
SLACK = .0005      # real arithmetic against floating point


def affine(f, d):
    """(slope, offset) of f in the variable d, or None"""
    p = np.array([.1, .7, 1.3, -2.1])
    v = np.asarray(T.evaluate([f], {d.val: p})[0], float) + np.zeros(4)
    k = (v[1] - v[0])/(p[1] - p[0])
    if not np.all(np.isfinite(v)) or abs(k) < 1e-6 or np.abs(v - (v[0] + k*(p - p[0]))).max() > 1e-9:
        return None
    if any(n.op not in ('var', 'const', 'add', 'sub', 'mul', 'div', 'neg') for n in T.topo([f])):
        return None
    return k, v[0] - k*p[0]


def detan(root):
    """a/(k tan x) as a cos x/(k sin x)"""
    memo = {}

    def split(n):
        """n as (numerator, denominator) when it is a product with a tangent"""
        if n.op == 'tan':
            return T.fn('sin', n.args[0]), T.fn('cos', n.args[0])
        if n.op == 'mul':
            l, r = split(n.args[0]), split(n.args[1])
            if l or r:
                l, r = l or (n.args[0], T.const(1.)), r or (n.args[1], T.const(1.))
                return T.mul(l[0], r[0]), T.mul(l[1], r[1])
        return None
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        q = split(a[1]) if n.op == 'div' else None
        memo[n.id] = T.div(T.mul(a[0], q[1]), q[0]) if q else n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


def dominator(F, W):
    """the largest common sub-term through which both depend on the input: (node, F(d), W(d))"""
    common = {n.id for n in T.topo([F])}
    cand = [n for n in T.topo([W]) if n.id in common and n.typ == 'R' and n.op not in ('const',)]
    d = T.var('d', 'R')
    for n in reversed(cand):
        f, w = T.substitute([F, W], {n: d})
        if {v.val for v in T.variables([f, w])} <= {'d'}:
            return n, f, w
    return None


def enclose(roots, lo, hi):
    e = tm.enclose(roots, {'d': (lo, hi)}, 'd')
    out = []
    for r in roots:
        v = e[r.id]
        und = np.asarray(v.und) | np.zeros(len(lo), bool)
        out.append((np.where(und, -np.inf, v.lo()), np.where(und, np.inf, v.hi())))
    return out


TOL = .003


def standard(f, alg):
    """published refraction, degrees, of the airless zenith angle f in degrees"""
    h = T.sub(T.const(90.), f)
    if alg == 'iqbal':
        x = T.deg2rad(h)

        def poly(a, b, c):
            return T.add(T.const(a), T.mul(x, T.add(T.const(b), T.mul(T.const(c), x))))
        r = T.rad2deg(T.div(T.mul(T.const(.061359), poly(.1594, 1.1230, .065656)), poly(1., 28.9344, 277.3971)))
        return T.minv(r, f)
    x = T.deg2rad(T.add(h, T.div(T.const(10.3), T.add(h, T.const(5.11)))))
    return T.div(T.mul(T.const(1.02/60), T.fn('cos', x)), T.fn('sin', x))


def facts(f, w, n, alg):
    """obligations about the lift f - w as a function of the airless zenith f; [(name, holds, zenith)]"""
    d = T.var('d', 'R')
    k = affine(f, d)
    if not k:
        raise ValueError(f'the airless zenith is not affine in {T.show(f, 4)[:200]}')
    z = np.concatenate([np.linspace(0, .5, 501), np.linspace(.5, 45, n//6 + 1)[1:], np.linspace(45, 85, n//6 + 1)[1:], np.linspace(85, 97, n//2 + 1)[1:], np.linspace(97, 180, n//4 + 1)[1:]])
    # where the code's conditions switch
    x = (z - k[1])/k[0]
    lo, hi = np.minimum(x[:-1], x[1:]), np.maximum(x[:-1], x[1:])
    zl, zh = z[:-1], z[1:]
    lift = detan(T.sub(f, w))
    (a, b), = enclose([lift], lo, hi)
    (sa, sb), = enclose([T.sub(lift, standard(f, alg))], lo, hi)
    out = []

    def add(name, m, bl, bh):
        bad = m & ~((a >= bl) & (b <= bh))
        out.append((name, z3_between(a[m], b[m], bl, bh), [float(q) for q in (zl + zh)[bad][:6]/2]))
    add('lift between -0.02 and 0.8 degrees', np.ones(len(a), bool), -.02 - SLACK, .8 + SLACK)
    add('below 0.03 degrees when higher than 45 degrees', zh <= 45, -.03, .03)
    add('below 0.4 degrees at more than 7 degrees under the horizon', zl >= 97, -.4, .4)
    tol = TOL
    m = zh <= 90
    bad = m & ~((sa >= -tol - SLACK) & (sb <= tol + SLACK))
    out.append((f'the published refraction within {tol} degrees', z3_between(sa[m], sb[m], -tol - SLACK, tol + SLACK), [float(q) for q in (zl + zh)[bad][:6]/2]))
    h = np.array([(90 - k[1])/k[0]])
    (a9, b9), = enclose([lift], h - 1e-12, h + 1e-12)
    out.append(('between 0.3 and 0.75 degrees at the horizon', z3_between(a9, b9, .3, .75), [90.]))
    # cut-off: once zero below the horizon, zero from there down
    zero = (np.maximum(np.abs(a), np.abs(b)) <= 1e-9) & (zl >= 90)
    if zero.any():
        m = np.arange(len(a)) >= np.argmax(zero)
        bad = m & ~zero
        out.append(('zero below the cut-off', z3_between(a[m], b[m], -1e-9, 1e-9), [float(q) for q in (zl + zh)[bad][:6]/2]))
    return out


def job(chk, uc, alg, eng):
    name = f'{uc} {alg}/{eng}'
    params = dict(uc=uc, alg=alg, eng=eng)
    chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc}
    try:
        b = C.bounds(1, 1, 1)
        sp = {r: C.single(C.request(uc, alg, eng, r, bnds=b)) for r in (False, True)}
        out = {r: {k: C.nodes(getattr(sp[r], k)).reshape(-1)[0] for k in C.RAW} for r in sp}
    except Exception as e:
        chk.unproved(name, 'c09', params, f'{type(e).__name__}: {e}'[:400])
        return
    P = smt.Prover(b, C.sample_env(1, 1, 1, 40))
    ids, bad = [], []
    for k in OTHER:
        x, y = out[False][k], out[True][k]
        if x is not y:
            x, y = P.canon(x), P.canon(y)
        ids.append((x, y))
        if x is not y:
            bad.append(k)
    if not bad and C.same_all(ids):
        chk.proved(f'{name}: azimuth, declination, equation of time and eccentricity factor without and with refraction')
    else:
        chk.unproved(f'{name}: {bad} without and with refraction', 'c09', {**params, 'pts': C.points(P)}, '')
    try:
        F, W = out[False]['zenith'], out[True]['zenith']
        got = dominator(F, W)
        if got is None:
            x, y = P.canon(F), P.canon(W)
            got = dominator(x, y)
        if got is None:
            raise ValueError('the apparent zenith is not a function of the airless one')
        n, f, w = got
        for what, ok, zs in facts(f, w, 24000 if chk.tier == 'thorough' else 6000, alg):
            if ok:
                chk.proved(f'{name}: {what}')
            else:
                chk.unproved(f'{name}: {what}', 'c09', {**params, 'zs': zs}, f'cells at {zs[:4]}')
    except Exception as e:
        chk.unproved(f'{name}: lift', 'c09', params, f'{type(e).__name__}: {e}'[:400])


def main(chk):
    chk.bounds = ['every airless zenith angle of [0, 180] degrees; other outputs at any instant of 1950-2099 and any place']
    chk.assumptions = ['the airless zenith angle is in [0, 180] degrees (C05)', f'slack of {SLACK} degrees for rounding']
    chk.run_jobs([(job, (uc, a, e), ('c09', dict(uc=uc, alg=a, eng=e))) for a, e in C.IMPL[::-1] for uc in C.USECASES])
