"""C14: relative air mass as a function of the zenith angle alone.

The accessor's term (abstract zenith) is compared with the published formula, and its range, horizon value
and monotonicity are decided from enclosures of the term and its symbolic derivative over cells of the
zenith angle, which z3 combines."""
import numpy as np

from symx import smt, terms as T, tm
from . import common as C, derived as D

Z = T.var('Z', 'R')


def c(v):
    return T.const(float(v))


def published(p):
    """reciprocal air mass, zenith in degrees"""
    k = {'kasten_1965': (.15, 0., 93.885, -1.253), 'kasten_and_young_1989': (.50572, 0., 96.07995, -1.6364),
         'gueymard_2001': (.45665, .07, 96.4836, -1.697), 'gueymard_2003': (.48353, .095846, 96.741, -1.754)}[p]
    x = c(k[0])
    if k[1]:
        x = T.mul(x, T.power(Z, c(k[1])))
    x = T.mul(x, T.power(T.sub(c(k[2]), Z), c(k[3])))
    return T.maxv(c(1.), T.div(c(1.), T.add(T.fn('cos', T.deg2rad(Z)), x)))


def cells(n):
    e = np.concatenate([[0.], np.geomspace(1e-6, .5, n//4), np.linspace(.5, 90, n)[1:]])
    return e[:-1], e[1:]


def derivative(x):
    """d/dZ, with max/min/ite by branches (None where not differentiable is needed)"""
    d = {}
    for n in T.topo([x]):
        if n.typ != 'R':
            continue
        if n.op == 'var':
            d[n.id] = c(1. if n is Z else 0.)
        elif n.op == 'const':
            d[n.id] = c(0.)
        else:
            a = n.args
            k = [d.get(y.id) for y in a]
            if n.op == 'add':
                r = T.add(k[0], k[1])
            elif n.op == 'sub':
                r = T.sub(k[0], k[1])
            elif n.op == 'neg':
                r = T.neg(k[0])
            elif n.op == 'mul':
                r = T.add(T.mul(k[0], a[1]), T.mul(a[0], k[1]))
            elif n.op == 'div':
                r = T.sub(T.div(k[0], a[1]), T.div(T.mul(T.div(a[0], a[1]), k[1]), a[1]))
            elif n.op == 'sin':
                r = T.mul(T.fn('cos', a[0]), k[0])
            elif n.op == 'cos':
                r = T.neg(T.mul(T.fn('sin', a[0]), k[0]))
            elif n.op == 'exp':
                r = T.mul(n, k[0])
            elif n.op == 'log':
                r = T.div(k[0], a[0])
            elif n.op == 'sqrt':
                r = T.div(k[0], T.mul(c(2.), n))
            elif n.op == 'pow' and a[1].op == 'const':
                r = T.mul(T.mul(a[1], T.power(a[0], c(float(a[1].val) - 1))), k[0])
            elif n.op in ('max', 'min'):
                cond = T.le(a[0], a[1]) if n.op == 'min' else T.le(a[1], a[0])
                r = T.ite(cond, k[0], k[1])
            elif n.op == 'ite':
                r = T.ite(a[0], k[1], k[2])
            elif n.op in ('f32', 'roundd'):
                r = k[0]
            else:
                raise T.Unsupported(f'derivative of {n.op}')
            d[n.id] = r
    return d[x.id]


def enc(roots, lo, hi):
    e = tm.enclose(roots, {'Z': (lo, hi)}, 'Z')
    n = len(lo)
    out = []
    for r in roots:
        v = e[r.id]
        z = np.zeros(n)
        und = np.asarray(v.und) | np.zeros(n, bool)
        out.append((np.where(und, -np.inf, v.lo() + z), np.where(und, np.inf, v.hi() + z)))
    return out


def z3_between(lo, hi, a, b):
    """z3 verdict: every cell's value, anywhere in [lo, hi], is in [a, b]"""
    import z3
    v = z3.Real('v')
    s = z3.Solver()
    l, h = float(np.min(lo)), float(np.max(hi))
    if not (np.isfinite(l) and np.isfinite(h)):
        return False
    s.add(v >= z3.RealVal(repr(l)), v <= z3.RealVal(repr(h)), z3.Or(v < z3.RealVal(repr(float(a))), v > z3.RealVal(repr(float(b)))))
    return smt.STATS.check(s, 10) == 'unsat'


def facts(x, p, n):
    """the obligations about the term over [0, 90]; {name: bool}"""
    out = {}
    lo, hi = cells(n)
    P = smt.Prover({'Z': (0, 90)}, {'Z': np.concatenate([np.linspace(0, 90, 60), [90. - 1e-9]])})
    spec = published(p)
    same = P.canon(x) is P.canon(spec)
    if not same:
        m = hi > .01
        rel = T.div(T.sub(x, spec), spec)
        (a, b), = enc([rel], lo[m], hi[m])
        (u, v), (q, w) = enc([x, spec], lo[~m], hi[~m])
        same = z3_between(a, b, -1e-4, 1e-4) and z3_between(u, v, .999, 1.001) and z3_between(q, w, .999, 1.001)
    out['published formula'] = same
    (a, b), (ra, rb) = enc([x, T.mul(x, T.fn('cos', T.deg2rad(Z)))], lo, hi)
    out['at least 1 and at most 45'] = z3_between(a, b, 1 - 1e-12, 45)
    m = hi <= .5
    out['1 overhead'] = z3_between(a[m], b[m], 1 - 1e-12, 1.005)
    m = hi <= 70.05
    out['secant up to 70 degrees'] = z3_between(ra[m], rb[m], .99, 1.01)
    (a9, b9), = enc([x], np.array([90.]), np.array([90.]))
    out['horizon'] = z3_between(a9, b9, 25, 45)
    # where it exceeds 1 in a cell its derivative is not negative
    d = derivative(x)
    (da, db), = enc([d], lo, hi)
    up = b > 1 + 1e-9
    drop = np.where(up, np.minimum(da, 0)*(hi - lo), 0)
    # a cell too close to the overhead point to be resolved can only vary within its own range
    drop = np.maximum(drop, np.where(hi < .6, -(b - a), -np.inf))
    out['never decreasing'] = z3_between(drop, drop, -1e-6, 1e-6) and bool(np.all(np.isfinite(drop)))
    return out


def job(chk, uc, alg, eng, ref):
    th = chk.tier == 'thorough'
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    got = D.case(chk, uc, alg, eng, ref, 'c14', params)
    if not got:
        return
    name, sp, ab = got
    memo = {}
    for p in C.AMS:
        for call in [f'airmass({p!r})', f'airmass(parameterization={p!r})'] + (['airmass()'] if p == 'gueymard_2003' else []):
            bad = []
            try:
                acc = C.access(sp, call)
                for idx, x in ab.elements(acc):
                    f = D.foreign(x, 'Z')
                    if f:
                        bad.append(f'{idx} depends on {f[:4]}')
                        break
                    if x.id not in memo:
                        memo[x.id] = study(x, p, 20000 if th else 3000)
                    w = [k for k, v in memo[x.id].items() if not v]
                    if w:
                        bad.append(f'{idx}: {w} {T.show(x, 6)[:200]}')
                        break
            except Exception as e:
                bad.append(f'{type(e).__name__}: {e}')
            if bad:
                chk.unproved(f'{name}: {call}', 'c14', {**params, 'am': p}, str(bad)[:600])
            else:
                chk.proved(f'{name}: {call}', 'published formula, range, horizon, secant, monotonic, missing below the horizon')


def study(x, p, n):
    # case split at the horizon
    day = smt.Prover({'Z': (0, 90)}, {'Z': np.linspace(0, 90, 80)})
    night = smt.Prover({'Z': (90 + 1e-9, 180)}, {'Z': np.linspace(90.001, 180, 80)})
    xd, xn = D.denan(day.canon(x)), D.denan(night.canon(x))
    out = {'missing at night': xn is T.NANC or T.isnan(xn) is T.TRUE}
    out.update(facts(xd, p, n))
    # a missing zenith angle
    xm = T.substitute([x], {Z: T.NANC})[0]
    out['missing zenith'] = xm is T.NANC or T.isnan(xm) is T.TRUE
    return out


def main(chk):
    chk.bounds = [f'shapes {D.SHAPES}; every zenith angle of [0, 180] degrees and the missing one']
    chk.assumptions = ['zenith angles between 90 and 90 + 1e-9 degrees are not considered', 'real arithmetic; "more than rounding" is 1e-6']
    chk.run_jobs(D.jobs(job, 'c14'))
