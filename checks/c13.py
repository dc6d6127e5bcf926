"""C13: incidence is the dot product of sun direction and surface normal.

SAT sweeping of the accessor's term (any slope and azimuth, abstract declination and true solar time)
against the dot product; the bound of the dot product is a polynomial identity decided by z3."""
from fractions import Fraction

import numpy as np
import z3

from symx import smt, terms as T
from symx.arr import SymArray
from symx.smt import rat
from symx.trig import Norm
from . import common as C, derived as D

NS = 10**9
BND = {'a': (-90, 90), 'D': (-23.6, 23.6), 'N': ((C.T0 - 86400)*NS, (C.T1 + 86400)*NS), 'b': (-720, 720), 'g': (-1080, 1080), 'k': (-3, 3)}


def vec(a, d, n):
    """sun direction: up, south, east"""
    s, c = (lambda x: T.fn('sin', T.deg2rad(x))), (lambda x: T.fn('cos', T.deg2rad(x)))
    hour = T.div(T.toreal(T.mod(n, T.const(86400*NS))), T.const(3.6e12))
    h = T.mul(T.const(15.), T.sub(hour, T.const(12.)))           # afternoon positive
    up = T.add(T.mul(s(a), s(d)), T.mul(T.mul(c(a), c(d)), c(h)))
    south = T.sub(T.mul(T.mul(s(a), c(d)), c(h)), T.mul(c(a), s(d)))
    east = T.neg(T.mul(c(d), s(h)))
    return up, south, east


def spec(a, d, n, b, g):
    s, c = (lambda x: T.fn('sin', T.deg2rad(x))), (lambda x: T.fn('cos', T.deg2rad(x)))
    up, south, east = vec(a, d, n)
    return T.add(T.mul(up, c(b)), T.mul(s(b), T.add(T.mul(c(g), south), T.mul(s(g), east))))


def env():
    e = D.samples(80, 11)
    rng = np.random.default_rng(2)
    e['N'] = rng.integers(C.T0*NS, C.T1*NS, 80)
    e['b'], e['g'], e['k'] = rng.uniform(-180, 180, 80), rng.uniform(-360, 360, 80), rng.integers(-3, 4, 80)
    return {k: v for k, v in e.items() if k in BND}


def job(chk, uc, alg, eng, ref):
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    got = D.case(chk, uc, alg, eng, ref, 'c13', params)
    if not got:
        return
    name, sp, ab = got
    V = {k: T.var(k, 'I' if k in 'Nk' else 'R') for k in BND}
    a, d, n, b, g, k = (V[x] for x in 'aDNbgk')

    def num(x):
        return SymArray(C.obj([x]).reshape(()), 'f8')
    cases = {
        'any surface': ((num(b), num(g)), spec(a, d, n, b, g)),
        'azimuth plus whole turns': ((num(b), num(T.add(g, T.mul(T.const(360.), T.toreal(k))))), spec(a, d, n, b, g)),
        'horizontal': ((0., num(g)), vec(a, d, n)[0]),
        'facing down': ((180., num(g)), T.neg(vec(a, d, n)[0])),
        'concrete surface': ((35., -20.), spec(a, d, n, T.const(35.), T.const(-20.))),
        'integers': ((90, 270), spec(a, d, n, T.const(90.), T.const(270.))),
    }
    P = smt.Prover(BND, env())
    try:
        ab.also(sp.true_solar_time, 'N', 'I')
    except Exception as e:
        chk.unproved(name, 'c13', params, repr(e)[:300])
        return
    memo = {}
    for c, (args, want) in cases.items():
        bad = []
        try:
            acc = sp.incidence(*args)
            for idx, x in ab.elements(acc):
                f = D.foreign(x, BND)
                if f:
                    bad.append(f'{idx} depends on {f[:4]}')
                    break
                if (c, x.id) not in memo:
                    nx, nw = normal(x), normal(want)
                    memo[c, x.id] = P.canon(nx) is P.canon(nw) or P.canon(x) is P.canon(want) or near(P, nx, nw)
                if not memo[c, x.id]:
                    bad.append(f'{idx}: {T.show(x, 8)[:300]}')
                    break
        except Exception as e:
            bad.append(f'{type(e).__name__}: {e}')
        if bad:
            chk.unproved(f'{name}: {c}', 'c13', params, str(bad)[:600])
        else:
            chk.proved(f'{name}: {c}')


def ring(n, memo):
    """polynomial over sines and cosines: {sorted atom ids: coefficient}, or None"""
    for m in T.topo([n]):
        if m.id in memo:
            continue
        a = [memo.get(x.id) for x in m.args]
        if m.op == 'const':
            r = {(): rat(m.val)}
        elif m.op in ('sin', 'cos'):
            r = {(m.id,): Fraction(1)}
        elif m.op in ('add', 'sub') and None not in a:
            r = dict(a[0])
            for k, v in a[1].items():
                r[k] = r.get(k, 0) + (v if m.op == 'add' else -v)
        elif m.op == 'neg' and a[0] is not None:
            r = {k: -v for k, v in a[0].items()}
        elif m.op == 'mul' and None not in a:
            r = {}
            for k, v in a[0].items():
                for q, w in a[1].items():
                    z = tuple(sorted(k + q))
                    r[z] = r.get(z, 0) + v*w
        else:
            r = None
        memo[m.id] = r
    return memo[n.id]


def near(P, x, y):
    """equal up to the rounding of constants (sin 180 degrees and the like): the coefficients of the
    difference, a polynomial over sines and cosines, sum to less than 1e-9"""
    memo = {}
    p, q = ring(P.canon(x), memo), ring(P.canon(y), memo)
    if p is None or q is None:
        return False
    s = z3.Solver()
    cs = [z3.RealVal(str(p.get(k, 0) - q.get(k, 0))) for k in {**p, **q}]
    s.add(z3.Sum([z3.If(c < 0, -c, c) for c in cs]) > z3.RealVal('1e-9'))
    return smt.STATS.check(s, 5) == 'unsat'


def normal(x):
    """trigonometric normal form, compared with the term on samples"""
    n = Norm()(x)
    e = env()
    u, v = (np.asarray(T.evaluate([z], e)[0], float) for z in (x, n))
    if not np.all(np.abs(u - v) < 1e-9):
        raise ValueError('normal form differs from the term')
    return n


def bounded(chk):
    """the dot product of two unit vectors is within [-1, 1]"""
    u = z3.Reals('sl cl sd cd sh ch')
    sl, cl, sd, cd, sh, ch = u
    up, so, ea = sl*sd + cl*cd*ch, sl*cd*ch - cl*sd, -cd*sh
    s = z3.Solver()
    s.add(sl*sl == 1 - cl*cl, sd*sd == 1 - cd*cd, sh*sh == 1 - ch*ch, up*up + so*so + ea*ea != 1)
    x = z3.Reals('x1 x2 x3 y1 y2 y3')
    x1, x2, x3, y1, y2, y3 = x
    dot = x1*y1 + x2*y2 + x3*y3
    lag = (x1*y2 - x2*y1)**2 + (x1*y3 - x3*y1)**2 + (x2*y3 - x3*y2)**2
    s2 = z3.Solver()
    s2.add((x1*x1 + x2*x2 + x3*x3)*(y1*y1 + y2*y2 + y3*y3) != dot*dot + lag)
    s3 = z3.Solver()
    dd, l = z3.Reals('d l')
    s3.add(l >= 0, 1 == dd*dd + l, z3.Or(dd > 1, dd < -1))
    r = [smt.STATS.check(s, 60), smt.STATS.check(s2, 60), smt.STATS.check(s3, 60)]
    if r == ['unsat']*3:
        chk.proved('the dot product is within [-1, 1]', 'unit vectors, Lagrange identity')
    else:
        chk.inconclusive.append(('bound of the dot product', str(r)))


def main(chk):
    chk.bounds = [f'shapes {D.SHAPES}; latitudes [-90, 90], declinations within 23.6 degrees, any true solar time of 1950-2099 (ns), slopes within two and azimuths within three turns',
                  'whole turns of azimuth: -3..3']
    chk.assumptions = ['true solar time is the one C11 establishes', 'products and sums read as real arithmetic (1e-9 for constants)']
    chk.run_jobs(D.jobs(job, 'c13', (), (True, False) if chk.tier == 'thorough' else (False,)) + [(bounded, ())])
