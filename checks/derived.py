"""Derived accessors on abstract algorithm outputs.

A request runs through the real pipeline symbolically; then the terms of zenith, azimuth, declination,
equation of time and eccentricity factor are replaced by free variables, so that what remains of a
derived accessor is its own computation, for any outputs of any algorithm."""
import numpy as np

from symx import smt, terms as T
from . import common as C

SHAPES = {'sites': (2, 3), 'regular_grid': (2, 3, 2), 'transect': (3,)}
SRC = {'zenith': 'Z', 'azimuth': 'S', 'declination': 'D', 'eot': 'Q', 'ecf': 'E'}
BOUNDS = {'Z': (0, 180), 'S': (-180, 180), 'D': (-23.6, 23.6), 'Q': (-20, 20), 'E': (.96, 1.04), 'a': (-90, 90), 'o': (-180, 180, True), 't': (C.T0, C.T1)}
TYPES = {**{k: 'R' for k in 'ZSDQEao'}, 't': 'I'}

_TOTAL = {'add', 'sub', 'mul', 'neg', 'toreal', 'sin', 'cos', 'abs', 'min', 'max', 'f32', 'roundd', 'exp', 'atan', 'atan2', 'mod', 'ite'}


def size(uc, s):
    return s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3


def request(uc, alg, eng, ref, s, unit='s', tz=None):
    nt, ny, nx = size(uc, s)
    k = 10**9 if unit == 'ns' else 1
    b = C.bounds(nt, ny, nx, t=(C.T0*k, C.T1*k))
    return C.single(C.request(uc, alg, eng, ref, nt, ny, nx, tms=C.times(nt, unit, tz), bnds=b))


class Abstract:
    def __init__(self, sp, uc):
        self.uc = uc
        self.map = {}
        self.dims = {}
        for k, p in SRC.items():
            v = getattr(sp, k)
            nn = C.nodes(v)
            for idx in np.ndindex(nn.shape):
                n = nn[idx]
                i, j, l = C.where(v.dims, idx, uc)
                x = T.var(f'{p}{i}_{j}_{l}' if p in 'ZS' else f'{p}{i}', 'R')
                self.map[n] = x
                if n.op in ('mul', 'div') and n.args[1].op == 'const' or n.op == 'mul' and n.args[0].op == 'const':
                    c, y = n.args if n.args[0].op == 'const' else n.args[::-1]
                    c = float(c.val)
                    self.map[y] = T.mul(x, T.const(c)) if n.op == 'div' else T.deg2rad(x) if abs(c*np.pi/180 - 1) < 1e-14 else T.div(x, T.const(c))

    def also(self, acc, name, typ):
        """replace the values of another accessor by variables too"""
        nn = C.nodes(acc)
        for idx in np.ndindex(nn.shape):
            v = T.var(name + '_'.join(map(str, idx)) + '#', typ)
            self.dims[v.val] = (name, dict(zip(acc.dims, idx)))
            self.map[nn[idx]] = v

    def elements(self, acc):
        """(index, generic term) of every element; the term is over t a o Z S D Q E (and `also`)"""
        nn = C.nodes(acc)
        flat = T.substitute(list(nn.reshape(-1)), self.map)
        out = []
        for q, idx in zip(flat, np.ndindex(nn.shape)):
            i, j, l = C.where(acc.dims, idx, self.uc)
            m = {T.var(f't{i}', 'I'): T.var('t', 'I'), T.var(f'a{j}', 'R'): T.var('a', 'R'), T.var(f'o{l}', 'R'): T.var('o', 'R')}
            for v in T.variables([q]):
                n = v.val
                if n[0] in 'ZS' and n[1:] == f'{i}_{j}_{l}' or n[0] in 'DQE' and n[1:] == f'{i}':
                    m[v] = T.var(n[0], 'R')
                elif n in self.dims:
                    name, d = self.dims[n]
                    me = dict(zip(acc.dims, idx))
                    if all(me.get(k, x) == x for k, x in d.items()):
                        m[v] = T.var(name, v.typ)
            out.append((idx, denan(T.substitute([q], m)[0])))
        return out


def definite(n, memo):
    for m in T.topo([n]):
        if m.id in memo:
            continue
        if m.op == 'const':
            r = m.typ != 'R' or float(m.val) == float(m.val)
        elif m.op == 'var' or m.typ != 'R':
            r = True
        elif m.op in _TOTAL or m.op == 'div' and m.args[1].op == 'const' and m.args[1].val != 0:
            r = all(memo[a.id] for a in m.args)
        else:
            r = False
        memo[m.id] = r
    return memo[n.id]


def denan(root):
    """isnan() of terms that are always numbers is false"""
    memo, dm = {}, {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        if n.op == 'isnan' and definite(a[0], dm):
            memo[n.id] = T.FALSE
        elif n.op in ('min', 'max') and any(x.op == 'const' and x.typ == 'R' and np.isinf(float(x.val)) for x in a):
            inf = [x for x in a if x.op == 'const' and np.isinf(float(x.val))][0]
            oth = a[1] if inf is a[0] else a[0]
            memo[n.id] = oth if (inf.val > 0) == (n.op == 'min') else inf
        else:
            memo[n.id] = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


def foreign(n, allowed):
    return sorted({v.val for v in T.variables([n])} - set(allowed))


def rounding(n, P):
    """bound of the rounding error of a term evaluated in binary64, for the magnitudes of the bounds"""
    u = 2.**-53
    e = {}
    for m in T.topo([n]):
        k = [e[a.id] for a in m.args]
        if m.typ == 'B':
            e[m.id] = 0.
            continue
        lo, hi = P.hint(m)
        mag = max(abs(lo), abs(hi))
        am = [max(map(abs, P.hint(a))) if a.typ != 'B' else 0. for a in m.args]
        if m.op in ('var', 'const'):
            r = 0.
        elif m.op in ('add', 'sub'):
            r = sum(k) + (mag*u if m.typ == 'R' else 0.)
        elif m.op == 'mul':
            r = am[0]*k[1] + am[1]*k[0] + k[0]*k[1] + (mag*u if m.typ == 'R' else 0.)
        elif m.op == 'div' and m.args[1].op == 'const':
            r = k[0]/abs(float(m.args[1].val)) + mag*u
        elif m.op == 'neg':
            r = k[0]
        elif m.op == 'toreal':
            r = k[0] + (mag*u if mag > 2**53 else 0.)
        elif m.op == 'ite':
            r = max(k[1:])
        else:
            r = float('inf')
        e[m.id] = r
    return e[n.id]


def samples(n=60, seed=3):
    rng = np.random.default_rng(seed)
    s = C.sample_env(1, 1, 1, n, seed)
    return {'t': s['t0'], 'a': s['a0'], 'o': s['o0'], 'Z': rng.uniform(.5, 179.5, n), 'S': rng.uniform(-180, 180, n),
            'D': rng.uniform(-23.5, 23.5, n), 'Q': rng.uniform(-17, 17, n), 'E': rng.uniform(.965, 1.035, n)}


def case(chk, uc, alg, eng, ref, oracle, params, unit='s', tz=None, shape=None):
    """the symbolic result and its abstraction, or None when the request cannot be encoded"""
    name = f'{uc} {alg}/{eng} refraction={ref}'
    chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}', 'sunwhere._base.Sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc}
    try:
        sp = request(uc, alg, eng, ref, shape or SHAPES[uc], unit, tz)
        return name, sp, Abstract(sp, uc)
    except Exception as e:
        chk.unproved(name, oracle, params, f'{type(e).__name__}: {e}'[:500])
        return None


def jobs(job, oracle, extra=(), refs=(True, False)):
    return [(job, (uc, a, e, ref, *extra), (oracle, dict(uc=uc, alg=a, eng=e, ref=ref))) for a, e in C.IMPL[::-1] for uc in C.USECASES for ref in refs]
