"""C17: the day angle of the iqbal algorithm on every civil date.

Case split over the civil months of 1800-2261: within a month the calendar conversions are constants and
z3 (linear integer-real arithmetic) proves every angle whose sine or cosine the code takes a multiple of
the day angle, for every second of the month; with the day angle a free variable, the outputs are then
proved equal to the series by SAT sweeping."""
import numpy as np
import z3

from symx import smt, terms as T
from . import common as C
from .c17spec import SERIES

LO, HI = C.sec('1800-01-01'), C.sec('2262-01-01')
OUT = ('declination', 'eot', 'ecf')


def first(k):
    """first second of month k (months since 1970-01)"""
    return int(np.datetime64(k, 'M').astype('M8[s]').astype('i8'))


def spec_angle(t):
    d = T.floordiv(t, T.const(86400))
    mm = T.dt_convert(d, 'D', 'M', False)
    jan1 = T.dt_convert(T.mul(T.floordiv(mm, T.const(12)), T.const(12)), 'M', 'D', False)
    doy = T.add(T.sub(d, jan1), T.const(1))
    f = T.div(T.toreal(T.sub(t, T.mul(d, T.const(86400)))), T.const(86400.))
    return T.mul(T.const(2*np.pi/365), T.add(T.toreal(doy), f))


def series(g, c0, cs, ss):
    r = T.const(c0)
    for k in range(1, max(len(cs), len(ss)) + 1):
        kg = g if k == 1 else T.mul(T.const(float(k)), g)
        if k <= len(cs):
            r = T.add(r, T.mul(T.const(cs[k-1]), T.fn('cos', kg)))
        if k <= len(ss):
            r = T.add(r, T.mul(T.const(ss[k-1]), T.fn('sin', kg)))
    return r


def spec(name, g):
    s = series(g, *SERIES[name])
    return T.rad2deg(s) if name == 'declination' else s


def env(n=160, seed=4):
    rng = np.random.default_rng(seed)
    e = [C.sec(f'{y}-{d}') + q for y in (1800, 1896, 1900, 1904, 1999, 2000, 2024, 2100, 2261) for d in ('01-01', '02-28', '03-01', '12-31') for q in (0, 86399)]
    return {'t0': np.r_[rng.integers(LO, HI, n), e]}


HMS = {'d': (LO//86400, HI//86400 - 1), 'h': (0, 23), 'm': (0, 59), 's': (0, 59)}


def linear(n, c=1, out=None):
    """integer linear form {id: (term, coefficient)}, the constant under None"""
    out = {} if out is None else out

    def put(key, t, k):
        out[key] = (t, out.get(key, (t, 0))[1] + k)
    if n.op == 'const':
        put(None, None, c*int(n.val))
    elif n.op in ('add', 'sub'):
        linear(n.args[0], c, out)
        linear(n.args[1], c if n.op == 'add' else -c, out)
    elif n.op == 'neg':
        linear(n.args[0], -c, out)
    elif n.op == 'mul' and n.args[0].op == 'const':
        linear(n.args[1], c*int(n.args[0].val), out)
    elif n.op == 'mul' and n.args[1].op == 'const':
        linear(n.args[0], c*int(n.args[1].val), out)
    else:
        put(n.id, n, c)
    return out


def unlin(f):
    """term of pairs (term or None, coefficient)"""
    r = T.const(sum(c for n, c in f if n is None))
    for n, c in f:
        if n is not None and c:
            r = T.add(r, n if c == 1 else T.mul(T.const(c), n))
    return r


def clock(roots):
    """t0 = 86400 d + 3600 h + 60 m + s; quotients and wraps simplified where z3 proves it"""
    v = {k: T.var(k, 'I') for k in HMS}
    t = unlin([(v['d'], 86400), (v['h'], 3600), (v['m'], 60), (v['s'], 1)])
    P = smt.Prover(HMS, {'_': np.zeros(1)})
    memo = {}
    t0 = T.var('t0', 'I')
    for n in T.topo(roots):
        a = [memo[x.id] for x in n.args]
        r = t if n is t0 else n if not a else n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if n.typ == 'I' and n.op in ('add', 'sub', 'mul', 'neg') and not any(x.op in ('ite', 'monthday', 'civmonth') for x in T.topo([r])):
            r = unlin(linear(r).values())
        elif n.op in ('idiv', 'mod') and a[1].op == 'const':
            c = int(a[1].val)
            f = linear(a[0]).values()
            q = unlin([(k, x//c) for k, x in f if x % c == 0])
            e = q if n.op == 'idiv' else unlin([(k, x) for k, x in f if x % c])
            if all(x.op in ('var', 'const', 'add', 'sub', 'mul', 'neg') for x in T.topo([r.args[0], e])) and P.prove(T.eq(r, e), timeout=5.):
                r = e
        elif n.op.startswith('wrap') and all(x.op in ('var', 'const', 'add', 'sub', 'mul', 'neg') for x in T.topo(a)) and P.prove(T.eq(r, a[0]), timeout=5.):
            r = a[0]
        memo[n.id] = r
    return [memo[r.id] for r in roots]


class Cells:
    """|angle - k*spec| <= 1e-9 for every second of the months lo..hi"""

    def __init__(self, angles):
        # angles: list of (term of t0, integer multiple)
        s = spec_angle(T.var('t0', 'I'))
        self.roots = clock([x for a, k in angles for x in (a, T.mul(T.const(float(k)), s))])
        self.cm = [n for n in T.topo(self.roots) if n.op == 'civmonth' and n.args[0] is T.var('d', 'I')]

    def run(self, k0, k1):
        e = smt.Enc(HMS)
        s = z3.Solver()
        nside = 0
        v = {q: z3.Int(q) for q in HMS}
        for q, (lo, hi) in HMS.items():
            s.add(v[q] >= lo, v[q] <= hi)
        for k in range(k0, k1):
            r = T.substitute(self.roots, {n: T.const(k) for n in self.cm})
            for a, b in zip(r[::2], r[1::2]):
                d0 = first(k)//86400
                x, y = e.enc(a), e.enc(b)
                s.add(*e.side[nside:])
                nside = len(e.side)
                s.push()
                s.add(v['d'] >= d0, v['d'] < first(k + 1)//86400, z3.Or(x - y > z3.RealVal('1e-9'), y - x > z3.RealVal('1e-9')))
                res = smt.STATS.check(s, 20)
                m = None
                if res == 'sat':
                    m = s.model()
                    m = sum(c*m.eval(v[q], True).as_long() for q, c in (('d', 86400), ('h', 3600), ('m', 60), ('s', 1)))
                s.pop()
                if res != 'unsat':
                    return k, res, m
        return None


def angles_of(outs, P):
    """replace the angles of sines and cosines by multiples of a variable; returns the angles and the outputs"""
    t = T.var('t0', 'I')
    g = T.var('G', 'R')
    sv = np.asarray(T.evaluate([spec_angle(t)], P.env)[0], float)
    found = []
    for _ in range(12):
        todo = [n for n in T.topo(outs) if n.op in ('sin', 'cos') and any(v is t for v in T.variables([n]))]
        if not todo:
            break
        a = min((n.args[0] for n in todo), key=lambda x: len(T.topo([x])))
        av = np.asarray(T.evaluate([a], P.env)[0], float)
        k = round(float(np.median(av/sv)))
        found.append((a, k))
        outs = T.substitute(outs, {a: T.mul(T.const(float(k)), g) if k != 1 else g})
    return found, outs


def request(uc, eng, ref, unit):
    k = 1 if unit == 's' else 10**9
    b = {**C.bounds(1, 1, 1), 't0': (LO*k, (HI - 1)*k)}
    sp = C.single(C.request(uc, 'iqbal', eng, ref, tms=C.times(1, unit), bnds=b))
    out = [C.nodes(getattr(sp, o)).reshape(-1)[0] for o in OUT]
    if unit == 'ns':
        # the code sees the whole second
        t = T.var('t0', 'I')
        m = {n: T.floordiv(T.var('t0s', 'I'), T.const(n.args[1].val//10**9)) for n in T.topo(out)
             if n.op == 'idiv' and n.args[0] is t and T.isconst(n.args[1]) and n.args[1].val % 10**9 == 0}
        out = T.substitute(out, m)
        if any(v is t for v in T.variables(out)):
            raise ValueError('depends on fractions of a second')
        out = T.substitute(out, {T.var('t0s', 'I'): t})
    return out


def collect(chk, grp):
    """requests whose outputs are proved equal given their angles; returns the distinct angle lists"""
    sets = {}
    for uc, eng, ref, unit in grp:
        name = f'{uc} iqbal/{eng} refraction={ref} times [{unit}]'
        params = dict(uc=uc, eng=eng, ref=ref, unit=unit)
        chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_iqbal.{f}' for f in
                          ('sunpos', 'day_angle', 'eccentricity_correction_factor', 'equation_of_time', 'solar_declination')}
        try:
            outs = request(uc, eng, ref, unit)
            P0 = smt.Prover({'t0': (LO, HI - 1)}, env())
            found, gen = angles_of(outs, P0)
            P = smt.Prover({'G': (0, 7)}, {'G': np.random.default_rng(2).uniform(.02, 6.3, 60)})
            g = T.var('G', 'R')
            bad = []
            for o, x in zip(OUT, gen):
                if any(v is not g for v in T.variables([x])):
                    bad.append(f'{o} depends on {[v.val for v in T.variables([x])]}')
                    continue
                w = spec(o, g)
                if not (P.canon(x) is P.canon(w) or near(P, x, w)):
                    bad.append(f'{o}: {T.show(x, 12)[:300]}')
        except Exception as e:
            chk.unproved(name, 'c17', params, f'{type(e).__name__}: {e}'[:500])
            continue
        if bad or not found:
            chk.unproved(name + ': series', 'c17', params, str(bad)[:900])
        else:
            chk.proved(name + ': series of the day angle')
        if found:
            sets.setdefault(tuple((a, k) for a, k in found), []).append((name, params))
    return sets


def near(P, x, w):
    """equal up to the rounding of coefficients"""
    from .c13 import near as n
    return n(P, x, w)


def job(chk, grp, part, parts):
    for ang, who in collect(chk, grp).items() if part == 0 else collect(C.Check(chk.prop, chk.tier), grp).items():
        name = f'{", ".join(w[0] for w in who)[:200]}: day angle, months part {part + 1} of {parts}'
        k0, k1 = (1800 - 1970)*12, (2262 - 1970)*12
        e = np.linspace(k0, k1, parts + 1).astype(int)
        r = Cells(ang).run(int(e[part]), int(e[part+1]))
        if r is None:
            chk.proved(name)
        else:
            chk.unproved(name, 'c17', {**who[0][1], 'pts': [r[2]] if r[2] is not None else [first(int(r[0]))]}, f'month {np.datetime64(int(r[0]), "M")}: {r[1:]}')


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = ['every second from 1800-01-01 to 2261-12-31 (case split over the 5544 civil months), both engines, all use cases']
    chk.assumptions = ['numpy conversions between seconds, days, months and years are the proleptic Gregorian calendar',
                       'the series themselves: Iqbal (1983) for declination, the refit documented in the package for the others']
    js = []
    parts = 8
    units = ('s', 'ns')
    grp = [(uc, e, ref, u) for e in ('numpy', 'numexpr') for uc in C.USECASES for ref in ((True, False) if th else (False,)) for u in units]
    for p in range(parts):
        js.append((job, (grp, p, parts), ('c17', dict(uc='sites', eng='numpy', ref=False, unit='s'))))
    chk.run_jobs(js)
