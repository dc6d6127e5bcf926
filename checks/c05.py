"""C05: finite values in the documented ranges.

Declination, eccentricity factor and equation of time are enclosed over cells of time bisected to seconds
where they wrap.  In the position every sub-term of time alone is replaced by its enclosure, and the node the
whole position depends on is enclosed for every latitude and longitude; the position is then enclosed as a
function of that node.  A partial function must have its argument inside the domain with a margin for
rounding, or exactly at its end through a clip or a round; z3 proves that combinations of sines and cosines
do not exceed one, and decides the ranges."""
import numpy as np

from symx import smt, terms as T, tm
from . import common as C, sun as S
from .c06 import chain, leads, encode
from .c09 import detan

MARGIN = 1e-9
RANGE = dict(zenith=(-.05, 180.05), elevation=(-90.05, 90.05), azimuth=(-180 - 1e-6, 180 + 1e-6),
             declination=(-23.6, 23.6), eot=(-20, 20), ecf=(.96, 1.04))


def plain(y):
    """the term without the roundings to single precision of its factors and how far these take it"""
    memo, count = {}, {}
    for n in T.topo([y]):
        a = [memo[x.id] for x in n.args]
        k = sum(count[x.id] for x in n.args)
        if n.op in ('sin', 'cos', 'tan', 'const', 'var'):
            memo[n.id], count[n.id] = n, 0
        elif n.op == 'f32':
            memo[n.id], count[n.id] = a[0], k + (1 if n.args[0].op in ('sin', 'cos') else np.inf)
        else:
            memo[n.id] = n if all(x is z for x, z in zip(a, n.args)) else T.rebuild(n, a)
            count[n.id] = k if n.op in ('add', 'sub', 'neg', 'mul') or not k else np.inf
    return memo[y.id], 1e-7*count[y.id]


def unit(y, memo={}):
    """z3: a combination of sines and cosines of free angles never exceeds one"""
    import z3
    if y.id not in memo:
        ls = leads([y])
        names = {n.id: f'u{i}' for i, n in enumerate(ls)}
        memo[y.id] = False
        try:
            side = []
            e = encode(y, names, side)
            s = z3.Solver()
            for k in names.values():
                a, b = z3.Real('s' + k), z3.Real('c' + k)
                s.add(a*a + b*b == 1)
            s.add(*side, z3.Or(e > 1, e < -1))
            memo[y.id] = bool(ls) and smt.STATS.check(s, 20) == 'unsat'
        except T.Unsupported:
            pass
    return memo[y.id]


def hull(v, n):
    u = np.asarray(v.und) | np.zeros(n, bool)
    l, h = np.where(u, -np.inf, v.lo()), np.where(u, np.inf, v.hi())
    return float(l.min()), float(h.max())


def fringe(roots):
    """largest sub-terms of time alone"""
    out, seen, st = {}, set(), list(roots)
    while st:
        n = st.pop()
        if n.id in seen or n.op == 'const':
            continue
        seen.add(n.id)
        if {v.val for v in T.variables([n])} <= {'t0'} and n.typ != 'B':
            out[n.id] = n
        else:
            st += n.args
    return list(out.values())


class Ranges:
    """enclosures of every node of the roots over all instants and places"""

    def __init__(s, roots, lo, hi):
        fr = fringe(roots)
        e = tm.enclose(fr, {**S.BOX, 't0': (lo, hi)}, 't0', lean=True) if fr else {}
        s.over = {}
        for n in fr:
            l, h = hull(e[n.id], len(lo))
            if np.isfinite(l) and np.isfinite(h):
                s.over[n.id] = tm.ival(np.array([l]), np.array([h]))
        tp = T.topo(roots)
        # arguments of domains, seen through clips and rounding
        for n in tp:
            if n.op in ('acos', 'asin', 'sqrt', 'roundd', 'min', 'max'):
                for a in n.args:
                    if a.typ == 'R' and a.op in ('add', 'sub', 'mul') and a.id not in s.over:
                        p, m = plain(a)
                        if np.isfinite(m) and unit(p):
                            s.over[a.id] = tm.ival(np.array([-1 - MARGIN - m]), np.array([1 + MARGIN + m]))
        one = np.zeros(1)
        s.box = {**S.BOX, 't0': (one + lo.min(), one + hi.max())}
        s.box = {k: (one + a, one + b) for k, (a, b) in s.box.items()}
        for n in tp:
            # the tangent of a double is finite
            if n.op == 'tan' and n.id not in s.over:
                e = tm.enclose([n], s.box, None, over=s.over)
                if np.any(e[n.id].und) and not np.any(e[n.args[0].id].und):
                    s.over[n.id] = tm.ival(np.array([-1e20]), np.array([1e20]))
        s.e = tm.enclose(tp, s.box, None, over=s.over)

    def of(s, n):
        return hull(s.e[n.id], 1)




def position(root, R, a, b, W=None):
    """(in range, lowest, highest, airless zenith angles where undecided); W: the airless zenith"""
    l, h = R.of(root)
    best = S.verdict([l], [h], a, b), l, h, []
    if best[0]:
        return best
    d = T.var('d', 'R')
    for n in chain(root)[:-1]:
        l, h = R.of(n)
        if not (np.isfinite(l) and np.isfinite(h)) or h - l > 1e4:
            continue
        f = detan(T.substitute([root], {n: d})[0])
        c = np.linspace(l, h, 2001)
        lo, hi, low, high = c[:-1], c[1:], np.inf, -np.inf
        for k in range(60):
            v = tm.enclose([f], {'d': (lo, hi)}, 'd', over={m.id: R.over[m.id] for m in T.topo([f]) if m.id in R.over})[f.id]
            z = np.zeros(len(lo))
            und = np.asarray(v.und) | np.zeros(len(lo), bool)
            x, y = np.where(und, -np.inf, v.lo() + z), np.where(und, np.inf, v.hi() + z)
            bad = ~((x >= a) & (y <= b))
            if not bad.all():
                low, high = min(low, x[~bad].min()), max(high, y[~bad].max())
            if not bad.any() or bad.sum() > 3000 or k == 59 or np.any((x > b) | (y < a)):
                break
            m = .5*(lo[bad] + hi[bad])
            lo, hi = np.concatenate([lo[bad], m]), np.concatenate([m, hi[bad]])
        if not bad.any() and S.verdict([low], [high], a, b):
            return True, low, high, []
        zs = []
        w = T.substitute([W], {n: d})[0] if W is not None else d
        if W is not None and {v.val for v in T.variables([w])} == {'d'}:
            p = (lo + hi)[bad]/2
            p = p[:: max(1, len(p)//40)][:40]
            with np.errstate(all='ignore'):
                zs = [float(q) for q in np.asarray(T.evaluate([w], {'d': p})[0], float) + 0*p if np.isfinite(q)]
        best = False, x[bad].min() if bad.any() else low, y[bad].max() if bad.any() else high, zs or best[3]
    return best


def job(chk, alg, eng):
    lo, hi = S.days('1950-01-01', '2100-01-01')
    memo, valid = {}, []
    for uc in C.USECASES:
        for ref in (False, True):
            name = f'{uc} {alg}/{eng} refraction={ref}'
            params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
            chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere.usecases.'+uc, 'sunwhere._base.Sunpos.elevation'}
            try:
                x = S.request(uc, alg, eng, ref)
                ks = ('declination', 'eot', 'ecf')
                v = S.tidy([S.node(getattr(x, k)) for k in ks], lo, hi)
                key = tuple(n.id for n in v)
                if key not in memo:
                    memo[key] = S.decide({k: (n, *RANGE[k]) for k, n in zip(ks, v)}, lo, hi)
                res = dict(memo[key])
                ks = ('zenith', 'elevation', 'azimuth')
                v = [S.node(getattr(x, k)) for k in ks]
                key = tuple(n.id for n in v)
                if key not in memo:
                    R = Ranges(v, lo, hi)
                    W = S.node(S.request(uc, alg, eng, False).zenith)
                    out = {}
                    for k, n in zip(ks, v):
                        ok, l, h, zs = position(n, R, *RANGE[k], W if k != 'azimuth' else None)
                        out[k] = ok, zs, l, h
                    memo[key] = out
                res.update(memo[key])
                valid += [(uc, alg, eng, ref, x, (1, 1, 1))]
            except Exception as e:
                chk.unproved(name, 'c05', params, f'{type(e).__name__}: {e}'[:400])
                continue
            for k, (ok, ts, a, b) in res.items():
                if ok:
                    chk.proved(f'{name}: {k}', f'enclosed in [{a:.6g}, {b:.6g}]')
                else:
                    chk.unproved(f'{name}: {k}', 'c05', {**params, 'zs' if k in ('zenith', 'elevation') else 'ts': ts}, f'[{a:.6g}, {b:.6g}] {ts[:4]}')
    C.validate(chk, valid, 4)


def main(chk):
    chk.bounds = ['every second of 1950-2100; every latitude of [-90, 90] and longitude of [-180, 180], every use case and refraction setting']
    chk.assumptions = [f'real arithmetic with a margin of {MARGIN} at the ends of the domains of inverse functions; clips and rounding are exact',
                       'the tangent of a double is finite']
    chk.run_jobs([(job, (a, e), ('c05', dict(uc='transect', alg=a, eng=e, ref=True))) for a, e in C.IMPL[::-1]])
