"""The sun's position as the code computes it, in the terms C05, C07, C08 and C20 are stated in.

The pipeline is executed on one symbolic instant and place.  The hour angle of the sun is its azimuth at
the pole, where azimuth and hour angle coincide (C06 relates the other latitudes).  Quantities are brought
to trigonometric and linear normal form and enclosed by Taylor models over cells of time covering the
stated period; cells that do not decide are bisected down to single seconds.  z3 gives the verdict from
the enclosures."""
import numpy as np

from symx import smt, terms as T, tm
from symx.lin import Tidy
from symx.trig import Norm
from . import common as C

RAD = np.pi/180
A0, O0, TT = T.var('a0', 'R'), T.var('o0', 'R'), T.var('t0', 'I')


def days(d0, d1):
    d = np.arange(int(np.datetime64(d0, 'D').astype('i8')), int(np.datetime64(d1, 'D').astype('i8')))
    return d*86400., d*86400. + 86399


BOX = dict(a0=(-90, 90), o0=(-180, 180), e=(-1, 1))


def timely(n):
    return any(v.val not in ('a0', 'o0') for v in T.variables([n]))


def tidy(roots, lo, hi):
    """linear normal form of the calendar arithmetic (wraps that fit dropped)"""
    roots = whole(roots)
    w = [n.args[0] for n in T.topo(roots) if n.op == 'wrap']
    enc = tm.enclose(w, {**BOX, 't0': (lo, hi)}, 't0', lean=True) if w else {}
    return Tidy(enc)(roots)


def whole(roots):
    """floor(x/m) next to x mod m is (x - x mod m)/m"""
    mods = {(n.args[0].id, float(n.args[1].val)): n for n in T.topo(roots) if n.op == 'mod' and n.typ == 'R' and n.args[1].op == 'const'}
    if not mods:
        return roots
    memo = {}
    for n in T.topo(roots):
        a = [memo[x.id] for x in n.args]
        r = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if n.op == 'toreal' and n.args[0].op == 'ifloor':
            x = n.args[0].args[0]
            if x.op in ('div', 'mul'):
                for y, k in (x.args, x.args[::-1]):
                    if k.op == 'const' and k.val > 0:
                        k = float(k.val) if x.op == 'div' else 1/float(k.val)
                        m = next((q for (i, v), q in mods.items() if i == y.id and abs(v/k - 1) < 1e-15), None)
                        if m is not None and (x.op == 'mul' or y is x.args[0]):
                            r = T.div(T.sub(memo[y.id], memo[m.id] if m.id in memo else m), T.const(k))
                            break
        memo[n.id] = r
    return [memo[n.id] for n in roots]


def untrunc(root):
    """an integer part is its argument plus something of [-1, 1] (in its unit); values are numbers (C05)"""
    memo = {}
    for n in T.topo([root]):
        a = [memo[x.id] for x in n.args]
        if n.op == 'ite' and n.args[0].op == 'isnan' and n.typ == 'I':
            memo[n.id] = a[2]
        elif n.op == 'toreal' and a[0].op in ('itrunc', 'ifloor', 'iceil', 'irint'):
            memo[n.id] = T.add(a[0].args[0], T.var('e', 'R'))
        else:
            memo[n.id] = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


def request(uc, alg, eng, ref):
    return C.single(C.request(uc, alg, eng, ref, bnds=C.bounds(1, 1, 1)))


def node(x):
    return C.nodes(x).reshape(-1)[0]


class Angles:
    """normal forms"""

    def __init__(self):
        self.pole = Norm(False, {A0: T.const(90.), O0: T.const(0.)}, timely)
        self.full = Norm(keep=timely)
        self.canon = Norm(False, keep=timely, canonical=True)
        self.fold = Norm(False, keep=timely)
        self.lon = Norm(False, {A0: T.const(90.)}, timely)

    def sc(self, u):
        """sine and cosine of an angle in radians, in normal form"""
        s, c = [self.full(self.fold(T.fn(f, u))) for f in ('sin', 'cos')]
        return Tidy()([s, c])


def flat(root, lo, hi):
    """atan2(0, x) = 0 for x that is positive at every instant"""
    x = [n.args[1] for n in T.topo([root]) if n.op == 'atan2' and n.args[0].op == 'const' and n.args[0].val == 0]
    if not x:
        return root
    e = tm.enclose(x, {**BOX, 't0': (lo, hi)}, 't0', lean=True)
    pos = {n.id for n in x if np.all(e[n.id].lo() > 0) and not np.any(e[n.id].und)}
    memo = {}
    for n in T.topo([root]):
        a = [memo[y.id] for y in n.args]
        if n.op == 'atan2' and n.args[1].id in pos and n.args[0].op == 'const' and n.args[0].val == 0:
            memo[n.id] = T.const(0.)
        else:
            memo[n.id] = n if all(p is q for p, q in zip(a, n.args)) else T.rebuild(n, a)
    return memo[root.id]


def verdict(lo, hi, a, b):
    import z3
    l, h = float(np.min(lo)), float(np.max(hi))
    if not (np.isfinite(l) and np.isfinite(h)):
        return False
    v = z3.Real('v')
    s = z3.Solver()
    s.add(v >= z3.RealVal(repr(l)), v <= z3.RealVal(repr(h)), z3.Or(v < z3.RealVal(repr(float(a))), v > z3.RealVal(repr(float(b)))))
    return smt.STATS.check(s, 10) == 'unsat'


def cases(root, box, a, b, over=None, depth=8):
    """an instant at which rounding leaves a turn or a condition open: every way to close it"""
    over = dict(over or {})
    tp = T.topo([root])
    e = tm.enclose(tp, box, 't0', over=over)
    v = e[root.id]
    l, h = float(np.max(v.lo())), float(np.min(v.hi()))
    if not np.any(v.und) and a <= l and h <= b:
        return l, h
    if not depth:
        return None
    for n in tp:
        if n.id in over or n.op == 'const':
            continue
        v, parts = e[n.id], []
        if isinstance(v, tm.B):
            if np.any(v.t) and np.any(v.f):
                t = np.ones(1, bool)
                parts = [tm.B(t, ~t), tm.B(~t, t)]
        elif n.op == 'mod' and n.args[1].op == 'const':
            x, m = e[n.args[0].id], abs(n.args[1].val)
            xl, xh = float(np.max(x.lo())), float(np.min(x.hi()))
            k = np.floor(xh/m)
            if np.floor(xl/m) == k - 1 and n.args[1].val > 0 and not np.any(x.und):
                parts = [tm.ival(np.array([xl - (k - 1)*m - 1e-9]), np.array([m])), tm.ival(np.zeros(1), np.array([xh - k*m + 1e-9]))]
        elif n.op in ('ifloor', 'iceil', 'itrunc', 'irint'):
            xl, xh = float(np.max(v.lo())), float(np.min(v.hi()))
            if not np.any(v.und) and round(xh) == round(xl) + 1:
                parts = [tm.ival(np.array([k]), np.array([k])) for k in (float(round(xl)), float(round(xh)))]
        if parts:
            out = []
            for p in parts:
                r = cases(root, box, a, b, {**over, n.id: p}, depth - 1)
                if r is None:
                    return None
                out.append(r)
            return min(o[0] for o in out), max(o[1] for o in out)
    return None


def decide(goals, lo, hi, box=None, limit=3000, over=None):
    """goals: {name: (term, a, b)}; every value over the cells of t0 in [a, b], never undefined.
    {name: (proved, [instants in undecided cells], lowest, highest)}"""
    box = {**BOX, **(box or {})}
    out = {}
    todo = {k: (lo, hi) for k in goals}
    enc = {k: [np.inf, -np.inf] for k in goals}
    first = True
    while todo:
        for grp in ([list(todo)] if first else [[k] for k in list(todo)]):
            l, h = todo[grp[0]]
            e = tm.enclose([goals[k][0] for k in grp], {**box, 't0': (l, h)}, 't0', over=over if first else None, lean=True)
            for k in grp:
                n, a, b = goals[k]
                v = e[n.id]
                z = np.zeros(len(l))
                und = np.asarray(v.und) | np.zeros(len(l), bool)
                x, y = np.where(und, -np.inf, v.lo() + z), np.where(und, np.inf, v.hi() + z)
                bad = ~((x >= a) & (y <= b))
                good = ~bad
                if good.any():
                    enc[k] = [min(enc[k][0], float(x[good].min())), max(enc[k][1], float(y[good].max()))]
                if not bad.any():
                    del todo[k]
                    out[k] = (verdict([enc[k][0]], [enc[k][1]], a, b), [], *enc[k])
                    continue
                one = bad & (h <= l)
                if 0 < one.sum() <= 60:
                    for i in np.flatnonzero(one):
                        t = np.array([l[i]])
                        r = cases(n, {**box, 't0': (t, t)}, a, b, over)
                        if r:
                            bad[i] = False
                            enc[k] = [min(enc[k][0], r[0]), max(enc[k][1], r[1])]
                    if not bad.any():
                        del todo[k]
                        out[k] = (verdict([enc[k][0]], [enc[k][1]], a, b), [], *enc[k])
                        continue
                bl, bh = l[bad], h[bad]
                definite = np.any((bh <= bl) | (x[bad] > b) | (y[bad] < a)) or bad.sum() > limit
                if definite:
                    pick = np.argsort(~((x[bad] > b) | (y[bad] < a)), kind='stable')[:: max(1, bad.sum()//24)][:24]
                    out[k] = (False, [int(q) for q in (bl + bh)[pick]//2], float(x[bad].min()), float(y[bad].max()))
                    del todo[k]
                    continue
                m = np.floor((bl + bh)/2)
                todo[k] = (np.concatenate([bl, m + 1]), np.concatenate([m, bh]))
        first = False
    return out
