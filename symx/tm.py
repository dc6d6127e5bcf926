"""Rigorous enclosures of DAG nodes over boxes, vectorised over many cells.

Every value is a second order Taylor model in one scaled variable tau in [-1, 1]
(c0 + c1 tau + c2 tau^2 +- r); all other variables are intervals.  The enclosures are the
lemmas handed to z3 in the range and accuracy queries (incremental linearisation): they are
sound over the reals, with the rounding of the enclosure arithmetic itself added to r.
"""
import math

import numpy as np

from . import terms as T

EPS = 4e-16
INF = np.inf
PI = math.pi


class V:
    __slots__ = ('c0', 'c1', 'c2', 'r', 'und', 'il', 'ih')

    def __init__(s, c0, c1=0., c2=0., r=0., und=False, il=-INF, ih=INF):
        s.c0, s.c1, s.c2, s.r, s.und = c0, c1, c2, r, und
        s.il, s.ih = il, ih       # an independent interval enclosure

    def spread(s):
        return np.abs(s.c1) + np.abs(s.c2) + s.r

    def lo(s):
        return np.maximum(s.c0 - np.abs(s.c1) + np.minimum(0., s.c2) - s.r, s.il)

    def hi(s):
        return np.minimum(s.c0 + np.abs(s.c1) + np.maximum(0., s.c2) + s.r, s.ih)

    def mag(s):
        return np.abs(s.c0) + s.spread()


class B:
    """three-valued truth: t = can be true, f = can be false"""
    __slots__ = ('t', 'f')

    def __init__(s, t, f):
        s.t, s.f = t, f


def ival(lo, hi, und=False):
    lo, hi = np.broadcast_arrays(np.asarray(lo, float), np.asarray(hi, float))
    fin = np.isfinite(lo) & np.isfinite(hi)
    c = np.where(fin, .5*(np.where(fin, lo, 0)+np.where(fin, hi, 0)), 0.)
    r = np.where(fin, .5*(np.where(fin, hi, 0)-np.where(fin, lo, 0)), INF)
    return V(c, 0., 0., r*(1+EPS) + EPS*np.abs(c), und, np.where(fin, lo, -INF), np.where(fin, hi, INF))


def _fix(v):
    bad = ~(np.isfinite(v.c0) & np.isfinite(v.c1) & np.isfinite(v.c2)) | np.isnan(v.r)
    if np.any(bad):
        v.c0, v.c1, v.c2, v.r = (np.where(bad, 0., v.c0), np.where(bad, 0., v.c1),
                                 np.where(bad, 0., v.c2), np.where(bad, INF, v.r))
    return v


def add(a, b, s=1.):
    c0, c1, c2 = a.c0 + s*b.c0, a.c1 + s*b.c1, a.c2 + s*b.c2
    if s == 1.:
        lo, hi = a.lo() + b.lo(), a.hi() + b.hi()
    else:
        lo, hi = a.lo() - b.hi(), a.hi() - b.lo()
    e = EPS*(np.abs(lo) + np.abs(hi))
    return V(c0, c1, c2, a.r + b.r + EPS*(np.abs(c0) + np.abs(c1) + np.abs(c2) + np.abs(a.c0)), a.und | b.und,
             lo - e, hi + e)


def neg(a):
    return V(-a.c0, -a.c1, -a.c2, a.r, a.und, -a.ih*1., -a.il*1.)


def mul(a, b):
    c0 = a.c0*b.c0
    c1 = a.c0*b.c1 + a.c1*b.c0
    c2 = a.c0*b.c2 + a.c1*b.c1 + a.c2*b.c0
    A = np.abs(a.c0) + np.abs(a.c1) + np.abs(a.c2)
    Bm = np.abs(b.c0) + np.abs(b.c1) + np.abs(b.c2)
    r = (np.abs(a.c1*b.c2 + a.c2*b.c1) + np.abs(a.c2*b.c2) + a.r*Bm + b.r*A + a.r*b.r + 2*EPS*A*Bm)
    v = _fix(V(c0, c1, c2, r, a.und | b.und))
    return tight(v, lambda: _imul(a, b))


def _imul(a, b):
    p = [a.lo()*b.lo(), a.lo()*b.hi(), a.hi()*b.lo(), a.hi()*b.hi()]
    p = [np.where(np.isnan(x), 0., x) for x in p]
    return np.minimum.reduce(p), np.maximum.reduce(p)


def sqr(a):
    v = mul(a, a)
    lo, hi = a.lo(), a.hi()
    m = np.maximum(np.abs(lo), np.abs(hi))
    n = np.where((lo <= 0) & (hi >= 0), 0., np.minimum(np.abs(lo), np.abs(hi)))
    return tight(v, lambda: (n*n, m*m))


def tight(v, fallback):
    """add the plain interval enclosure; it also replaces Taylor models with a larger remainder"""
    lo, hi = fallback()
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    e = 8*EPS*(np.abs(lo) + np.abs(hi))
    e = np.where(np.isfinite(e), e, 0.)
    lo, hi = np.where(np.isnan(lo), -INF, lo - e), np.where(np.isnan(hi), INF, hi + e)
    v.il, v.ih = np.maximum(v.il, lo), np.minimum(v.ih, hi)
    with np.errstate(invalid='ignore'):
        w = .5*(hi - lo)
        use = w <= v.r
    if np.any(use):
        i = ival(lo, hi)
        v.c0, v.c1, v.c2, v.r = (np.where(use, i.c0, v.c0), np.where(use, 0., v.c1), np.where(use, 0., v.c2),
                                 np.where(use, i.r, v.r))
    return v


def compose(a, f0, f1, f2, f3max, fallback, err=EPS*4, und=False):
    """f(a) for smooth f given its Taylor coefficients at a.c0 and a bound of |f'''|"""
    D = a.spread()
    c1, c2 = a.c1, a.c2
    k = .5*f2
    n0, n1, n2 = f0, f1*c1, f1*c2 + k*c1*c1
    dp = np.abs(c1) + np.abs(c2)
    r = (np.abs(f1)*a.r + np.abs(k)*(np.abs(2*c1*c2) + c2*c2 + 2*dp*a.r + a.r*a.r)
         + f3max*D**3/6 + err*(np.abs(f0) + np.abs(f1)*(D + np.abs(a.c0)) + np.abs(f2)*D*D))
    v = _fix(V(n0, n1, n2, r, a.und | und))
    return tight(v, fallback)


def _isin(lo, hi):
    lo, hi = lo - 1e-14*(1+np.abs(lo)), hi + 1e-14*(1+np.abs(hi))
    w = hi - lo
    wide = ~(w < 2*PI)
    lo_, hi_ = np.where(wide, 0., lo), np.where(wide, 0., hi)
    a, b = np.sin(lo_), np.sin(hi_)
    kmax = np.floor((hi_ - PI/2)/(2*PI))*2*PI + PI/2 >= lo_
    kmin = np.floor((hi_ + PI/2)/(2*PI))*2*PI - PI/2 >= lo_
    mx = np.where(kmax | wide, 1., np.maximum(a, b))
    mn = np.where(kmin | wide, -1., np.minimum(a, b))
    return np.maximum(mn - 1e-15, -1), np.minimum(mx + 1e-15, 1)


def fsin(a):
    s, c = np.sin(a.c0), np.cos(a.c0)
    return compose(a, s, c, -s, 1., lambda: _isin(a.lo(), a.hi()))


def fcos(a):
    s, c = np.sin(a.c0), np.cos(a.c0)
    return compose(a, c, -s, -c, 1., lambda: _isin(a.lo() + PI/2, a.hi() + PI/2))


def recip(a):
    lo, hi = a.lo(), a.hi()
    ok = (lo > 0) | (hi < 0)
    m = np.where(ok, np.minimum(np.abs(lo), np.abs(hi)), 1.)
    c = np.where(ok, a.c0, 1.)
    i = 1/c
    f3 = np.where(ok, 6/m**4, INF)
    v = compose(a, i, -i*i, 2*i*i*i, f3,
                lambda: (np.where(ok, np.minimum(1/np.where(ok, lo, 1), 1/np.where(ok, hi, 1)), -INF),
                         np.where(ok, np.maximum(1/np.where(ok, lo, 1), 1/np.where(ok, hi, 1)), INF)), und=~ok)
    return _fix(v)


def fsqrt(a):
    lo, hi = a.lo(), a.hi()
    ok = lo > 0
    m = np.where(ok, lo, 1.)
    c = np.where(ok, a.c0, 1.)
    s = np.sqrt(c)
    f3 = np.where(ok, .375*m**-2.5, INF)
    return compose(a, s, .5/s, -.25/(s*c), f3,
                   lambda: (np.sqrt(np.maximum(lo, 0)), np.sqrt(np.maximum(hi, 0))), und=lo < 0)


def fexp(a):
    e = np.exp(a.c0)
    return compose(a, e, e, e, np.exp(a.hi()), lambda: (np.exp(a.lo()), np.exp(a.hi())))


def flog(a):
    lo, hi = a.lo(), a.hi()
    ok = lo > 0
    m = np.where(ok, lo, 1.)
    c = np.where(ok, a.c0, 1.)
    return compose(a, np.log(c), 1/c, -1/(c*c), np.where(ok, 2/m**3, INF),
                   lambda: (np.log(np.maximum(lo, 1e-320)) if np.all(lo > 0) else
                            np.where(lo > 0, np.log(np.maximum(lo, 1e-320)), -INF), np.log(np.maximum(hi, 1e-320))),
                   und=~ok)


def fatan(a):
    c = a.c0
    q = 1/(1+c*c)
    return compose(a, np.arctan(c), q, -2*c*q*q, 2., lambda: (np.arctan(a.lo()), np.arctan(a.hi())))


def fasin(a):
    lo, hi = a.lo(), a.hi()
    m = np.maximum(np.abs(lo), np.abs(hi))
    ok = m < .999999
    c = np.where(ok, a.c0, 0.)
    mm = np.where(ok, m, 0.)
    w = 1 - c*c
    f3 = np.where(ok, (1+2*mm*mm)*(1-mm*mm)**-2.5, INF)
    return compose(a, np.arcsin(c), w**-.5, c*w**-1.5, f3,
                   lambda: (np.arcsin(np.clip(lo, -1, 1)), np.arcsin(np.clip(hi, -1, 1))), und=m > 1)


def facos(a):
    v = neg(fasin(a))
    v.c0 = v.c0 + PI/2
    v.r = v.r + 1e-15
    v.il, v.ih = v.il + PI/2 - 1e-15, v.ih + PI/2 + 1e-15
    return v


def ftan(a):
    lo, hi = a.lo(), a.hi()
    ok = (hi - lo < PI) & (np.floor(lo/PI + .5) == np.floor(hi/PI + .5))
    c = np.where(ok, a.c0, 0.)
    t = np.tan(c)
    s2 = 1 + t*t
    tl, th = np.tan(np.where(ok, lo, 0)), np.tan(np.where(ok, hi, 0))
    tm = np.maximum(np.abs(tl), np.abs(th))
    f3 = np.where(ok, 2*(1+tm*tm)*(1+3*tm*tm), INF)
    return _fix(compose(a, t, s2, 2*t*s2, f3, lambda: (np.where(ok, tl, -INF), np.where(ok, th, INF))))


def fatan2(y, x):
    """atan2 where the box avoids the cut (x < 0, y = 0); elsewhere [-pi, pi]"""
    h = np.hypot(y.c0, x.c0)
    h = np.where(h > 0, h, 1.)
    cy, cx = y.c0/h, x.c0/h
    n = add(mul(V(cx), y), mul(V(cy), x), -1.)
    d = add(mul(V(cx), x), mul(V(cy), y))
    dlo = d.lo()
    ok = dlo > 0
    dd = V(np.where(ok, d.c0, 1.), np.where(ok, d.c1, 0.), np.where(ok, d.c2, 0.), np.where(ok, d.r, 0.), d.und)
    ang = fatan(mul(n, recip(dd)))
    a0 = np.arctan2(y.c0, x.c0)
    v = V(ang.c0 + a0, ang.c1, ang.c2, ang.r + 1e-15, y.und | x.und)
    cross = (v.lo() < -PI) | (v.hi() > PI)
    # where the box stays on one side of the x axis the cut is not crossed
    oneside = (y.lo() >= 0) | (y.hi() < 0)
    lo = np.where(ok & ~cross, -INF, np.where(y.lo() >= 0, 0., -PI))
    hi = np.where(ok & ~cross, INF, np.where(y.hi() < 0, 0., PI))
    use = ~ok | (cross & ~oneside) | cross
    i = ival(np.where(use, lo, 0), np.where(use, hi, 0))
    return V(np.where(use, i.c0, v.c0), np.where(use, 0., v.c1), np.where(use, 0., v.c2),
             np.where(use, i.r + 1e-15, v.r), v.und)


def fpow(a, b):
    # a**b = exp(b log a)
    with np.errstate(all='ignore'):
        p = float(np.max(b.c0)) if np.ndim(b.c1) == 0 and b.c1 == 0 and np.ptp(b.c0) == 0 else None
        if p is not None and p == int(p) and 1 <= p <= 64 and np.any(a.lo() <= 0):
            k, r, b2 = int(p), None, a
            while k:
                if k & 1:
                    r = b2 if r is None else mul(r, b2)
                k >>= 1
                if k:
                    b2 = mul(b2, b2)
            return r
        if p is None or not np.any(a.lo() <= 0):
            return fexp(mul(b, flog(a)))
        # constant exponent, some cells touch zero
        lo, hi = a.lo(), a.hi()
        ok = lo > 0
        safe = V(np.where(ok, a.c0, 1.), np.where(ok, a.c1, 0.), np.where(ok, a.c2, 0.), np.where(ok, a.r, 0.), a.und,
                 np.where(ok, a.il, 1.), np.where(ok, a.ih, 1.))
        v = fexp(mul(b, flog(safe)))
        l, h = np.maximum(lo, 0.)**p, np.maximum(hi, 0.)**p
        l, h = np.minimum(l, h), np.maximum(l, h)
        i = ival(l*(1 - 1e-14), h*(1 + 1e-14))
        w = lambda x, y: np.where(ok, x, y)
        return V(w(v.c0, i.c0), w(v.c1, 0.), w(v.c2, 0.), w(v.r, i.r), np.asarray(v.und) | (lo < 0),
                 w(v.il, l*(1 - 1e-14)), w(v.ih, h*(1 + 1e-14)))


def fabs_(a):
    lo, hi = a.lo(), a.hi()
    p, n = lo >= 0, hi <= 0
    m = np.maximum(np.abs(lo), np.abs(hi))
    mx = ~(p | n)
    s = np.where(p, 1., -1.)
    n = np.where(mx, 0., np.minimum(np.abs(lo), np.abs(hi)))
    return V(np.where(mx, m/2, s*a.c0), np.where(mx, 0, s*a.c1), np.where(mx, 0, s*a.c2), np.where(mx, m/2, a.r), a.und, n, m)


def sel(c, a, b):
    """ite under three-valued c"""
    both = c.t & c.f
    def pick(x, y):
        return np.where(both, .5*(x+y), np.where(c.t, x, y))
    c0, c1, c2 = pick(a.c0, b.c0), pick(a.c1, b.c1), pick(a.c2, b.c2)
    d = .5*(np.abs(a.c0-b.c0) + np.abs(a.c1-b.c1) + np.abs(a.c2-b.c2))
    r = np.where(both, np.maximum(a.r, b.r) + d, np.where(c.t, a.r, b.r))
    u = np.where(both, np.asarray(a.und) | np.asarray(b.und), np.where(c.t, a.und, b.und))
    v = V(c0, c1, c2, r*(1+EPS), u)
    if not np.any(both):
        return v
    al, bl, ah, bh = a.lo(), b.lo(), a.hi(), b.hi()
    return tight(v, lambda: (np.where(both, np.minimum(al, bl), np.where(c.t, al, bl)),
                             np.where(both, np.maximum(ah, bh), np.where(c.t, ah, bh))))


def implied(c, truth):
    """[(term, 1 for at least or -1 for at most, number)] that hold, or the term is NaN, where the condition has that truth"""
    if c.op == 'not':
        return implied(c.args[0], not truth)
    if c.op in ('and', 'or'):
        if (c.op == 'and') == truth:
            return [l for x in c.args for l in implied(x, truth)]
        # one of the parts: "or it is NaN" adds nothing
        nan, rest = [], []
        for x in c.args:
            y, t = (x.args[0], not truth) if x.op == 'not' else (x, truth)
            (nan if y.op == 'isnan' and t else rest).append(y.args[0] if y.op == 'isnan' and t else x)
        return [l for l in implied(rest[0], truth) if all(x is l[0] for x in nan)] if len(rest) == 1 else []
    if c.op in ('lt', 'le'):
        x, y = c.args
        if y.op == 'const' and x.op != 'const':
            return [(x, -1 if truth else 1, y.val)]
        if x.op == 'const' and y.op != 'const':
            return [(y, 1 if truth else -1, x.val)]
    return []


def narrow(b, c, truth, x, v):
    """the branch of a choice that is itself what the condition bounds"""
    for y, s, k in implied(c, truth):
        if y is x and k == k:
            k, both, lo, hi = float(k), b.t & b.f, v.lo(), v.hi()
            n = V(v.c0, v.c1, v.c2, v.r, v.und, v.il, v.ih)
            at = np.clip(k, lo, hi)
            v = tight(n, lambda: (np.where(both & (s > 0), at, lo), np.where(both & (s < 0), at, hi)))
    return v


def _floor_like(a, f, integral=False):
    # a margin keeps reals that are integers up to rounding from being split
    lo, hi = f(a.lo()), f(a.hi())
    return ival(lo, hi, a.und)


def fmod_(a, m):
    """a mod m for a positive constant m (exact multiples are attributed by the enclosure)"""
    k0, k1 = np.floor(a.lo()/m), np.floor(a.hi()/m)
    same = k0 == k1
    v = add(a, V(np.where(same, k0, 0.)*m), -1.)
    return V(np.where(same, v.c0, m/2), np.where(same, v.c1, 0.), np.where(same, v.c2, 0.),
             np.where(same, v.r, m/2), v.und)


def _days(x, u, v):
    x = np.clip(np.floor(x), -10**7, 10**7).astype('i8')
    return x.view(f'M8[{u}]').astype(f'M8[{v}]').view('i8').astype(float)


def enclose(roots, box, tau=None, over=None, lean=False):
    """lean: only the roots are kept (memory).  box: variable name -> (lo, hi) arrays over the cells (or floats); tau: the name of the
    Taylor variable.  over: node id -> V overriding a node.  Returns {node id: V or B}."""
    out = {}
    over = over or {}
    tp = T.topo(roots)
    uses = {}
    if lean:
        for n in tp:
            for a in {a.id for a in n.args}:
                uses[a] = uses.get(a, 0) + 1
        for n in roots:
            uses[n.id] = uses.get(n.id, 0) + 1
    with np.errstate(all='ignore'):
        for n in tp:
            if n.id in over:
                out[n.id] = over[n.id]
            else:
                out[n.id] = _node(n, [out[a.id] for a in n.args], box, tau)
            if lean:
                for a in {a.id for a in n.args}:
                    uses[a] -= 1
                    if not uses[a]:
                        del out[a]
    return out


def _num(x):
    if isinstance(x, B):
        return ival(np.where(x.f, 0., 1.), np.where(x.t, 1., 0.))
    return x


def _integral(n):
    return all(x.typ == 'I' or x.op == 'toreal' and x.args[0].typ == 'I' or
               x.op == 'const' and x.typ == 'R' and float(x.val).is_integer() for x in n.args)


def _node(n, a, box, tau):
    op = n.op
    if op == 'const':
        if n.typ == 'B':
            return B(np.bool_(n.val), np.bool_(not n.val))
        v = float(n.val)
        if math.isnan(v):
            return V(0., und=np.bool_(True))
        if math.isinf(v):
            return V(0., r=INF, und=np.bool_(False))
        return V(np.float64(v), r=abs(v)*2e-16 if v != int(v) else 0., und=np.bool_(False))
    if op == 'var':
        lo, hi = box[n.val][:2]
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        if n.val == tau:
            return V(.5*(lo+hi), .5*(hi-lo), 0., EPS*np.maximum(np.abs(lo), np.abs(hi)), np.zeros(lo.shape, bool), lo, hi)
        return ival(lo, hi, np.zeros(lo.shape, bool))
    if op == 'add':
        return add(a[0], a[1])
    if op == 'sub':
        return add(a[0], a[1], -1.)
    if op == 'neg':
        return neg(a[0])
    if op == 'mul':
        if n.args[0] is n.args[1]:
            return sqr(a[0])
        return mul(a[0], a[1])
    if op == 'div':
        if n.args[1].op == 'const':
            return mul(a[0], V(1./float(n.args[1].val), r=abs(2e-16/float(n.args[1].val)), und=np.bool_(False)))
        return mul(a[0], recip(a[1]))
    if op == 'idiv':
        if n.args[1].op != 'const':
            raise T.Unsupported('idiv')
        m = float(n.args[1].val)
        lo, hi = np.ceil(a[0].lo() - 1e-5), np.floor(a[0].hi() + 1e-5)
        return ival(np.floor(lo/m), np.floor(hi/m)) if m > 0 else ival(np.floor(hi/m), np.floor(lo/m))
    if op == 'mod':
        if n.args[1].op != 'const' or n.args[1].val <= 0:
            raise T.Unsupported('mod')
        if n.typ == 'I':
            a0 = V(a[0].c0, a[0].c1, a[0].c2, np.maximum(0, a[0].r - 1e-7*(a[0].r < 1e-6)), a[0].und)
            m = float(n.args[1].val)
            lo, hi = np.ceil(a[0].lo() - 1e-5), np.floor(a[0].hi() + 1e-5)
            k0, k1 = np.floor(lo/m), np.floor(hi/m)
            same = k0 == k1
            v = add(a0, V(np.where(same, k0, 0.)*m), -1.)
            return V(np.where(same, v.c0, (m-1)/2), np.where(same, v.c1, 0.), np.where(same, v.c2, 0.),
                     np.where(same, v.r, (m-1)/2), v.und)
        return fmod_(a[0], float(n.args[1].val))
    if op == 'pow':
        return fpow(a[0], a[1])
    F = {'sin': fsin, 'cos': fcos, 'tan': ftan, 'asin': fasin, 'acos': facos, 'atan': fatan,
         'sqrt': fsqrt, 'exp': fexp, 'log': flog}.get(op)
    if F:
        return F(a[0])
    if op == 'atan2':
        return fatan2(a[0], a[1])
    if op == 'ite':
        return sel(a[0], narrow(a[0], n.args[0], True, n.args[1], _num(a[1])), narrow(a[0], n.args[0], False, n.args[2], _num(a[2])))
    if op in ('lt', 'le'):
        u = np.asarray(a[0].und) | np.asarray(a[1].und)
        if n.args[0] is n.args[1]:
            t = op == 'le'
            return B(np.bool_(t) | np.zeros_like(u), np.bool_(not t) | u)
        d = add(a[0], a[1], -1.)
        lo, hi = d.lo(), d.hi()
        if _integral(n):                   # integers: exact comparison of rounded bounds
            lo, hi = np.ceil(lo - 1e-5), np.floor(hi + 1e-5)
        if op == 'lt':
            return B(lo < 0, (hi >= 0) | u)
        return B(lo <= 0, (hi > 0) | u)
    if op == 'eq':
        if n.args[0].typ == 'B':
            p, q = a
            return B((p.t & q.t) | (p.f & q.f), (p.t & q.f) | (p.f & q.t))
        d = add(a[0], a[1], -1.)
        lo, hi = d.lo(), d.hi()
        if _integral(n):
            lo, hi = np.ceil(lo - 1e-5), np.floor(hi + 1e-5)
        return B((lo <= 0) & (hi >= 0), (lo < 0) | (hi > 0) | np.asarray(a[0].und) | np.asarray(a[1].und))
    if op == 'and':
        t, f = a[0].t, a[0].f
        for x in a[1:]:
            t, f = t & x.t, f | x.f
        return B(t, f)
    if op == 'or':
        t, f = a[0].t, a[0].f
        for x in a[1:]:
            t, f = t | x.t, f & x.f
        return B(t, f)
    if op == 'not':
        return B(a[0].f, a[0].t)
    if op == 'abs':
        return fabs_(a[0])
    if op in ('min', 'max'):
        d = add(a[0], a[1], -1.)
        c = B(d.lo() <= 0, d.hi() > 0)
        if op == 'max':
            c = B(d.hi() >= 0, d.lo() < 0)
        v = sel(c, a[0], a[1])
        u = np.asarray(a[0].und) | np.asarray(a[1].und)
        al, bl, ah, bh = a[0].lo(), a[1].lo(), a[0].hi(), a[1].hi()
        g = np.minimum if op == 'min' else np.maximum
        v = tight(v, lambda: (g(al, bl), g(ah, bh)))
        v.il, v.ih = np.maximum(v.il, g(al, bl)), np.minimum(v.ih, g(ah, bh))      # exact
        v.und = u
        return v
    if op == 'toreal':
        return _num(a[0])
    if op == 'f32':
        v = a[0]
        return V(v.c0, v.c1, v.c2, v.r + 6e-8*v.mag(), v.und,
                 v.il - 6e-8*np.abs(v.il), v.ih + 6e-8*np.abs(v.ih))
    if op == 'roundd':
        v = a[0]
        # rounding is monotone
        f = lambda x, e: np.where(np.isfinite(x), np.round(np.where(np.isfinite(x), x, 0.) + e, n.val), x)
        return V(v.c0, v.c1, v.c2, v.r + .5*10.**-n.val, v.und, f(v.lo(), -1e-13), f(v.hi(), 1e-13))
    if op == 'isnan':
        u = np.asarray(a[0].und)
        return B(u, np.ones_like(u))
    if op in ('ifloor', 'iceil', 'itrunc', 'irint'):
        f = {'ifloor': np.floor, 'iceil': np.ceil, 'itrunc': np.trunc, 'irint': np.rint}[op]
        return ival(f(a[0].lo()), f(a[0].hi()), a[0].und)
    if op == 'wrap':
        bits, signed = n.val
        lo, m = (-2**(bits-1) if signed else 0), 2**bits
        v = a[0]
        l, h = v.lo(), v.hi()
        with np.errstate(all='ignore'):
            kl, kh = np.floor((l - lo)/m), np.floor((h - lo)/m)
        if np.all(kl == 0) and np.all(kh == 0):
            return v
        one = (kl == kh) & np.isfinite(kl)
        full = ival(np.full(np.shape(l), float(lo)), np.full(np.shape(l), float(lo + m - 1)), v.und)
        shift = add(v, V(-m*np.where(one, kl, 0.)))
        return sel(B(one, ~one), shift, full)
    if op == 'civmonth':
        return ival(_days(np.ceil(a[0].lo() - 1e-5), 'D', 'M'), _days(np.floor(a[0].hi() + 1e-5), 'D', 'M'))
    if op == 'monthday':
        return ival(_days(np.ceil(a[0].lo() - 1e-5), 'M', 'D'), _days(np.floor(a[0].hi() + 1e-5), 'M', 'D'))
    raise T.Unsupported(f'enclosure of {op}')
