"""SMT back end: encoding of the term DAG into z3 and equivalence proofs by SAT sweeping.

The encoding reads floating point numbers as reals (constants as the decimal or rational
multiple of pi they denote).  Transcendental applications become fresh reals constrained by
instances of sound lemmas; every "equal" answer is an unsat verdict of z3.
"""
import math
import os
import sys
import time
from fractions import Fraction

import numpy as np

_pv = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _pv not in sys.path:
    sys.path.append(_pv)
import z3  # noqa: E402

from . import terms as T  # noqa: E402
from .terms import Node  # noqa: E402
from . import tm  # noqa: E402

PI = Fraction('3.14159265358979323846264338327950288419716939937510582097494459')


def _simplest(x, eps, maxden):
    f = Fraction(x).limit_denominator(maxden)
    return f if abs(float(f) - x) <= eps else None


_ratmemo = {}


def rat(v):
    """the rational a float constant denotes"""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (int, bool)):
        return Fraction(int(v))
    r = _ratmemo.get(v)
    if r is None:
        r = _ratmemo[v] = _rat(v)
    return r


def _rat(v):
    if v == 0 or v == int(v) and abs(v) < 1e15:
        return Fraction(int(v))
    s = repr(abs(v))
    digits = s.split('e')[0].replace('.', '').strip('0')
    if len(digits) <= 13:
        return Fraction(repr(v))
    for scale, back in ((math.pi, PI), (1/math.pi, 1/PI)):
        q = v/scale
        f = _simplest(q, 4e-16*max(1e-12, abs(q)), 20000)
        if f is not None:
            return f*back
    f = _simplest(v, 3e-16*abs(v), 20000)
    if f is not None:
        return f
    return Fraction(repr(v))


def zrat(v):
    f = rat(v)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


TRIG = ('sin', 'cos', 'tan')
INV = ('asin', 'acos', 'atan', 'atan2')
APPS = TRIG + INV + ('sqrt', 'exp', 'log', 'pow', 'cbrt', 'isnan')


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.merged = 0

    def check(self, s, timeout=None):
        if timeout:
            s.set('timeout', int(timeout*1000))
        t0 = time.time()
        r = s.check()
        self.time += time.time() - t0
        self.queries += 1
        r = str(r)
        setattr(self, r, getattr(self, r) + 1)
        return r

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_time_s=round(self.time, 3), merged_subterms=self.merged)


STATS = Stats()
PIZ = None


def pi_z():
    return z3.RealVal(f'{PI.numerator}/{PI.denominator}')


class Enc:
    """encodes nodes; `cut` nodes become fresh variables"""

    def __init__(self, bounds=None, cut=None, f32_identity=True, round_identity=True):
        self.memo = {}
        self.bounds = bounds or {}
        self.cut = cut or set()
        self.side = []
        self.apps = []
        self.okmemo = {}
        self.f32id = f32_identity
        self.rid = round_identity
        self.ufs = {}

    def fresh(self, n, tag='n'):
        nm = f'{tag}{n.id}'
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[n.typ](nm)

    def var(self, n):
        v = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[n.typ](n.val)
        b = self.bounds.get(n.val)
        if b is not None and n.typ != 'B':
            lo, hi = b[0], b[1]
            if lo is not None:
                self.side.append(v >= (zrat(lo) if n.typ == 'R' else int(lo)))
            if hi is not None:
                s = (zrat(hi) if n.typ == 'R' else int(hi))
                self.side.append(v < s if len(b) > 2 and b[2] else v <= s)
        return v

    def enc(self, n):
        for m in T.topo([n]) if n.id not in self.memo else ():
            if m.id not in self.memo:
                if m.id in self.cut and m.op not in ('const', 'var'):
                    self.memo[m.id] = self.fresh(m)
                    if m.op in ('sin', 'cos'):
                        self.side.append(z3.And(self.memo[m.id] <= 1, self.memo[m.id] >= -1))
                    if m.op == 'sqrt':
                        self.side.append(self.memo[m.id] >= 0)
                    continue
                if any(a.id not in self.memo for a in m.args):
                    # reachable only through a cut node
                    continue
                self.memo[m.id] = self._enc(m)
        return self.memo[n.id]

    def _topo_cut(self, n):
        pass

    def _enc(self, n):
        op = n.op
        a = [self.memo[x.id] for x in n.args]
        if op == 'const':
            if n.typ == 'R':
                v = float(n.val)
                if math.isnan(v) or math.isinf(v):
                    return self.fresh(n, 'nan' if math.isnan(v) else 'inf')
                return zrat(n.val)
            if n.typ == 'I':
                return z3.IntVal(int(n.val))
            return z3.BoolVal(bool(n.val))
        if op == 'var':
            return self.var(n)
        if op == 'add':
            return a[0] + a[1]
        if op == 'sub':
            return a[0] - a[1]
        if op == 'mul':
            return a[0] * a[1]
        if op == 'neg':
            return -a[0]
        if op == 'div':
            if n.args[1].op == 'const':
                f = rat(n.args[1].val)
                return a[0] * z3.RealVal(f'{f.denominator}/{f.numerator}') if f else self.fresh(n)
            q = self.fresh(n)
            self.side.append(z3.Implies(a[1] != 0, q*a[1] == a[0]))
            self.side.append(a[1] != 0)
            return q
        if op == 'idiv':
            if n.args[1].op == 'const' and n.args[1].val > 0:
                return a[0] / a[1]
            if n.args[1].op == 'const':
                return (-a[0]) / (-a[1])
            raise T.Unsupported('integer division by a symbolic number')
        if op == 'mod':
            if n.typ == 'I':
                if n.args[1].op == 'const' and n.args[1].val > 0:
                    return a[0] % a[1]
                raise T.Unsupported('integer modulo a symbolic number')
            if n.args[1].op != 'const':
                return self.fresh(n)
            f = rat(n.args[1].val)
            k = z3.ToInt(a[0] * z3.RealVal(f'{f.denominator}/{f.numerator}'))
            return a[0] - a[1]*z3.ToReal(k)
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op in ('lt', 'le', 'eq'):
            r = a[0] < a[1] if op == 'lt' else a[0] <= a[1] if op == 'le' else a[0] == a[1]
            if n.args[0].typ == 'R':
                oks = [self.ok(x) for x in n.args]
                oks = [o for o in oks if not z3.is_true(o)]
                if oks:
                    r = z3.And(r, *oks)
            return r
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        if op == 'not':
            return z3.Not(a[0])
        if op == 'abs':
            return z3.If(a[0] < 0, -a[0], a[0])
        if op == 'min':
            return z3.If(a[0] <= a[1], a[0], a[1])
        if op == 'max':
            return z3.If(a[0] >= a[1], a[0], a[1])
        if op == 'toreal':
            return z3.ToReal(a[0])
        if op == 'f32':
            if self.f32id and not self._timedep(n.args[0]):
                return a[0]
            r = self.fresh(n)
            self.apps.append(n)
            return r
        if op == 'roundd':
            if self.rid and n.val >= 5:
                return a[0]
            s = z3.RealVal(10**n.val)
            k = z3.ToInt(a[0]*s + zrat(Fraction(1, 2)))     # ties differ from numpy's even rule
            return z3.ToReal(k)/s
        if op == 'ifloor':
            return z3.ToInt(a[0])
        if op == 'iceil':
            return -z3.ToInt(-a[0])
        if op == 'itrunc':
            return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if op == 'irint':
            return z3.ToInt(a[0] + zrat(Fraction(1, 2)))
        if op == 'wrap':
            bits, signed = n.val
            m = 2**bits
            if signed:
                return (a[0] + m//2) % m - m//2
            return a[0] % m
        if op == 'civmonth':
            return civ_month(a[0])
        if op == 'monthday':
            return month_day(a[0])
        if op == 'isnan':
            o = self.ok(n.args[0])
            return z3.Not(o)
        if op.startswith('uf:'):
            key = (op, n.typ)
            if key not in self.ufs:
                srt = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
                self.ufs[key] = z3.Function(op[3:], *[srt[x.typ] for x in n.args], srt[n.typ])
            r = self.ufs[key](*a)
            self.apps.append(n)
            return r
        if op in APPS:
            self.apps.append(n)
            r = self.fresh(n)
            if op in ('sin', 'cos'):
                self.side.append(z3.And(r <= 1, r >= -1))
            if op == 'sqrt':
                self.side.append(z3.And(r >= 0, r*r == a[0]))
            if op == 'exp':
                self.side.append(r > 0)
            return r
        raise T.Unsupported(f'encoding of {op}')

    _td = {}

    @classmethod
    def _timedep(cls, n):
        """does the term depend on an integer (time) variable"""
        r = cls._td.get(n.id)
        if r is None:
            r = any(v.typ == 'I' for v in T.variables([n]))
            cls._td[n.id] = r
        return r

    def ok(self, n):
        """z3 condition: the value is a number (not NaN)"""
        r = self.okmemo.get(n.id)
        if r is not None:
            return r
        for m in T.topo([n]):
            if m.id in self.okmemo:
                continue
            self.okmemo[m.id] = self._ok(m)
        return self.okmemo[n.id]

    def _ok(self, n):
        if n.typ != 'R':
            return z3.BoolVal(True)
        if n.op == 'const':
            return z3.BoolVal(not math.isnan(float(n.val)))
        if n.op == 'var' or n.id in self.cut:
            return z3.BoolVal(True)
        ks = [self.okmemo[a.id] for a in n.args]
        if n.op == 'ite':
            if z3.is_true(ks[1]) and z3.is_true(ks[2]):
                return ks[1]
            return z3.If(self.enc(n.args[0]), ks[1], ks[2])
        ks = [k for k in ks if not z3.is_true(k)]
        if n.op in ('asin', 'acos'):
            x = self.enc(n.args[0])
            ks += [x >= -1, x <= 1]
        if n.op == 'sqrt':
            ks.append(self.enc(n.args[0]) >= 0)
        if n.op == 'log':
            ks.append(self.enc(n.args[0]) > 0)
        if n.op == 'div' and n.args[1].op != 'const':
            ks.append(self.enc(n.args[1]) != 0)
        if n.op == 'pow' and not (n.args[1].op == 'const' and float(n.args[1].val).is_integer()):
            ks.append(self.enc(n.args[0]) >= 0)
        if not ks:
            return z3.BoolVal(True)
        return z3.And(*ks) if len(ks) > 1 else ks[0]


def civ_month(d):
    """months since 1970-01 of day number d (proleptic Gregorian)"""
    z = d + 719468
    era = z / 146097
    doe = z - era*146097
    yoe = (doe - doe/1460 + doe/36524 - doe/146096)/365
    doy = doe - (365*yoe + yoe/4 - yoe/100)
    mp = (5*doy + 2)/153
    y = yoe + era*400
    m = z3.If(mp < 10, mp + 3, mp - 9)
    y = z3.If(m <= 2, y + 1, y)
    return (y - 1970)*12 + (m - 1)


def month_day(mm):
    """day number of the first day of month mm (months since 1970-01)"""
    y = mm/12 + 1970
    m = mm % 12 + 1
    y2 = z3.If(m <= 2, y - 1, y)
    era = y2 / 400
    yoe = y2 - era*400
    mp = z3.If(m > 2, m - 3, m + 9)
    doy = (153*mp + 2)/5
    doe = yoe*365 + yoe/4 - yoe/100 + doy
    return era*146097 + doe - 719468


# ---------------------------------------------------------------------------------------

class Prover:
    """Equivalence of terms over a bounded domain.

    samples: environment of concrete points (ndarrays of equal length) used to propose
    equalities (never to decide them) and to look for counterexamples."""

    def __init__(self, bounds, env, timeout=8.0, log=None, assume=()):
        self.bounds = bounds
        self.env = {k: np.asarray(v) for k, v in env.items()}
        self.N = len(next(iter(self.env.values())))
        self.timeout = timeout
        self.rep = {}           # id -> representative Node
        self.val = {}           # id -> sample values
        self.buckets = {}
        self.w = np.cos(np.arange(1, self.N+1)*1.2345) + 1.5
        self.assume = list(assume)
        self.failed = []
        self.log = log
        self.enc_cache = {}
        self.types = {}
        self.box = {}
        for k, b in bounds.items():
            lo, hi = b[0], b[1]
            self.box[k] = (np.array([-np.inf if lo is None else float(lo)]), np.array([np.inf if hi is None else float(hi)]))

    def values(self, nodes):
        todo = [m for m in T.topo(nodes) if m.id not in self.val]
        with np.errstate(all='ignore'):
            for m in todo:
                v = T._ev(m, [self.val[a.id] for a in m.args], self.env, True)
                self.val[m.id] = np.broadcast_to(np.asarray(v), (self.N,))
        return [self.val[n.id] for n in nodes]

    def hint(self, n):
        """sound bounds of a term over the whole domain (interval arithmetic)"""
        if n.typ == 'B':
            return None
        if n.id not in self.enc_cache:
            try:
                self.enc_cache.update(tm.enclose([n], self.box, over=self.enc_cache))
            except (T.Unsupported, KeyError):
                self.enc_cache[n.id] = tm.V(np.zeros(1), 0., 0., np.full(1, np.inf), np.ones(1, bool))
        v = self.enc_cache[n.id]
        lo, hi = float(np.min(v.lo())), float(np.max(v.hi()))
        return lo, hi

    def close(self, a, b, tol=1e-9):
        if a.dtype == bool or b.dtype == bool:
            return bool(np.all(a == b))
        fa, fb = np.asarray(a, float), np.asarray(b, float)
        bad = ~(np.abs(fa - fb) <= tol*(1e-2 + np.abs(fa)))
        bad &= ~(np.isnan(fa) & np.isnan(fb))
        return not bad.any()

    def _key(self, n):
        v = np.asarray(self.val[n.id], float)
        v = np.where(np.isfinite(v), np.clip(v, -1e12, 1e12), 7.0)
        s = float((v*self.w).sum()/self.w.sum())
        scale = float(np.abs(v).max())
        q = max(scale, 1e-2)*2e-9
        return n.typ, s, q

    def canon(self, n):
        """representative of n after sweeping its cone"""
        for m in T.topo([n]):
            if m.id in self.rep:
                continue
            args = [self.rep[a.id] for a in m.args]
            r = m if all(x is y for x, y in zip(args, m.args)) else T.rebuild(m, args)
            if r.id in self.rep and r is not m:
                self.rep[m.id] = self.rep[r.id]
                continue
            self.values([m, r])
            if r.op in ('const', 'var'):
                self.rep[m.id] = self.rep[r.id] = r
                self._insert(r)
                continue
            # r may contain sub-terms created by rebuild that are not canonical yet: rare, harmless
            c = self._candidate(r)
            self.rep[m.id] = self.rep[r.id] = c if c is not None else r
            if c is None:
                self._insert(r)
        return self.rep[n.id]

    def _insert(self, n):
        if n.typ == 'B':
            self.buckets.setdefault('B', []).append((0., n))
            return
        t, s, q = self._key(n)
        self.buckets.setdefault(t, []).append((s, n))

    def _candidate(self, n):
        if n.typ == 'B':
            v = self.val[n.id]
            if v.all() or not v.any():
                if self.prove(T.eq(n, T.const(bool(v[0]))), depths=(2, 4)):
                    STATS.merged += 1
                    return T.const(bool(v[0]))
                return None
        t, s, q = ('B', 0., 1.) if n.typ == 'B' else self._key(n)
        pools = ['B'] if t == 'B' else ['R', 'I']
        cands = []
        for p in pools:
            for (s2, m) in self.buckets.get(p, ()):
                if m.typ == n.typ and abs(s - s2) <= q and m is not n and self.close(self.val[n.id], self.val[m.id]):
                    cands.append(m)
        for m in cands[:4]:
            if self.prove_eq(n, m):
                STATS.merged += 1
                return m
            self.failed.append((n, m))
        return None

    def prove_eq(self, n, m):
        return self.prove(T.eq(n, m))

    def cone(self, roots, depth):
        """ids of the nodes at distance > depth (cut points); free ops do not count"""
        dist = {}
        frontier = [(r, 0) for r in roots]
        inside = {}
        cut = set()
        # Dijkstra-like: distance grows by one per node
        while frontier:
            nxt = []
            for n, d in frontier:
                if n.id in inside and inside[n.id] <= d:
                    continue
                inside[n.id] = d
                for a in n.args:
                    if a.op in ('const', 'var'):
                        continue
                    if d + 1 > depth:
                        cut.add(a.id)
                    else:
                        nxt.append((a, d+1))
            frontier = nxt
        cut -= set(inside)
        return cut, len(inside)

    def prove(self, goal, depths=(2, 4, 7, 11), extra=(), maxcone=160, timeout=None):
        """True iff z3 shows the boolean term holds for all values in the bounds"""
        last = 0
        for d in depths:
            cut, size = self.cone([goal], d)
            if size == last:
                break
            last = size
            if size > maxcone:
                break
            r = self.query(goal, cut, extra, timeout or min(self.timeout, .6*d))
            if r == 'unsat':
                return True
            if r == 'unknown' and d > 2 or not cut:
                break
        return False

    def query(self, goal, cut, extra=(), timeout=None, want_model=False, negate=True):
        e = Enc(self.bounds, cut)
        try:
            g = e.enc(goal)
            asm = [e.enc(a) for a in self.assume]
        except KeyError:
            return 'unknown'
        lem = self.lemmas(e)
        s = z3.Solver()
        s.add(*e.side)
        s.add(*lem)
        s.add(*self.hints(e))
        s.add(*asm)
        for x in extra:
            s.add(x(e) if callable(x) else x)
        s.add(z3.Not(g) if negate else g)
        r = STATS.check(s, timeout or self.timeout)
        if want_model and r == 'sat':
            return self.model_values(s.model())
        return r

    def model_values(self, m):
        out = {}
        for k, b in self.bounds.items():
            typ = self.types.get(k)
            if typ is None:
                continue
            z = z3.Real(k) if typ == 'R' else z3.Int(k)
            v = m.eval(z, model_completion=False)
            try:
                if z3.is_int_value(v):
                    out[k] = v.as_long()
                elif z3.is_rational_value(v):
                    out[k] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    out[k] = float(v.approx(17).as_fraction())
            except Exception:
                pass
        return out

    # -- coverage of conditions -----------------------------------------------------
    def add_points(self, pts):
        """append sample points (dicts, missing variables taken from sample 0..)"""
        if not pts:
            return
        new = {}
        for k, v in self.env.items():
            col = [p.get(k, v[i % len(v)]) for i, p in enumerate(pts)]
            new[k] = np.concatenate([v, np.asarray(col).astype(v.dtype)])
        self.env = new
        self.N = len(next(iter(new.values())))
        self.val = {}
        self.w = np.cos(np.arange(1, self.N+1)*1.2345) + 1.5
        assert not self.rep, 'cover() must precede canon()'

    def in_bounds(self, pts):
        out = []
        for p in pts:
            ok = True
            for k, v in p.items():
                b = self.bounds.get(k)
                if b and ((b[0] is not None and v < b[0]) or (b[1] is not None and (v > b[1] or len(b) > 2 and b[2] and v >= b[1]))):
                    ok = False
            if ok:
                out.append(p)
        return out

    def cover(self, roots, climb=True, limit=60):
        """solver-generated points for conditions that take one value on all samples"""
        self.types = {v.val: v.typ for v in T.variables(roots)}
        conds = [n for n in T.topo(roots) if n.typ == 'B' and n.op in ('lt', 'le', 'eq')]
        self.values(roots)
        self.uncovered = []
        pts = []
        for c in conds[:limit*4]:
            v = self.val[c.id]
            if v.all() or not v.any():
                want = not bool(v[0])
                goal = c if want else T.bnot(c)
                got = None
                for depth in (12, 4):
                    cut, size = self.cone([goal], depth)
                    if size > 120:
                        continue
                    m = self.query(goal, cut, timeout=2., want_model=True, negate=False)
                    if m == 'unsat':
                        got = 'unsat'
                        break
                    if isinstance(m, dict) and m:
                        got = m
                        if self._holds(goal, m):
                            break
                        got = None
                if got is None and climb:
                    got = self._climb(c, want)
                if isinstance(got, dict):
                    pts.append(got)
                    for k in (-1, 1, 7):      # neighbours
                        q = dict(got)
                        for n, val in q.items():
                            if self.types.get(n) == 'I':
                                q[n] = val + k
                        pts.append(q)
                elif got is None:
                    self.uncovered.append(c)
                if len(pts) > limit:
                    break
        pts = self.in_bounds(pts)
        self.covered = pts
        self.add_points(pts)
        return pts

    def _holds(self, goal, m):
        env = {k: np.asarray([m.get(k, v[0])]).astype(v.dtype) for k, v in self.env.items()}
        try:
            return bool(np.all(T.evaluate([goal], env, True)[0]))
        except Exception:
            return False

    def _climb(self, c, want, n=256, steps=40):
        """numeric search for a point where condition c takes the wanted value"""
        x, y = c.args
        if x.typ == 'B':
            return None
        rng = np.random.default_rng(1)
        vs = [v for v in T.variables([c])]
        if not vs:
            return None
        lo = {v.val: float(self.bounds[v.val][0] if self.bounds.get(v.val, (None,))[0] is not None else -1e3) for v in vs}
        hi = {v.val: float(self.bounds[v.val][1] if self.bounds.get(v.val, (None, None))[1] is not None else 1e3) for v in vs}
        pts = {v.val: rng.uniform(lo[v.val], hi[v.val], n) for v in vs}

        def ev(p):
            env = {k: np.resize(v, n) for k, v in self.env.items()}
            for v in vs:
                env[v.val] = np.floor(p[v.val]).astype('i8') if v.typ == 'I' else p[v.val]
            f = T.evaluate([x, y], env, True)
            d = np.broadcast_to(np.asarray(f[0], float) - np.asarray(f[1], float), (n,))
            if c.op == 'eq':
                return np.where(np.isnan(d), np.inf, np.abs(d) if want else -np.abs(d)), env
            return np.where(np.isnan(d), np.inf, d if want else -d), env
        best, env = ev(pts)
        scale = {v.val: .25*(hi[v.val] - lo[v.val]) for v in vs}
        for k in range(steps):
            q = {}
            for v in vs:
                q[v.val] = np.clip(pts[v.val] + rng.normal(0, 1, n)*scale[v.val]*10**rng.uniform(-4*k/steps, 0, n), lo[v.val], hi[v.val])
            f, env2 = ev(q)
            better = f < best
            best = np.where(better, f, best)
            for v in vs:
                pts[v.val] = np.where(better, q[v.val], pts[v.val])
        best, env = ev(pts)
        good = T.evaluate([c], env, True)[0]
        good = np.broadcast_to(np.asarray(good, bool), (n,)) == want
        if not good.any():
            return None
        i = int(np.argmax(good))
        return {v.val: env[v.val][i].item() for v in vs}

    def hints(self, e):
        out = []
        for i, z in list(e.memo.items()):
            n = T.by_id(i)
            if n.typ == 'B' or n.op in ('const', 'var', 'add', 'sub', 'mul', 'neg', 'toreal', 'ite') and i not in e.cut:
                continue
            h = self.hint(n)
            if h is None:
                continue
            lo, hi = h
            if n.typ == 'I':
                if math.isfinite(lo):
                    out.append(z >= math.ceil(lo - 1e-5))
                if math.isfinite(hi):
                    out.append(z <= math.floor(hi + 1e-5))
            else:
                if math.isfinite(lo):
                    out.append(z >= z3.RealVal(str(Fraction(lo))))
                if math.isfinite(hi):
                    out.append(z <= z3.RealVal(str(Fraction(hi))))
        return out

    # -- lemma instances ------------------------------------------------------------
    def lemmas(self, e):
        out = []
        angles = {}        # angle node id -> (s, c, node)
        side0 = len(e.side)
        pi = pi_z()

        def sc(u):
            """(sin, cos) z3 reals of the angle node u"""
            if u.id in angles:
                return angles[u.id][:2]
            ns, nc = T.fn('sin', u), T.fn('cos', u)
            if ns.op == 'const':
                s, c = zrat(ns.val), zrat(nc.val)
            else:
                s = e.memo.get(ns.id)
                c = e.memo.get(nc.id)
                if s is None:
                    s = z3.Real(f'n{ns.id}')
                if c is None:
                    c = z3.Real(f'n{nc.id}')
                out.append(s*s + c*c == 1)
                out.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
            angles[u.id] = (s, c, u)
            self.values([u])
            for nn, zz in ((ns, s), (nc, c)):
                lo, hi = self.hint(nn)
                if lo > -1:
                    out.append(zz >= z3.RealVal(str(Fraction(lo))))
                if hi < 1:
                    out.append(zz <= z3.RealVal(str(Fraction(hi))))
            ulo, uhi = self.hint(u)
            if u.id not in e.cut:
                uz = e.enc(u)
                if -1.6 < ulo and uhi < 1.6:
                    out.append(z3.Implies(z3.And(uz >= -pi/2, uz <= pi/2), c >= 0))
                if -.1 < ulo and uhi < 3.2:
                    out.append(z3.Implies(z3.And(uz >= 0, uz <= pi), s >= 0))
                if u.op == 'asin':
                    x = e.enc(u.args[0])
                    out.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(s == x, c >= 0)))
                    out.append(z3.And(uz <= pi/2, uz >= -pi/2))
                elif u.op == 'acos':
                    x = e.enc(u.args[0])
                    out.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(c == x, s >= 0)))
                    out.append(z3.And(uz <= pi, uz >= 0))
                elif u.op == 'atan':
                    x = e.enc(u.args[0])
                    out.append(z3.And(s == x*c, c > 0, uz < pi/2, uz > -pi/2))
                elif u.op == 'atan2':
                    y, x = e.enc(u.args[0]), e.enc(u.args[1])
                    r = z3.Real(f'hyp{u.id}')
                    out.append(z3.And(r >= 0, r*s == y, r*c == x, r*r == x*x + y*y, uz <= pi, uz > -pi,
                                      z3.Implies(y > 0, uz > 0), z3.Implies(y < 0, uz < 0)))
            return s, c

        for n in list(e.apps):
            if n.op in TRIG:
                s, c = sc(n.args[0])
                if n.op == 'sin':
                    out.append(e.memo[n.id] == s)
                elif n.op == 'cos':
                    out.append(e.memo[n.id] == c)
                else:
                    out.append(z3.And(e.memo[n.id]*c == s, c != 0))
        inv = [n for n in e.apps if n.op in INV]
        # only look at sines of inverse functions when two of them must be compared
        for i, n in enumerate(inv):
            for m in inv[:i]:
                a, b = self.values([n, m])
                x, y = e.memo[n.id], e.memo[m.id]
                if n.op == m.op == 'atan2':
                    y1, x1, y2, x2 = [e.enc(q) for q in n.args + m.args]
                    if self.close(a, b):
                        out.append(z3.Implies(z3.And(y1*x2 == y2*x1, y1*y2 + x1*x2 > 0), x == y))
                    elif self.close(np.abs(a - b), np.full(self.N, math.pi)):
                        out.append(z3.Implies(z3.And(y1*x2 == y2*x1, y1*y2 + x1*x2 < 0, y1 != 0),
                                              x == y + z3.If(y1 > 0, pi, -pi)))
                        out.append(z3.And(z3.Implies(y1 > 0, x > 0), z3.Implies(y1 < 0, x < 0)))
                    elif self.close(a, -b):
                        out.append(z3.Implies(z3.And(y1*x2 == -y2*x1, -y1*y2 + x1*x2 > 0), x == -y))
                elif n.op == m.op:
                    if self.close(a, b):
                        out.append(z3.Implies(e.enc(n.args[0]) == e.enc(m.args[0]), x == y))
                    elif self.close(a + b, np.full(self.N, math.pi if n.op == 'acos' else 0.0)):
                        out.append(z3.Implies(e.enc(n.args[0]) == -e.enc(m.args[0]), x + y == (pi if n.op == 'acos' else 0)))
                elif {n.op, m.op} == {'asin', 'acos'}:
                    if self.close(a + b, np.full(self.N, math.pi/2)):
                        out.append(z3.Implies(e.enc(n.args[0]) == e.enc(m.args[0]), x + y == pi/2))
                    else:
                        self._angle_eq(n, m, a, b, x, y, sc, out)
                else:
                    self._angle_eq(n, m, a, b, x, y, sc, out)
        # relations between angles
        al = list(angles.values())
        done = set()
        i = 0
        while i < len(al):
            su, cu, u = al[i]
            for sv, cv, v in al[:i]:
                if u.op == 'const' or v.op == 'const':
                    continue
                a, b = np.asarray(self.val[u.id], float), np.asarray(self.val[v.id], float)
                for sg in (1, -1):
                    q = (a - sg*b)/(math.pi/2)
                    k = np.rint(q)
                    if not np.all(np.abs(q - k) < 1e-5):
                        continue
                    k4 = np.unique(np.mod(k, 4))
                    if len(k4) != 1:
                        continue
                    k4 = int(k4[0])
                    try:
                        uz, vz = e.enc(u), e.enc(v)
                    except KeyError:
                        continue
                    base = uz - sg*vz - pi/2*k4
                    K = z3.ToInt(base/(2*pi) + zrat(Fraction(1, 2)))
                    s2, c2 = (sv if sg == 1 else -sv), cv
                    for _ in range(k4):
                        s2, c2 = c2, -s2
                    out.append(z3.Implies(base == 2*pi*z3.ToReal(K), z3.And(su == s2, cu == c2)))
                # double angles: u = 2 v
                for p, q2, sp, cp, sq, cq in ((u, v, su, cu, sv, cv), (v, u, sv, cv, su, cu)):
                    x, y = np.asarray(self.val[p.id], float), np.asarray(self.val[q2.id], float)
                    if np.abs(x).max() > 1e-9 and self.close(x, 2*y):
                        out.append(z3.Implies(e.enc(p) == 2*e.enc(q2), z3.And(sp == 2*sq*cq, cp == cq*cq - sq*sq)))
            i += 1
        # plain congruence for the rest
        rest = [n for n in e.apps if n.op not in TRIG + INV and not n.op.startswith('uf:')]
        for i, n in enumerate(rest):
            for m in rest[:i]:
                if n.op == m.op and self.close(*self.values([n, m])):
                    out.append(z3.Implies(z3.And(*[e.enc(p) == e.enc(q) for p, q in zip(n.args, m.args)]),
                                          e.memo[n.id] == e.memo[m.id]))
        return e.side[side0:] + out

    def _angle_eq(self, n, m, a, b, x, y, sc, out):
        if self.close(a, b):
            s1, c1 = sc(n)
            s2, c2 = sc(m)
            pi = pi_z()
            out.append(z3.Implies(z3.And(s1 == s2, c1 == c2, x > -pi, x <= pi, y > -pi, y <= pi), x == y))
