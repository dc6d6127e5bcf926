"""Trigonometric normal form: sine and cosine of an angle built from inverse functions, turns,
wraps and branches that differ by whole turns become algebraic terms.

Every step is one of the identities: angle addition, sin/cos of asin/acos/atan/atan2, and
2-pi periodicity (x mod p = x - p k with k integer)."""
from fractions import Fraction

from . import terms as T
from .smt import PI, rat

TWOPI = 2*PI


def _isint(q, eps=Fraction(1, 10**12)):
    k = round(q)
    return abs(q - k) < eps


def _turns(q):
    """a nonzero whole number of turns (per unit of an integer)"""
    return round(q) != 0 and _isint(q/round(q), Fraction(1, 10**14))


class Norm:
    def __init__(self, expand=True, subst=None, keep=None, canonical=False):
        """keep(node): single-precision roundings of these terms are kept"""
        self.keep = keep
        self.canonical = canonical      # arguments in linear normal form, constants within a turn
        self.memo = {k.id: v for k, v in (subst or {}).items()}
        self.scm = {}
        self.expand = expand

    def __call__(self, root):
        for n in T.topo([root]):
            if n.id in self.memo:
                continue
            if not n.args:
                self.memo[n.id] = n
                continue
            a = [self.memo[x.id] for x in n.args]
            z = self.ideal(n, a)
            if z is not None:
                self.memo[n.id] = z
                self.memo.setdefault(z.id, z)
                continue
            if n.op in ('sin', 'cos', 'tan'):
                s, c = self.sc(a[0])
                if n.op == 'tan' and self.canonical and s.op == 'sin' and c.op == 'cos':
                    s = T.fn('tan', s.args[0])
                    self.memo[n.id] = s
                    self.memo.setdefault(s.id, s)
                    continue
                r = s if n.op == 'sin' else c if n.op == 'cos' else (
                    T.fn('tan', a[0]) if s.op == 'sin' and s.args[0] is a[0] else T.div(s, c))
            elif all(x is y for x, y in zip(a, n.args)):
                r = n
            else:
                r = T.rebuild(n, a)
            self.memo[n.id] = r
            self.memo.setdefault(r.id, r)
        return self.memo[root.id]

    def ideal(self, n, a):
        """real-number simplifications (products with an exact zero, sums, snapped constants)"""
        k = [x.op == 'const' and x.typ == 'R' for x in a]
        if n.op in ('sin', 'cos') and all(k):
            v = float(T.fn(n.op, *a).val)
            return T.const(float(round(v)) if abs(v - round(v)) < 1e-15 else v)
        if n.op == 'f32' and not (self.keep and self.keep(n.args[0])) or n.op == 'roundd' and n.val >= 5:
            return a[0]
        if n.typ != 'R':
            return None
        if n.op == 'mul' and ((k[0] and a[0].val == 0) or (k[1] and a[1].val == 0)):
            return T.const(0.)
        if n.op == 'mul' and k[0] and a[0].val == -1:
            return T.neg(a[1])
        if n.op == 'mul' and k[1] and a[1].val == -1:
            return T.neg(a[0])
        if n.op == 'div' and k[0] and a[0].val == 0:
            return T.const(0.)
        if n.op == 'sub' and k[0] and a[0].val == 0:
            return T.neg(a[1])
        if n.op == 'sub' and a[0] is a[1]:
            return T.const(0.)
        if n.op == 'add' and (a[0].op == 'neg') != (a[1].op == 'neg'):
            p, q = (a[1], a[0].args[0]) if a[0].op == 'neg' else (a[0], a[1].args[0])
            return T.const(0.) if p is q else T.sub(p, q)
        return None

    # -- linear forms --------------------------------------------------------------
    def lin(self, u, k=Fraction(1), out=None):
        """u = sum coef*atom + const, modulo whole turns"""
        if out is None:
            out = [{}, Fraction(0), False]
        op = u.op
        if op == 'const':
            v = float(u.val)
            if v != v or v in (float('inf'), float('-inf')):
                self._atom(out, u, k)
            else:
                out[1] += k*rat(u.val)
        elif op == 'add':
            self.lin(u.args[0], k, out)
            self.lin(u.args[1], k, out)
        elif op == 'sub':
            self.lin(u.args[0], k, out)
            self.lin(u.args[1], -k, out)
        elif op == 'neg':
            self.lin(u.args[0], -k, out)
        elif op == 'mul' and (u.args[0].op == 'const' or u.args[1].op == 'const'):
            c, x = u.args if u.args[0].op == 'const' else u.args[::-1]
            self.lin(x, k*rat(c.val), out)
        elif op == 'div' and u.args[1].op == 'const' and rat(u.args[1].val):
            self.lin(u.args[0], k/rat(u.args[1].val), out)
        elif op == 'toreal':
            if _turns(k/TWOPI):
                out[2] = True
            else:
                self.lin(u.args[0], k, out) if u.args[0].op in ('add', 'sub', 'neg', 'mul', 'mod', 'ite', 'const') \
                    else self._atom(out, u.args[0], k)
        elif op == 'mod' and u.args[1].op == 'const' and _turns(k*rat(u.args[1].val)/TWOPI):
            out[2] = True
            self.lin(u.args[0], k, out)
        elif op == 'atan2' and (p := _polar(u)) is not None:
            sg, shift, w = p
            out[2] = True
            out[1] += k*shift*PI
            self.lin(w, k*sg, out)
        elif op == 'roundd' and u.val >= 5:
            self.lin(u.args[0], k, out)
        elif op == 'f32' and not (self.keep and self.keep(u.args[0])):
            self.lin(u.args[0], k, out)
        elif op == 'ite':
            a = self.lin(u.args[1], k)
            b = self.lin(u.args[2], k)
            d = (a[1] - b[1])/TWOPI
            if a[0] == b[0] and _isint(d):
                out[2] = True
                for i, (n, q) in a[0].items():
                    self._atom(out, n, q)
                out[1] += a[1]
            else:
                self._atom(out, u, k)
        else:
            self._atom(out, u, k)
        return out

    @staticmethod
    def _atom(out, n, k):
        q = out[0].get(n.id, (n, 0))[1] + k
        if q == 0:
            out[0].pop(n.id, None)
        else:
            out[0][n.id] = (n, q)

    def sc(self, u):
        r = self.scm.get(u.id)
        if r is None:
            r = self.scm[u.id] = self._sc(u)
        return r

    def _sc(self, u):
        atoms, const, dropped = self.lin(u)
        special, rest = [], []
        for n, q in atoms.values():
            if not self.expand:
                rest.append((n, q))
            elif n.op in ('asin', 'acos', 'atan', 'atan2') and _isint(q) and 1 <= abs(round(q)) <= 4:
                special.append((n, round(q)))
            elif n.op == 'ite' and n.typ == 'R' and self._has_inv(n):
                special.append((n, q))
            else:
                rest.append((n, q))
        if self.canonical:
            const -= TWOPI*(const//TWOPI)
        quarter = const/(PI/2)
        rot = round(quarter) % 4 if _isint(quarter) else None
        if not self.canonical and not special and not dropped and (rot in (0, None) and not (rot == 0 and const != 0)):
            return T.fn('sin', u), T.fn('cos', u)
        if rot is None:
            rest_const, rot = const, 0
        else:
            rest_const = Fraction(0)
        if rest or rest_const:
            lead = T.const(0.)
            for n, q in sorted(rest, key=lambda x: x[0].id):
                x = T.toreal(n)
                lead = T.add(lead, x if q == 1 else T.neg(x) if q == -1 else T.mul(T.const(_f(q)), x))
            if rest_const:
                lead = T.add(lead, T.const(_f(rest_const)))
            s, c = T.fn('sin', lead), T.fn('cos', lead)
        else:
            s, c = T.const(0.), T.const(1.)
        for n, q in special:
            s2, c2 = self.inv(n, q)
            s, c = _rotate(s, c, s2, c2)
        for _ in range(rot):
            s, c = c, T.neg(s)
        return s, c

    def _has_inv(self, n):
        return any(m.op in ('asin', 'acos', 'atan', 'atan2') for m in T.topo([n]))

    def inv(self, n, q):
        if n.op == 'ite':
            kq = T.const(_f(q))
            a = self.sc(T.mul(kq, n.args[1]))
            b = self.sc(T.mul(kq, n.args[2]))
            return T.ite(n.args[0], a[0], b[0]), T.ite(n.args[0], a[1], b[1])
        x = n.args[0]
        one = T.const(1.)
        co = T.fn('sqrt', T.sub(one, T.mul(x, x))) if n.op in ('asin', 'acos') else None
        if n.op == 'asin':
            s, c = x, co
        elif n.op == 'acos':
            s, c = co, x
        elif n.op == 'atan':
            c = T.div(one, T.fn('sqrt', T.add(one, T.mul(x, x))))
            s = T.mul(x, c)
        else:
            y, x = n.args
            r = T.fn('sqrt', T.add(T.mul(x, x), T.mul(y, y)))
            s, c = T.div(y, r), T.div(x, r)
        S, C = s, c
        for _ in range(abs(q)-1):
            S, C = _rotate(S, C, s, c)
        return (T.neg(S), C) if q < 0 else (S, C)


def _polar(u):
    """atan2(+-k sin w, +-k cos w) = +-w (+ pi) modulo a turn: (sign, shift/pi, w)"""
    parts = []
    for x in u.args:
        sg, k = 1, 1.
        while True:
            if x.op == 'neg':
                sg, x = -sg, x.args[0]
            elif x.op == 'mul' and x.args[0].op == 'const' and x.args[0].val != 0:
                sg, k, x = (sg if x.args[0].val > 0 else -sg), k*abs(float(x.args[0].val)), x.args[1]
            elif x.op == 'mul' and x.args[1].op == 'const' and x.args[1].val != 0:
                sg, k, x = (sg if x.args[1].val > 0 else -sg), k*abs(float(x.args[1].val)), x.args[0]
            else:
                break
        parts.append((sg, k, x))
    (s1, k1, a), (s2, k2, b) = parts
    if a.op != 'sin' or b.op != 'cos' or a.args[0] is not b.args[0] or k1 != k2:
        return None
    w = a.args[0]
    return {(1, 1): (1, 0, w), (-1, -1): (1, 1, w), (1, -1): (-1, 1, w), (-1, 1): (-1, 0, w)}[s1, s2]


def _f(q):
    return float(q)


def _rotate(s, c, s2, c2):
    if s.op == 'const' and s.val == 0 and c.op == 'const' and c.val == 1:
        return s2, c2
    if s2.op == 'const' and c2.op == 'const' and s2.val == 0 and c2.val == 1:
        return s, c
    return (T.add(T.mul(s, c2), T.mul(c, s2)), T.sub(T.mul(c, c2), T.mul(s, s2)))
