"""Exact linear normal form of integer and real arithmetic over calendar arithmetic.

hour + minute/60 + second/3600 of an instant is a linear combination of nested floor divisions whose
terms cancel; the steps are integer identities (floor((m q + r)/m) = q + floor(r/m), nested floor
divisions, a mod m = a - m floor(a/m)) and wraps of values that provably fit."""
from fractions import Fraction

from . import terms as T
from .smt import rat


class Tidy:
    """enc: {node id: V} enclosures of the original nodes, used to drop wraps that do nothing"""

    def __init__(self, enc=None):
        self.enc, self.memo, self.form = enc or {}, {}, {}

    def _fits(self, n):
        v = self.enc.get(n.args[0].id)
        bits, signed = n.val
        if v is None or not hasattr(v, 'lo'):
            return False
        lo, hi = (-2**(bits - 1), 2**(bits - 1)) if signed else (0, 2**bits)
        return bool((v.lo() > lo + 1).all() and (v.hi() < hi - 1).all())

    def lin(self, n):
        """(({id: (atom, coef)}, const)) of a rebuilt node"""
        r = self.form.get(n.id)
        if r is not None:
            return r
        op, a = n.op, n.args
        out = None
        if op == 'const' and n.typ in 'RI':
            v = n.val
            if n.typ == 'I' or v == v and abs(v) != float('inf'):
                out = ({}, rat(v))
        elif op in ('add', 'sub'):
            (p, c), (q, d) = self.lin(a[0]), self.lin(a[1])
            s = 1 if op == 'add' else -1
            out = (_merge(p, q, s), c + s*d)
        elif op == 'neg':
            p, c = self.lin(a[0])
            out = (_scale(p, -1), -c)
        elif op == 'mul' and (a[0].op == 'const' or a[1].op == 'const'):
            k, x = a if a[0].op == 'const' else a[::-1]
            (_, k), (p, c) = self.lin(k), self.lin(x)
            out = (_scale(p, k), c*k) if not _ else None
        elif op == 'div' and a[1].op == 'const' and a[1].val:
            k = rat(a[1].val)
            p, c = self.lin(a[0])
            out = (_scale(p, 1/k), c/k)
        elif op == 'toreal':
            out = self.lin(a[0])
        if out is None:
            out = ({n.id: (n, Fraction(1))}, Fraction(0))
        self.form[n.id] = out
        return out

    def build(self, f, typ):
        p, c = f
        acc = None
        for _, (n, k) in sorted(p.items()):
            if not k:
                continue
            x = n if typ == 'I' else T.toreal(n)
            if k != 1:
                x = T.neg(x) if k == -1 else T.mul(T.const(int(k) if typ == 'I' else float(k)), x)
            acc = x if acc is None else T.add(acc, x)
        if acc is None:
            return T.const(int(c) if typ == 'I' else float(c))
        if c:
            acc = T.add(acc, T.const(int(c) if typ == 'I' else float(c)))
        return acc

    def idiv(self, x, m):
        """floor(x / m) of a linear integer form"""
        p, c = self.lin(x)
        if any(k.denominator != 1 or n.typ != 'I' for n, k in p.values()) or c.denominator != 1:
            return None
        q, r = {}, {}
        for i, (n, k) in p.items():
            (q if k % m == 0 else r)[i] = (n, k/m if k % m == 0 else k)
        cq, cr = c // m, c % m
        if not r:
            return self.build((q, Fraction(cq)), 'I')
        rest = self.build((r, Fraction(cr)), 'I')
        if rest.op == 'idiv' and rest.args[1].op == 'const' and rest.args[1].val > 0:
            rest = T.floordiv(rest.args[0], T.const(int(rest.args[1].val)*m))
        else:
            rest = T.floordiv(rest, T.const(m))
        return self.build(self.plus(q, cq, rest), 'I')

    def plus(self, q, c, n):
        p, d = self.lin(n)
        return _merge(q, p, 1), c + d

    def one(self, n, a):
        r = n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a)
        if n.typ == 'I':
            if r.op == 'wrap' and n.op == 'wrap' and self._fits(n):
                return r.args[0]
            if r.op in ('idiv', 'mod') and r.args[1].op == 'const' and r.args[1].typ == 'I' and r.args[1].val > 0:
                m = int(r.args[1].val)
                q = self.idiv(r.args[0], m)
                if q is None:
                    return r
                if r.op == 'idiv':
                    return q
                f = self.lin(r.args[0])
                s = self.build((_merge(f[0], self.lin(q)[0], -m), f[1] - m*self.lin(q)[1]), 'I')
                return s if len(self.lin(s)[0]) <= 1 or self.lin(s)[0].keys() != {**f[0], **self.lin(q)[0]}.keys() else r
        if r.op in ('add', 'sub') and r.typ in 'RI':
            f = self.lin(r)
            parts = sum(len(self.lin(x)[0]) for x in r.args)
            if len([1 for _, k in f[0].values() if k]) < parts:
                return self.build(f, r.typ)
        return r

    def __call__(self, roots):
        roots = list(roots)
        for n in T.topo(roots):
            if n.id not in self.memo:
                self.memo[n.id] = self.one(n, [self.memo[x.id] for x in n.args]) if n.args else n
        return [self.memo[r.id] for r in roots]


def _merge(p, q, s):
    out = dict(p)
    for i, (n, k) in q.items():
        k = out[i][1] + s*k if i in out else s*k
        if k:
            out[i] = (n, k)
        else:
            out.pop(i, None)
    return out


def _scale(p, k):
    return {i: (n, c*k) for i, (n, c) in p.items()} if k else {}
