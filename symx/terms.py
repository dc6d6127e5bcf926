"""Hash-consed expression DAG produced by running the real code on symbolic values.

Types: 'R' (floating point number seen as a real), 'I' (integer; also the tick
count of datetime64/timedelta64 values) and 'B' (boolean).
"""
import math
from fractions import Fraction

import numpy as np

NAT = -2**63

_table = {}
_count = [0]
_nodes = [None]


class Node:
    __slots__ = ('op', 'args', 'val', 'typ', 'id', 'tdep')

    # numpy must not try to iterate/convert these
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __repr__(self):
        return show(self, 4)

    # python-level operators (used when numpy runs generic code on object arrays)
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __rtruediv__(s, o): return div(lift(o), s)
    def __floordiv__(s, o): return floordiv(s, lift(o))
    def __rfloordiv__(s, o): return floordiv(lift(o), s)
    def __mod__(s, o): return mod(s, lift(o))
    def __rmod__(s, o): return mod(lift(o), s)
    def __pow__(s, o): return power(s, lift(o))
    def __rpow__(s, o): return power(lift(o), s)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absv(s)
    def __lt__(s, o): return lt(s, lift(o))
    def __le__(s, o): return le(s, lift(o))
    def __gt__(s, o): return lt(lift(o), s)
    def __ge__(s, o): return le(lift(o), s)

    def __eq__(s, o):
        try:
            return eq(s, lift(o))
        except TypeError:
            return NotImplemented

    def __ne__(s, o):
        try:
            return bnot(eq(s, lift(o)))
        except TypeError:
            return NotImplemented

    def __and__(s, o): return band(s, lift(o))
    def __rand__(s, o): return band(lift(o), s)
    def __or__(s, o): return bor(s, lift(o))
    def __ror__(s, o): return bor(lift(o), s)
    def __xor__(s, o): return bxor(s, lift(o))
    def __rxor__(s, o): return bxor(lift(o), s)
    def __invert__(s):
        if s.typ == 'B':
            return bnot(s)
        return sub(const(-1), s)

    def __bool__(self):
        from . import explore
        return explore.decide(self)

    def __float__(self):
        if self.op == 'const':
            return float(self.val)
        raise SymbolicConcretisation('float() of a symbolic value')

    def __int__(self):
        if self.op == 'const':
            return int(self.val)
        raise SymbolicConcretisation('int() of a symbolic value')

    __index__ = __int__

    def __round__(self, nd=None):
        if nd is None:
            return toint('rint', self)
        return roundd(self, nd)

    def __format__(self, spec):
        if self.op == 'const':
            return format(float(self.val) if self.typ == 'R' else self.val, spec)
        return token(self, spec)

    def __divmod__(self, o):
        o = lift(o)
        if self.typ == 'I' and o.typ == 'I':
            return self // o, self % o
        return rfloor('floor', div(sub(self, mod(self, o)), o)), mod(self, o)

    def __trunc__(self): return toint('trunc', self)
    def __floor__(self): return toint('floor', self)
    def __ceil__(self): return toint('ceil', self)

    # methods numpy looks up when a ufunc meets object arrays
    def sin(s): return fn('sin', s)
    def cos(s): return fn('cos', s)
    def tan(s): return fn('tan', s)
    def arcsin(s): return fn('asin', s)
    def arccos(s): return fn('acos', s)
    def arctan(s): return fn('atan', s)
    def arctan2(s, o): return fn('atan2', s, lift(o))
    def sqrt(s): return fn('sqrt', s)
    def exp(s): return fn('exp', s)
    def log(s): return fn('log', s)
    def floor(s): return rfloor('floor', s)
    def ceil(s): return rfloor('ceil', s)
    def trunc(s): return rfloor('trunc', s)
    def rint(s): return rfloor('rint', s)
    def degrees(s): return rad2deg(s)
    def rad2deg(s): return rad2deg(s)
    def radians(s): return deg2rad(s)
    def deg2rad(s): return deg2rad(s)
    def hypot(s, o): return fn('sqrt', add(mul(s, s), mul(lift(o), lift(o))))
    def conjugate(s): return s
    def isnan(s): return isnan(s)
    def isfinite(s): return bnot(isnan(s))
    def sign(s): return sign(s)
    def fabs(s): return absv(s)
    def square(s): return mul(s, s)
    def reciprocal(s): return div(const(1.), s)
    def logical_not(s): return bnot(tobool(s))
    def item(s): return s


TOKENS = []


def token(v, spec):
    """the text of a symbolic value: a mark that stands for it and its format"""
    TOKENS.append((v, spec))
    return f'\u27e6{len(TOKENS) - 1}\u27e7'


class SymbolicConcretisation(TypeError):
    pass


class Unsupported(Exception):
    """The code did something the symbolic executor does not model."""


# operations whose result with a NaN operand is NaN (comparisons: false, to integer: NaT)
_NANPROP = {'add', 'sub', 'mul', 'div', 'neg', 'mod', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'exp', 'log',
            'cbrt', 'f32', 'roundd', 'abs', 'min', 'max', 'lt', 'le', 'eq', 'itrunc', 'ifloor', 'iceil', 'irint'}


def mk(op, args=(), val=None, typ='R'):
    if op == 'const':
        v = val
        key = ('const', typ, repr(v))
    else:
        key = (op, tuple(a.id for a in args), val, typ)
        if op in _NANPROP:
            for a in args:
                if a.op == 'const' and a.val != a.val:
                    return NANC if typ == 'R' else FALSE if typ == 'B' else const(NAT)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = tuple(args)
        n.val = val
        n.typ = typ
        _count[0] += 1
        n.id = _count[0]
        _nodes.append(n)
        _table[key] = n
    return n


def by_id(i):
    return _nodes[i]


def node_count():
    return _count[0]


def const(v):
    if isinstance(v, (bool, np.bool_)):
        return mk('const', (), bool(v), 'B')
    if isinstance(v, (int, np.integer)):
        return mk('const', (), int(v), 'I')
    if isinstance(v, (float, np.floating)):
        return mk('const', (), float(v), 'R')
    if isinstance(v, Fraction):
        return mk('const', (), v, 'R')
    raise TypeError(f'cannot lift {type(v)}')


def var(name, typ='R'):
    return mk('var', (), name, typ)


def lift(v):
    if isinstance(v, Node):
        return v
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return lift(v.item() if v.dtype != object else v[()])
    return const(v)


TRUE = const(True)
FALSE = const(False)
NANC = const(float('nan'))
INF = float('inf')


def isconst(n):
    return n.op == 'const'


def _num(n):
    """to arithmetic type (booleans count as 0/1)"""
    if n.typ == 'B':
        return ite(n, const(1), const(0))
    return n


def toreal(n):
    if n.typ == 'R':
        return n
    if n.typ == 'B':
        return toreal(_num(n))
    if isconst(n):
        return const(float(n.val))
    return mk('toreal', (n,), None, 'R')


def _unify(a, b):
    a, b = _num(a), _num(b)
    if a.typ != b.typ:
        a, b = toreal(a), toreal(b)
    return a, b, a.typ


def _c(a):
    return a.val


def _fold2(f, a, b, typ):
    with np.errstate(all='ignore'):
        if typ == 'I':
            return const(int(f(int(a.val), int(b.val))))
        return const(float(f(np.float64(float(a.val)), np.float64(float(b.val)))))


def _isval(n, v):
    return n.op == 'const' and n.val == v


def add(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x+y, a, b, t)
    if _isval(a, 0):
        return b
    if _isval(b, 0):
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), None, t)


def sub(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x-y, a, b, t)
    if _isval(b, 0):
        return a
    return mk('sub', (a, b), None, t)


def mul(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x*y, a, b, t)
    if _isval(a, 1):
        return b
    if _isval(b, 1):
        return a
    if t == 'I' and (_isval(a, 0) or _isval(b, 0)):
        return const(0)
    if t == 'I':
        if isconst(a):
            a, b = b, a
        if isconst(b) and a.op == 'mul':
            x, k = a.args if isconst(a.args[1]) else a.args[::-1]
            if isconst(k):
                return mul(x, const(k.val*b.val))
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), None, t)


def neg(a):
    a = _num(a)
    if isconst(a):
        return const(-a.val)
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), None, a.typ)


def div(a, b):
    a, b = toreal(a), toreal(b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x/y, a, b, 'R')
    if _isval(b, 1):
        return a
    return mk('div', (a, b), None, 'R')


def floordiv(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x//y, a, b, t)
    if t == 'R':
        return rfloor('floor', div(a, b))
    if _isval(b, 1):
        return a
    if isconst(b) and b.val > 0:
        if a.op == 'mul':
            x, k = a.args if isconst(a.args[1]) else a.args[::-1]
            if isconst(k) and k.val > 0:
                if b.val % k.val == 0:
                    return floordiv(x, const(b.val//k.val))
                if k.val % b.val == 0:
                    return mul(x, const(k.val//b.val))
        if a.op == 'idiv' and isconst(a.args[1]) and a.args[1].val > 0:
            return floordiv(a.args[0], const(a.args[1].val*b.val))
    return mk('idiv', (a, b), None, 'I')


def mod(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x % y, a, b, t)
    return mk('mod', (a, b), None, t)


def fmod(a, b):
    a, b, t = _unify(a, b)
    m = mod(absv(a), absv(b))
    return ite(lt(a, const(0) if t == 'I' else const(0.)), neg(m), m)


def power(a, b):
    a, b = _num(a), _num(b)
    if isconst(b):
        e = b.val
        if e == int(e) and 0 <= e <= 8:
            e = int(e)
            if e == 0:
                return const(1) if a.typ == b.typ == 'I' else const(1.)
            x = a if b.typ == 'I' else toreal(a)
            if isconst(x):
                return const(x.val**e)
            r = x
            for _ in range(e-1):
                r = mul(r, x)
            return r
        if e == int(e) and -8 <= e < 0 and (b.typ == 'R' or a.typ == 'R'):
            return div(const(1.), power(toreal(a), const(int(-e))))
        if e == 0.5:
            return fn('sqrt', a)
        if e < 0 and not isconst(a):
            return div(const(1.), power(a, const(-float(e))))
    a, b = toreal(a), toreal(b)
    if isconst(a) and isconst(b):
        return _fold2(lambda x, y: x**y, a, b, 'R')
    return mk('pow', (a, b), None, 'R')


_NPF = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos,
        'atan': np.arctan, 'atan2': np.arctan2, 'sqrt': np.sqrt, 'exp': np.exp, 'log': np.log,
        'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'log10': np.log10, 'cbrt': np.cbrt,
        'log1p': np.log1p, 'expm1': np.expm1, 'log2': np.log2, 'exp2': np.exp2}


def fn(name, *args):
    args = tuple(toreal(a) for a in args)
    if all(isconst(a) for a in args):
        with np.errstate(all='ignore'):
            return const(float(_NPF[name](*[float(a.val) for a in args])))
    if name == 'log10':
        return div(fn('log', args[0]), const(math.log(10)))
    if name == 'log2':
        return div(fn('log', args[0]), const(math.log(2)))
    if name == 'log1p':
        return fn('log', add(const(1.), args[0]))
    if name == 'expm1':
        return sub(fn('exp', args[0]), const(1.))
    if name == 'exp2':
        return fn('exp', mul(args[0], const(math.log(2))))
    if name == 'sinh':
        e = fn('exp', args[0])
        return mul(const(.5), sub(e, div(const(1.), e)))
    if name == 'cosh':
        e = fn('exp', args[0])
        return mul(const(.5), add(e, div(const(1.), e)))
    if name == 'tanh':
        e = fn('exp', mul(const(2.), args[0]))
        return div(sub(e, const(1.)), add(e, const(1.)))
    return mk(name, args, None, 'R')


def rfloor(kind, a):
    """floor/ceil/trunc/rint with a real result"""
    if a.typ != 'R':
        return toreal(a)
    if isconst(a):
        f = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint}[kind]
        return const(float(f(float(a.val))))
    return toreal(toint(kind, a))


def toint(kind, a):
    a = _num(a)
    if a.typ == 'I':
        return a
    if isconst(a):
        v = float(a.val)
        if math.isnan(v):
            return const(NAT)
        f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[kind]
        return const(int(f(v)))
    if a.op == 'toreal':
        return a.args[0]
    return mk('i' + kind, (a,), None, 'I')


def wrapint(a, bits, signed=True):
    a = _num(a)
    if isconst(a):
        v = a.val % 2**bits
        if signed and v >= 2**(bits-1):
            v -= 2**bits
        return const(v)
    if bits >= 64:
        return a
    return mk('wrap', (a,), (bits, signed), 'I')


def f32(a):
    a = toreal(a)
    if isconst(a):
        with np.errstate(all='ignore'):
            return const(float(np.float32(float(a.val))))
    if a.op == 'f32':
        return a
    return mk('f32', (a,), None, 'R')


def roundd(a, nd):
    nd = int(nd)
    if a.typ == 'I' and nd >= 0:
        return a
    a = toreal(a)
    if isconst(a):
        return const(float(np.round(float(a.val), nd)))
    return mk('roundd', (a,), nd, 'R')


def absv(a):
    a = _num(a)
    if isconst(a):
        return const(abs(a.val))
    return mk('abs', (a,), None, a.typ)


def sign(a):
    a = _num(a)
    z, o, m = (const(0), const(1), const(-1)) if a.typ == 'I' else (const(0.), const(1.), const(-1.))
    return ite(lt(z, a), o, ite(lt(a, z), m, a))


def minv(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(np.minimum, a, b, t)
    return mk('min', (a, b), None, t)


def maxv(a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        return _fold2(np.maximum, a, b, t)
    return mk('max', (a, b), None, t)


def deg2rad(a):
    return mul(toreal(a), const(math.pi/180))


def rad2deg(a):
    return mul(toreal(a), const(180/math.pi))


def tobool(a):
    if a.typ == 'B':
        return a
    return bnot(eq(a, const(0)))


def ite(c, a, b):
    c = tobool(c)
    if isconst(c):
        return a if c.val else b
    if a is b:
        return a
    if a.typ == 'B' and b.typ == 'B':
        if isconst(a) and isconst(b):
            return c if a.val else bnot(c)
        return bor(band(c, a), band(bnot(c), b))
    a, b = _num(a), _num(b)
    if a.typ != b.typ:
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if a.typ == 'R' and (isconst(a) or isconst(b)):
        m = _clamp(c, a, b)
        if m is not None:
            return m
    return mk('ite', (c, a, b), None, a.typ)


def _clamp(c, a, b):
    """ite(x < k, k, x) and its like are max and min: only where a NaN x is what is left when the comparison fails"""
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if c.op not in ('lt', 'le') or not isconst(a) or a.val != a.val:
        return None
    x, y = c.args
    if b is x and a is y:
        return maxv(b, a)
    if b is y and a is x:
        return minv(b, a)
    return None


def _ncmp(op, f, a, b):
    a, b, t = _unify(a, b)
    if isconst(a) and isconst(b):
        if t == 'I' and NAT in (a.val, b.val) and op != 'eq':
            return FALSE
        return const(bool(f(a.val, b.val)))
    if a is b:
        if op == 'lt':
            return FALSE
        return bnot(isnan(a) if t == 'R' else isnat(a))
    # the least of them is above: each of them is (NaN makes both false)
    if t == 'R' and isconst(a) and b.op == 'min':
        return _every([_ncmp(op, f, a, x) for x in _leaves(b)])
    if t == 'R' and isconst(b) and a.op == 'max':
        return _every([_ncmp(op, f, x, b) for x in _leaves(a)])
    return mk(op, (a, b), None, 'B')


def _leaves(n):
    out, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == n.op:
            st += x.args[::-1]
        else:
            out.append(x)
    return out


def _every(cs):
    r = cs[0]
    for c in cs[1:]:
        r = band(r, c)
    return r


def lt(a, b): return _ncmp('lt', lambda x, y: x < y, a, b)
def le(a, b): return _ncmp('le', lambda x, y: x <= y, a, b)


def eq(a, b):
    if a.typ == 'B' and b.typ == 'B':
        return bnot(bxor(a, b))
    return _ncmp('eq', lambda x, y: x == y, a, b)


def bnot(a):
    a = tobool(a)
    if isconst(a):
        return const(not a.val)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), None, 'B')


def band(a, b):
    if a.typ == 'I' and b.typ == 'I':
        raise Unsupported('bitwise and of integers')
    a, b = tobool(a), tobool(b)
    if isconst(a):
        return b if a.val else FALSE
    if isconst(b):
        return a if b.val else FALSE
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), None, 'B')


def bor(a, b):
    if a.typ == 'I' and b.typ == 'I':
        raise Unsupported('bitwise or of integers')
    a, b = tobool(a), tobool(b)
    if isconst(a):
        return TRUE if a.val else b
    if isconst(b):
        return TRUE if b.val else a
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('or', (a, b), None, 'B')


def bxor(a, b):
    a, b = tobool(a), tobool(b)
    if isconst(a):
        return bnot(b) if a.val else b
    if isconst(b):
        return bnot(a) if b.val else a
    if a is b:
        return FALSE
    return bor(band(a, bnot(b)), band(bnot(a), b))


def isnan(a):
    if a.typ != 'R':
        return FALSE
    if isconst(a):
        return const(a.val != a.val)
    if a.op == 'var':
        return FALSE          # plain symbolic numbers are numbers; NaN enters through ite()
    if a.op == 'ite':
        return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    if a.op in ('toreal',):
        return FALSE
    if a.op in ('f32', 'neg', 'sin', 'cos', 'roundd', 'abs'):
        return isnan(a.args[0])
    return mk('isnan', (a,), None, 'B')


NATVARS = set()      # names of integer variables that may be NaT


def isnat(a):
    if isconst(a):
        return const(a.val == NAT)
    if a.op == 'var':
        return eq(a, const(NAT)) if a.val in NATVARS else FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnat(a.args[1]), isnat(a.args[2]))
    if a.op in ('add', 'sub', 'mul', 'neg', 'idiv', 'scale', 'cdiv', 'civmonth', 'monthday'):
        r = FALSE
        for x in a.args:
            r = bor(r, isnat(x))
        return r
    if a.op in ('itrunc', 'ifloor', 'iceil', 'irint'):
        return isnan(a.args[0])
    return FALSE


# -- datetime helpers: tick counts are 'I' nodes, NaT propagates ------------------

_LIN = {'W': 7*86400*10**9, 'D': 86400*10**9, 'h': 3600*10**9, 'm': 60*10**9, 's': 10**9,
        'ms': 10**6, 'us': 10**3, 'ns': 1}


def natprop(x, y):
    """y where x is not NaT, else NaT"""
    return ite(isnat(x), const(NAT), y)


def dt_convert(n, u, v, is_delta):
    """convert tick count n from unit u to unit v, as numpy's astype does"""
    if u == v or v in (None, 'generic'):
        return n
    if u in (None, 'generic'):
        return n
    if isconst(n):
        if n.val == NAT:
            return n
        k = 'm8' if is_delta else 'M8'
        with np.errstate(all='ignore'):
            return const(int(np.array(n.val, dtype='i8').view(f'{k}[{u}]').astype(f'{k}[{v}]').view('i8')))
    if u in _LIN and v in _LIN:
        a, b = _LIN[u], _LIN[v]
        if a % b == 0:
            return natprop(n, mul(n, const(a//b)))
        if b % a == 0:
            return natprop(n, floordiv(n, const(b//a)))
        return natprop(n, floordiv(mul(n, const(a)), const(b)))
    if u == 'Y' and v == 'M':
        return natprop(n, mul(n, const(12)))
    if u == 'M' and v == 'Y':
        return natprop(n, floordiv(n, const(12)))
    if is_delta:
        raise Unsupported(f'timedelta cast {u}->{v}')
    if v in ('Y', 'M'):
        days = dt_convert(n, u, 'D', False)
        m = natprop(days, mk('civmonth', (days,), None, 'I'))
        return dt_convert(m, 'M', v, False)
    if u in ('Y', 'M'):
        m = dt_convert(n, u, 'M', False)
        d = natprop(m, mk('monthday', (m,), None, 'I'))
        return dt_convert(d, 'D', v, False)
    raise Unsupported(f'datetime cast {u}->{v}')


# -- traversal -----------------------------------------------------------------

def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in reversed(n.args):
            if a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op == 'var']


def substitute(roots, mapping):
    """rebuild roots with nodes replaced (mapping: Node -> Node)"""
    memo = {k.id: v for k, v in mapping.items()}
    for n in topo(roots):
        if n.id in memo:
            continue
        if not n.args:
            memo[n.id] = n
            continue
        args = [memo[a.id] for a in n.args]
        if all(x is y for x, y in zip(args, n.args)):
            memo[n.id] = n
        else:
            memo[n.id] = rebuild(n, args)
    return [memo[r.id] for r in roots]


def rebuild(n, a):
    op = n.op
    f = {'add': add, 'sub': sub, 'mul': mul, 'neg': neg, 'div': div, 'idiv': floordiv, 'mod': mod,
         'pow': power, 'ite': ite, 'lt': lt, 'le': le, 'eq': eq, 'and': band, 'or': bor, 'not': bnot,
         'abs': absv, 'min': minv, 'max': maxv, 'toreal': toreal, 'f32': f32, 'isnan': isnan}.get(op)
    if f:
        return f(*a)
    if op in _NPF:
        return fn(op, *a)
    if op == 'roundd':
        return roundd(a[0], n.val)
    if op in ('ifloor', 'iceil', 'itrunc', 'irint'):
        return toint(op[1:], a[0])
    if op == 'wrap':
        return wrapint(a[0], *n.val)
    if op in ('civmonth', 'monthday') and isconst(a[0]):
        u, v = ('D', 'M') if op == 'civmonth' else ('M', 'D')
        return dt_convert(a[0], u, v, False)
    return mk(op, a, n.val, n.typ)


def show(n, depth=6):
    if n.op == 'const':
        return repr(n.val)
    if n.op == 'var':
        return n.val
    if depth == 0:
        return f'#{n.id}'
    a = [show(x, depth-1) for x in n.args]
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '=='}.get(n.op)
    if sym:
        return f'({a[0]} {sym} {a[1]})'
    return f'{n.op}{"" if n.val is None else n.val}({", ".join(a)})'


# -- numeric evaluation -----------------------------------------------------------

def evaluate(roots, env, ideal=False, all_nodes=False):
    """Vectorised evaluation.  env: variable name -> ndarray.  ideal=True drops the
    float32 casts and the rounding to >= 5 decimals (the real-number reading)."""
    order = topo(roots)
    vals = {}
    with np.errstate(all='ignore'):
        for n in order:
            vals[n.id] = _ev(n, [vals[a.id] for a in n.args], env, ideal)
    if all_nodes:
        return order, vals
    return [vals[r.id] for r in roots]


def _nat(*xs):
    m = False
    for x in xs:
        m = m | (np.asarray(x) == NAT)
    return m


def _ev(n, a, env, ideal):
    op = n.op
    if op == 'const':
        if n.typ == 'R':
            return np.float64(float(n.val))
        if n.typ == 'I':
            return np.int64(n.val) if -2**63 <= n.val < 2**63 else np.float64(n.val)
        return np.bool_(n.val)
    if op == 'var':
        return env[n.val]
    if op == 'add':
        return a[0] + a[1]
    if op == 'sub':
        return a[0] - a[1]
    if op == 'mul':
        return a[0] * a[1]
    if op == 'neg':
        return -a[0]
    if op == 'div':
        return np.asarray(a[0], float) / a[1]
    if op == 'idiv':
        return a[0] // a[1]
    if op == 'mod':
        return np.mod(a[0], a[1])
    if op == 'pow':
        return np.power(np.asarray(a[0], float), a[1])
    if op in _NPF:
        return _NPF[op](*a)
    if op == 'ite':
        return np.where(a[0], a[1], a[2])
    if op == 'lt':
        r = a[0] < a[1]
        return r & ~_nat(*a) if n.args[0].typ == 'I' else r
    if op == 'le':
        r = a[0] <= a[1]
        return r & ~_nat(*a) if n.args[0].typ == 'I' else r
    if op == 'eq':
        return a[0] == a[1]
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'not':
        return ~np.asarray(a[0], bool)
    if op == 'abs':
        return np.abs(a[0])
    if op == 'min':
        return np.minimum(a[0], a[1])
    if op == 'max':
        return np.maximum(a[0], a[1])
    if op == 'toreal':
        return np.asarray(a[0], np.float64)
    if op == 'f32':
        return a[0] if ideal else np.asarray(a[0], np.float32).astype(np.float64)
    if op == 'roundd':
        return a[0] if ideal and n.val >= 5 else np.round(a[0], n.val)
    if op == 'isnan':
        return np.isnan(a[0])
    if op in ('ifloor', 'iceil', 'itrunc', 'irint'):
        f = {'ifloor': np.floor, 'iceil': np.ceil, 'itrunc': np.trunc, 'irint': np.rint}[op]
        v = f(np.asarray(a[0], np.float64))
        bad = ~np.isfinite(v) | (np.abs(v) > 9e18)
        return np.where(bad, NAT, np.where(bad, 0, v).astype(np.int64))
    if op == 'wrap':
        bits, signed = n.val
        v = np.mod(np.asarray(a[0]), 2**bits)
        return np.where(v >= 2**(bits-1), v - 2**bits, v) if signed else v
    if op == 'civmonth':
        return np.asarray(a[0], 'i8').view('M8[D]').astype('M8[M]').view('i8')
    if op == 'monthday':
        return np.asarray(a[0], 'i8').view('M8[M]').astype('M8[D]').view('i8')
    if op.startswith('uf:'):
        return env[op](*a)
    raise Unsupported(f'numeric evaluation of {op}')
