"""SymArray: a numpy-like duck array whose elements may be symbolic terms.

The payload `_d` is an ordinary numeric ndarray while everything in it is concrete, and
an object ndarray of terms (Node) and Python numbers as soon as one element is symbolic.
`dtype` is what numpy would report.
"""
import sys

import numpy as np

from . import terms as T
from .terms import Node, Unsupported, lift

F8 = np.dtype('f8')
BOOL = np.dtype(bool)


def _unit(dt):
    return np.datetime_data(dt)[0]


def is_dt(dt):
    return dt.kind in 'mM'


def kind_of(dt):
    if dt.kind == 'f':
        return 'R'
    if dt.kind in 'iumM':
        return 'I'
    if dt.kind == 'b':
        return 'B'
    raise Unsupported(f'dtype {dt}')


def _unlift(n):
    return n.val if n.op == 'const' else n


def coerce_node(n, dt):
    """cast a term to the value set of dtype dt (value-preserving casts are no-ops)"""
    k = kind_of(dt)
    if k == 'R':
        n = T.toreal(n)
        if dt.itemsize <= 4:
            n = T.f32(n)
        return n
    if k == 'I':
        if n.typ == 'R':
            n = T.toint('trunc', n)
        if n.typ == 'B':
            n = T.ite(n, T.const(1), T.const(0))
        if dt.kind in 'iu' and dt.itemsize < 8:
            n = T.wrapint(n, dt.itemsize*8, dt.kind == 'i')
        return n
    return T.tobool(n)


def to_obj(a):
    """object ndarray of terms from any array-like"""
    if isinstance(a, SymArray):
        if a._d.dtype == object:
            return a._d
        a = a._d
    a = np.asarray(a)
    if a.dtype == object:
        return a
    if is_dt(a.dtype):
        v = a.view('i8')
    else:
        v = a
    out = np.empty(v.shape, object)
    flat = out.reshape(-1)
    for i, x in enumerate(v.reshape(-1).tolist()):
        flat[i] = lift(x)
    return flat.reshape(v.shape)


def _lift_el(x, dt):
    if isinstance(x, Node):
        return x
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return lift(int(x.astype(dt).view('i8')))
    return lift(x)


# tokens: concrete stand-ins for symbolic values inside pandas indexes -----------------
_tokens = {}
_token_of = {}
_TOK0 = int(np.datetime64('1702-01-01', 'ns').view('i8'))


def token(n, kind):
    """a concrete, unique value that stands for the term n in an index"""
    key = (n.id, kind)
    if key not in _token_of:
        k = len(_token_of)
        if kind in 'Mm':
            v = _TOK0 + 86400*10**9*k + 123456789
        else:
            v = -7.0e8 - k - 0.123456
        _token_of[key] = v
        _tokens[(kind if kind in 'Mm' else 'f', v)] = n
    return _token_of[key]


def untoken(v, kind):
    return _tokens.get((kind, v))


class SymArray:
    __slots__ = ('_d', 'dtype', '_base')
    __array_priority__ = 1000

    def __init__(self, data, dtype=None, base=None):
        if isinstance(data, SymArray):
            dtype = dtype or data.dtype
            data = data._d
        self._d = data
        if dtype is None:
            dtype = data.dtype
        self.dtype = np.dtype(dtype)
        self._base = base
        if data.dtype == object and data.size:
            flat = data.reshape(-1)
            for x in flat:
                if isinstance(x, Node) and x.op != 'const':
                    break
            else:
                self._d = _concretise(data, self.dtype)
                self._base = None

    # -- basic attributes
    @property
    def shape(self): return self._d.shape
    @shape.setter
    def shape(self, s): self._d.shape = s
    @property
    def ndim(self): return self._d.ndim
    @property
    def size(self): return self._d.size
    @property
    def T(self): return self.transpose()
    @property
    def nbytes(self): return self.size * self.dtype.itemsize
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def symbolic(self): return self._d.dtype == object
    @property
    def values(self): return self
    @property
    def data(self): return self
    @property
    def flat(self): return iter(self.ravel())
    @property
    def flags(self): return self._d.flags
    @property
    def real(self): return self

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        return f'SymArray({self._d!r}, {self.dtype})'

    def __hash__(self):
        return id(self)

    def __array__(self, dtype=None, copy=None):
        if not self.symbolic:
            return np.array(self._d, dtype=dtype, copy=True)
        f = sys._getframe(1)
        depth = 0
        while f is not None and depth < 40:
            name = f.f_code.co_filename
            if (('xarray' in name and ('indexes' in name or 'indexing' in name or 'coordinates' in name
                                       or 'alignment' in name or 'merge' in name))
                    or ('pandas' in name and 'indexes' in name)):
                k = self.dtype.kind
                out = np.empty(self.shape, 'i8' if k in 'mM' else 'f8')
                for i, x in np.ndenumerate(self._d):
                    x = lift(x)
                    if x.op == 'const':
                        out[i] = x.val
                    else:
                        out[i] = token(x, k if k in 'mM' else 'f')
                if k in 'mM':
                    u = _unit(self.dtype)
                    if u != 'ns':
                        raise Unsupported(f'index of {self.dtype}')
                    return out.view(f'{k}8[ns]')
                return out
            f = f.f_back
            depth += 1
        raise T.SymbolicConcretisation('a symbolic array was converted to a concrete one')

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return self.item().__index__()
    def __complex__(self): raise Unsupported('complex')

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        x = self._d.reshape(-1)[0]
        return bool(x if not isinstance(x, Node) else T.tobool(x))

    def __format__(self, spec):
        return format(self.item(), spec)

    def item(self, *a):
        if a:
            x = self._d.item(*a) if not self.symbolic else self._d.reshape(-1)[a[0]]
        else:
            if self.size != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            x = self._d.reshape(-1)[0]
        if not self.symbolic:
            return x.item() if hasattr(x, 'item') else x
        return _unlift(lift(x))

    def tolist(self):
        if not self.symbolic:
            return self._d.tolist()
        return self._d.tolist()

    # -- casting
    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dtype = np.dtype(dtype)
        if not self.symbolic:
            with np.errstate(all='ignore'):
                return SymArray(self._d.astype(dtype))
        if dtype == object:
            return SymArray(self._d.copy(), self.dtype)
        src = self.dtype
        if dtype.kind in 'USV':
            raise Unsupported('string cast')
        out = np.empty(self.shape, object)
        if is_dt(src) and is_dt(dtype):
            if src.kind != dtype.kind:
                raise TypeError(f'cannot cast {src} to {dtype}')
            u, v = _unit(src), _unit(dtype)
            for i, x in np.ndenumerate(self._d):
                out[i] = T.dt_convert(lift(x), u, v, src.kind == 'm')
            if v == 'generic':
                dtype = src
        elif is_dt(dtype):
            for i, x in np.ndenumerate(self._d):
                n = lift(x)
                if n.typ == 'R':
                    nn = T.isnan(n)
                    n = T.ite(nn, T.const(T.NAT), T.toint('trunc', n))
                out[i] = n
        elif is_dt(src):
            for i, x in np.ndenumerate(self._d):
                out[i] = coerce_node(lift(x), dtype)
        else:
            for i, x in np.ndenumerate(self._d):
                out[i] = coerce_node(lift(x), dtype)
        return SymArray(out, dtype)

    def view(self, dtype=None, *a):
        if dtype is None:
            return SymArray(self._d, self.dtype, self)
        if not self.symbolic:
            return SymArray(self._d.view(dtype))
        dtype = np.dtype(dtype)
        if is_dt(self.dtype) and dtype == np.dtype('i8') or is_dt(dtype) and self.dtype == np.dtype('i8'):
            return SymArray(self._d, dtype, self)
        if dtype == self.dtype:
            return SymArray(self._d, dtype, self)
        raise Unsupported(f'view {self.dtype} as {dtype}')

    # -- shaping
    def _w(self, d, view=False):
        return SymArray(d, self.dtype, self if view else None)

    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return self._w(self._d.reshape(s, **k), True)

    def ravel(self, order='C'): return self._w(self._d.ravel(order), True)
    def flatten(self, order='C'): return self._w(self._d.flatten(order))
    def squeeze(self, axis=None): return self._w(self._d.squeeze(axis), True)
    def transpose(self, *a): return self._w(self._d.transpose(*a), True)
    def swapaxes(self, a, b): return self._w(self._d.swapaxes(a, b), True)
    def copy(self, order='C'): return self._w(self._d.copy())
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def repeat(self, n, axis=None): return self._w(np.repeat(self._d, n, axis))
    def take(self, i, axis=None, **k): return np.take(self, i, axis)
    def fill(self, v): self[...] = v
    def resize(self, *s, refcheck=True):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        n = int(np.prod(s))
        d = self._d.reshape(-1)
        if n > d.size:
            d = np.concatenate([d, np.zeros(n-d.size, d.dtype)])
        self._d = d[:n].reshape(s).copy()

    def tobytes(self, *a): return self.__array__().tobytes()

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(self, T.add, axis, keepdims, 'sum')
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(self, T.mul, axis, keepdims, 'prod')
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size / max(1, np.size(s))
        return s / float(n)
    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(self, T.band, axis, keepdims, 'all')
    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(self, T.bor, axis, keepdims, 'any')
    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(self, T.minv, axis, keepdims, 'min')
    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(self, T.maxv, axis, keepdims, 'max')
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def dot(self, o): return np.dot(self, o)
    def cumsum(self, axis=None, **k): return np.cumsum(self, axis=axis)
    def round(self, decimals=0, out=None): return np.round(self, decimals)
    def clip(self, a_min=None, a_max=None, out=None, min=None, max=None, **k):
        return clip_(self, a_min if a_min is not None else min, a_max if a_max is not None else max)
    def conj(self): return self
    def nonzero(self): return np.nonzero(self)
    def argmax(self, *a, **k): return np.argmax(self, *a, **k)
    def argmin(self, *a, **k): return np.argmin(self, *a, **k)
    def argsort(self, *a, **k): return np.argsort(self, *a, **k)
    def sort(self, *a, **k): self[...] = np.sort(self, *a, **k)
    def cumprod(self, axis=None, **k): return np.cumprod(self, axis=axis)
    def trace(self, *a, **k): return np.trace(self, *a, **k)
    def __matmul__(self, o): return NotImplemented if _defer(o) else np.matmul(self, as_sym(o))
    def __rmatmul__(self, o): return NotImplemented if _defer(o) else np.matmul(as_sym(o), self)

    def __array_bool__(self):
        """concrete boolean array; symbolic entries are decided (forked on)"""
        if not self.symbolic:
            return np.asarray(self._d, bool)
        out = np.empty(self.shape, bool)
        for i, x in np.ndenumerate(self._d):
            out[i] = bool(T.tobool(lift(x)))
        return out

    # -- indexing
    def _index(self, k):
        if isinstance(k, tuple):
            return tuple(self._index1(x) for x in k)
        return self._index1(k)

    def _index1(self, x):
        if isinstance(x, SymArray):
            if x.dtype == BOOL:
                return x.__array_bool__()
            if not x.symbolic:
                return np.asarray(x._d)
            return x
        if isinstance(x, Node):
            return SymArray(np.array(x, object), 'i8')
        if isinstance(x, list):
            return self._index1(as_sym(x)) if any(isinstance(e, (Node, SymArray)) for e in x) else x
        if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
            return self._index1(as_sym(x))
        return x

    def __getitem__(self, k):
        if isinstance(k, SymArray) and k.dtype == BOOL and k.symbolic and k.shape == self.shape and k.ndim:
            return Masked(self, k)
        k = self._index(k)
        sym = [x for x in (k if isinstance(k, tuple) else (k,)) if isinstance(x, SymArray)]
        if sym:
            if isinstance(k, tuple):
                if len(k) != 1 and not (self.ndim == 1 and len(k) == 1):
                    raise Unsupported('symbolic index in a tuple')
                k = k[0]
            return symbolic_take(self, k)
        r = self._d[k]
        if not isinstance(r, np.ndarray):
            if self.symbolic:
                o = np.empty((), object)
                o[()] = r
                return SymArray(o, self.dtype)
            return SymArray(np.asarray(r))
        return SymArray(r, self.dtype, self)

    def __setitem__(self, k, v):
        if isinstance(k, SymArray) and k.dtype == BOOL and k.symbolic and k.shape == self.shape and k.ndim:
            w = v._full if isinstance(v, Masked) and v.pending(k) else None
            if w is None and not (isinstance(v, Masked) and v._got is None):
                w = as_sym(v)
                w = w.reshape(()) if w.size == 1 else None
            if w is not None:
                from .npfun import where_
                k, v = Ellipsis, where_(k, w if w.dtype == self.dtype else w.astype(self.dtype), self)
        k = self._index(k)
        if isinstance(k, SymArray) or isinstance(k, tuple) and any(isinstance(x, SymArray) for x in k):
            raise Unsupported('assignment through a symbolic index')
        v = as_sym(v)
        if not self.symbolic and not v.symbolic:
            with np.errstate(all='ignore'):
                self._d[k] = v._d
            return
        if not self.symbolic:
            if self._base is not None:
                raise Unsupported('symbolic assignment through a view of a concrete array')
            self._d = to_obj(self._d).copy()
        w = v if v.dtype == self.dtype else v.astype(self.dtype)
        w = to_obj(w)
        self._d[k] = w.item() if w.ndim == 0 else w

    # -- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        from . import npfun
        return npfun.ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import npfun
        return npfun.function(func, args, kwargs)


class Masked(SymArray):
    """x[mask] for a symbolic mask; which entries were chosen is decided (forked on) only when it is looked at"""
    __slots__ = ('_full', '_mask', '_got')

    def __init__(self, full, mask):
        self._full, self._mask, self._got = full.copy(), mask.copy(), None
        self.dtype = full.dtype
        self._base = None

    def pending(self, mask=None):
        return self._got is None and (mask is None or all(
            x is y for x, y in zip(to_obj(self._mask).reshape(-1), to_obj(mask).reshape(-1))))

    @property
    def _d(self):
        if self._got is None:
            self._got = self._full._d[self._mask.__array_bool__()]
        return self._got

    @_d.setter
    def _d(self, v):
        self._got = v


def masked_ufunc(f, inputs, out):
    """an elementwise function of undecided selections by the same mask and of numbers, or None"""
    first = next((x for x in inputs if isinstance(x, Masked) and x.pending()), None)
    if first is None:
        return None
    for x in inputs:
        if isinstance(x, Masked):
            if not (x.pending(first._mask) and x._mask.shape == first._mask.shape):
                return None
        elif not (isinstance(x, (bool, int, float, np.generic, Node)) or getattr(x, 'ndim', 1) == 0):
            return None
    if out is not None and (len(out) != 1 or not isinstance(out[0], Masked) or not out[0].pending(first._mask)):
        return None
    r = f([x._full if isinstance(x, Masked) else x for x in inputs])
    if out is not None:
        out[0]._full = r if r.dtype == out[0].dtype else r.astype(out[0].dtype)
        return out[0]
    return tuple(Masked(x, first._mask) for x in r) if isinstance(r, tuple) else Masked(r, first._mask)


def _concretise(data, dt):
    v = [x.val if isinstance(x, Node) else x for x in data.reshape(-1)]
    if is_dt(dt):
        return np.array([int(x) for x in v], 'i8').view(dt).reshape(data.shape)
    return np.array([float(x) if dt.kind == 'f' else x for x in v]).astype(dt).reshape(data.shape)


def _binop(name, ufn, rev=False):
    def f(self, other):
        if _defer(other):
            return NotImplemented
        a, b = (other, self) if rev else (self, other)
        return getattr(np, ufn)(a if isinstance(a, SymArray) else wrap_scalar(a), b if isinstance(b, SymArray) else wrap_scalar(b))
    f.__name__ = name
    setattr(SymArray, name, f)


def wrap_scalar(x):
    if isinstance(x, Node):
        o = np.empty((), object)
        o[()] = x
        return SymArray(o, {'R': 'f8', 'I': 'i8', 'B': '?'}[x.typ])
    return x


def _defer(o):
    return type(o).__module__.startswith(('xarray', 'pandas')) and hasattr(o, '__array_ufunc__') \
        and not isinstance(o, (np.generic,)) and hasattr(o, 'ndim')


for _n, _u in dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', mod='remainder',
                   floordiv='floor_divide', pow='power', lt='less', le='less_equal', gt='greater',
                   ge='greater_equal', eq='equal', ne='not_equal', **{'and': 'bitwise_and', 'or': 'bitwise_or',
                                                                      'xor': 'bitwise_xor'}).items():
    _binop(f'__{_n}__', _u)
    if _n not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        _binop(f'__r{_n}__', _u, True)


def _ip(name, ufn):
    def f(self, other):
        r = getattr(np, ufn)(self, wrap_scalar(other))
        if r.dtype != self.dtype:
            if not np.can_cast(r.dtype, self.dtype, 'same_kind'):
                raise TypeError(f"Cannot cast ufunc '{ufn}' output from {r.dtype} to {self.dtype}")
        if isinstance(self, Masked) and self.pending() and isinstance(r, Masked) and r.pending():
            self._full = r._full if r.dtype == self.dtype else r._full.astype(self.dtype)
            return self
        self[...] = r
        return self
    setattr(SymArray, f'__i{name}__', f)


for _n, _u in dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', mod='remainder',
                   floordiv='floor_divide', pow='power').items():
    _ip(_n, _u)
SymArray.__neg__ = lambda s: np.negative(s)
SymArray.__pos__ = lambda s: s
SymArray.__abs__ = lambda s: np.absolute(s)
SymArray.__invert__ = lambda s: np.invert(s)
SymArray.__round__ = lambda s, nd=0: np.round(s, nd or 0)
SymArray.__hash__ = lambda s: id(s)
SymArray.__divmod__ = lambda s, o: (s // o, s % o)


def as_sym(x, dtype=None):
    """SymArray from anything array-like (may share memory)"""
    if isinstance(x, SymArray):
        return x if dtype is None or x.dtype == np.dtype(dtype) else x.astype(dtype)
    if isinstance(x, Node):
        r = wrap_scalar(x)
        return r if dtype is None else r.astype(dtype)
    if hasattr(x, '__symarray__'):
        return as_sym(x.__symarray__(), dtype)
    if type(x).__module__.startswith('xarray') and hasattr(x, 'variable'):
        d = x.variable._data
        return as_sym(d if isinstance(d, SymArray) else x.values, dtype)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return SymArray(x if dtype is None else x.astype(dtype))
    if isinstance(x, (list, tuple)) and has_sym(x):
        parts = [as_sym(e) for e in x]
        from . import npfun
        r = npfun.stack_(parts)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(e, (Node, SymArray)) for e in x.reshape(-1)):
        ts = {lift(e).typ for e in x.reshape(-1)}
        dt = 'f8' if 'R' in ts else 'i8' if 'I' in ts else '?'
        r = SymArray(x, dt)
        return r if dtype is None else r.astype(dtype)
    a = np.asarray(x) if dtype is None else np.asarray(x, dtype)
    if a.dtype == object and a.size and all(type(e).__module__.startswith('pandas') for e in a.reshape(-1)):
        a = np.asarray(a, 'M8[ns]')
    return SymArray(a)


def has_sym(x):
    if isinstance(x, SymArray) or isinstance(x, Node) or hasattr(x, '__symarray__'):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def vmap(f, dt, *arrs):
    """apply a term-level function elementwise with broadcasting"""
    objs = [to_obj(a) for a in arrs]
    if len(objs) > 1:
        objs = np.broadcast_arrays(*objs)
    out = np.empty(objs[0].shape, object)
    if out.ndim == 0:
        out[()] = f(*[lift(o[()]) for o in objs])
        return SymArray(out, dt)
    its = [o.reshape(-1) for o in objs]
    flat = out.reshape(-1)
    for i in range(flat.size):
        flat[i] = f(*[lift(o[i]) for o in its])
    return SymArray(flat.reshape(out.shape), dt)


def symbolic_take(a, idx):
    """a[idx] for a symbolic integer index array along axis 0"""
    n = len(a)
    if a.ndim != 1:
        raise Unsupported('symbolic index into a multi-dimensional array')
    vals = to_obj(a)

    def pick(i):
        # negative indices wrap as in Python; out of range is an IndexError in numpy
        r = lift(vals[n-1])
        for k in range(n-2, -1, -1):
            r = T.ite(T.bor(T.eq(i, T.const(k)), T.eq(i, T.const(k-n))), lift(vals[k]), r)
        return r
    return vmap(pick, a.dtype, idx)


def reduce_(a, f, axis, keepdims, name):
    if not a.symbolic:
        r = getattr(a._d, name)(axis=axis, keepdims=keepdims)
        return SymArray(np.asarray(r))
    if name in ('all', 'any'):
        dt = BOOL
        a = a.astype(bool) if a.dtype != BOOL else a
    elif name in ('sum', 'prod') and a.dtype.kind in 'biu':
        dt = np.dtype('i8')
    else:
        dt = a.dtype
    d = to_obj(a)
    if axis is None:
        axes = tuple(range(d.ndim))
    else:
        axes = (axis,) if np.isscalar(axis) else tuple(axis)
        axes = tuple(x % d.ndim for x in axes)
    rest = [i for i in range(d.ndim) if i not in axes]
    m = d.transpose(rest + list(axes)).reshape([d.shape[i] for i in rest] + [-1])
    out = np.empty(m.shape[:-1], object)
    ident = {'sum': T.const(0.) if dt.kind == 'f' else T.const(0), 'prod': T.const(1), 'all': T.TRUE, 'any': T.FALSE}.get(name)
    for i in np.ndindex(out.shape):
        r = None
        for x in m[i]:
            x = lift(x)
            if r is None:
                r = x
            elif x.op == 'const' and r.op == 'const' or True:
                r = f(r, x)
        out[i] = r if r is not None else ident
    if keepdims:
        out = out.reshape([1 if i in axes else d.shape[i] for i in range(d.ndim)])
    return SymArray(out, dt)


def clip_(a, lo, hi):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r
