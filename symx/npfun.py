"""numpy ufuncs and functions on SymArray, and the numpy stand-in module."""
import types

import numpy as np

from . import terms as T
from .arr import (SymArray, as_sym, has_sym, vmap, to_obj, is_dt, _unit, wrap_scalar, clip_,
                  coerce_node, BOOL, masked_ufunc)
from .terms import Node, Unsupported, lift

F8 = np.dtype('f8')

# ---- ufuncs -----------------------------------------------------------------------

_U = {
    'add': T.add, 'subtract': T.sub, 'multiply': T.mul, 'divide': T.div, 'true_divide': T.div,
    'floor_divide': T.floordiv, 'remainder': T.mod, 'mod': T.mod, 'fmod': T.fmod, 'power': T.power,
    'float_power': T.power,
    'negative': T.neg, 'positive': lambda x: x, 'absolute': T.absv, 'fabs': T.absv, 'abs': T.absv,
    'sign': T.sign, 'square': lambda x: T.mul(x, x), 'reciprocal': lambda x: T.div(T.const(1.), x),
    'sqrt': lambda x: T.fn('sqrt', x), 'cbrt': lambda x: T.fn('cbrt', x),
    'sin': lambda x: T.fn('sin', x), 'cos': lambda x: T.fn('cos', x), 'tan': lambda x: T.fn('tan', x),
    'arcsin': lambda x: T.fn('asin', x), 'arccos': lambda x: T.fn('acos', x), 'arctan': lambda x: T.fn('atan', x),
    'arctan2': lambda y, x: T.fn('atan2', y, x),
    'exp': lambda x: T.fn('exp', x), 'log': lambda x: T.fn('log', x), 'log10': lambda x: T.fn('log10', x),
    'log2': lambda x: T.fn('log2', x), 'log1p': lambda x: T.fn('log1p', x), 'expm1': lambda x: T.fn('expm1', x),
    'exp2': lambda x: T.fn('exp2', x),
    'sinh': lambda x: T.fn('sinh', x), 'cosh': lambda x: T.fn('cosh', x), 'tanh': lambda x: T.fn('tanh', x),
    'hypot': lambda x, y: T.fn('sqrt', T.add(T.mul(x, x), T.mul(y, y))),
    'degrees': T.rad2deg, 'rad2deg': T.rad2deg, 'radians': T.deg2rad, 'deg2rad': T.deg2rad,
    'floor': lambda x: T.rfloor('floor', x), 'ceil': lambda x: T.rfloor('ceil', x),
    'trunc': lambda x: T.rfloor('trunc', x), 'rint': lambda x: T.rfloor('rint', x),
    'less': T.lt, 'less_equal': T.le, 'greater': lambda a, b: T.lt(b, a), 'greater_equal': lambda a, b: T.le(b, a),
    'equal': T.eq, 'not_equal': lambda a, b: T.bnot(T.eq(a, b)),
    'logical_and': lambda a, b: T.band(T.tobool(a), T.tobool(b)),
    'logical_or': lambda a, b: T.bor(T.tobool(a), T.tobool(b)),
    'logical_xor': lambda a, b: T.bxor(T.tobool(a), T.tobool(b)), 'logical_not': lambda a: T.bnot(T.tobool(a)),
    'bitwise_and': T.band, 'bitwise_or': T.bor, 'bitwise_xor': T.bxor,
    'invert': lambda a: ~a, 'bitwise_not': lambda a: ~a,
    'isnan': T.isnan, 'isfinite': lambda a: T.bnot(T.isnan(a)), 'isinf': lambda a: T.FALSE,
    'isnat': T.isnat, 'signbit': lambda a: T.lt(a, T.const(0.)),
    'copysign': lambda a, b: T.ite(T.lt(b, T.const(0.)), T.neg(T.absv(a)), T.absv(a)),
    'heaviside': lambda a, b: T.ite(T.lt(a, T.const(0.)), T.const(0.), T.ite(T.eq(a, T.const(0.)), b, T.const(1.))),
    'conjugate': lambda x: x, 'spacing': None,
}


def _minmax(f, ignore_nan):
    def g(a, b):
        if a.typ == b.typ == 'R':
            na, nb = T.isnan(a), T.isnan(b)
            if ignore_nan:
                return T.ite(na, b, T.ite(nb, a, f(a, b)))
        return f(a, b)
    return g


_U['minimum'] = _minmax(T.minv, False)
_U['maximum'] = _minmax(T.maxv, False)
_U['fmin'] = _minmax(T.minv, True)
_U['fmax'] = _minmax(T.maxv, True)


def _weak(x):
    return isinstance(x, (bool, int, float)) and not isinstance(x, np.generic)


def _prep(x):
    if _weak(x):
        return x
    if isinstance(x, Node):
        if x.op == 'const':
            return x.val
        return wrap_scalar(x)
    return as_sym(x)


def resolve(uf, ins):
    types_ = []
    for x in ins:
        if _weak(x):
            types_.append(type(x) if not isinstance(x, bool) else np.dtype(bool))
        else:
            types_.append(x.dtype)
    return uf.resolve_dtypes(tuple(types_) + (None,)*uf.nout)


def ufunc(uf, method, inputs, out, kw):
    name = uf.__name__
    if method == '__call__':
        r = masked_ufunc(lambda ins: ufunc(uf, method, ins, None, kw), inputs, out)
        if r is not None:
            return r
    if name in ('matmul', 'vecdot', 'matvec', 'vecmat') and method == '__call__':
        return _out(_objective(uf, inputs, **kw), out)
    if method == 'at':
        raise Unsupported('ufunc.at')
    if method in ('reduce', 'accumulate'):
        red = {'add': 'sum', 'multiply': 'prod', 'logical_and': 'all', 'logical_or': 'any', 'minimum': 'min',
               'maximum': 'max'}.get(name)
        a = as_sym(inputs[0])
        if method == 'reduce' and red:
            r = getattr(a, red)(axis=kw.get('axis', 0), keepdims=kw.get('keepdims', False))
            return _out(r, out)
        if method == 'accumulate' and name == 'add':
            return function(np.cumsum, (a,), {'axis': kw.get('axis', 0)})
        raise Unsupported(f'{name}.{method}')
    if method == 'outer':
        a, b = map(as_sym, inputs)
        return ufunc(uf, '__call__', (a.reshape(a.shape + (1,)*b.ndim), b), out, kw)
    if method != '__call__':
        raise Unsupported(f'{name}.{method}')
    ins = [_prep(x) for x in inputs]
    if not any(isinstance(x, SymArray) and x.symbolic for x in ins):
        args = [x._d if isinstance(x, SymArray) else x for x in ins]
        if kw.get('where', True) is not True:
            w = as_sym(kw['where'])
            if w.symbolic:
                raise Unsupported('ufunc where=')
            kw = dict(kw, where=w._d)
            if out is not None and as_sym(out[0]).symbolic:
                raise Unsupported('ufunc out/where')
            if out is not None:
                o = as_sym(out[0])
                with np.errstate(all='ignore'):
                    uf(*args, out=o._d, **kw)
                return out[0]
        with np.errstate(all='ignore'):
            r = uf(*args, **kw)
        r = tuple(SymArray(np.asarray(x)) for x in r) if isinstance(r, tuple) else SymArray(np.asarray(r))
        return _out(r, out)
    if name in ('modf', 'divmod'):
        if name == 'divmod':
            return ins[0] // ins[1], ins[0] % ins[1]
        t = np.trunc(ins[0])
        return ins[0] - t, t
    f = _U.get(name)
    if f is None:
        raise Unsupported(f'ufunc {name}')
    dts = resolve(uf, ins)
    rdt = dts[-1]
    if any(is_dt(d) for d in dts):
        r = _dt_ufunc(name, f, ins, dts)
    else:
        cast = []
        for x, d in zip(ins, dts):
            if isinstance(x, SymArray) and x.symbolic and x.dtype.kind == 'f' and x.dtype != d and d.kind == 'f' \
                    and d.itemsize < x.dtype.itemsize:
                x = x.astype(d)
            cast.append(x)
        if rdt.kind == 'f':
            if rdt.itemsize <= 4:
                g = lambda *a: T.f32(f(*a))
            else:
                g = lambda *a: T.toreal(f(*a))
        elif rdt.kind in 'iu':
            if rdt.itemsize < 8:
                g = lambda *a: T.wrapint(T._num(f(*a)), rdt.itemsize*8, rdt.kind == 'i')
            else:
                g = f
        else:
            g = f
        r = vmap(g, rdt, *cast)
    where = kw.get('where', True)
    if where is not True:
        base = as_sym(out[0]) if out else None
        if base is None:
            raise Unsupported('ufunc where= without out=')
        r = where_(where, r, base)
    dt = kw.get('dtype')
    if dt is not None:
        r = r.astype(dt)
    return _out(r, out)


def _out(r, out):
    if out is None:
        return r
    if isinstance(r, tuple):
        for x, o in zip(r, out):
            if o is not None:
                as_sym(o)[...] = x
        return out
    o = out[0]
    if not isinstance(o, SymArray):
        if r.symbolic:
            raise Unsupported('out= into a concrete numpy array')
        o[...] = r._d
        return o
    o[...] = r
    return o


def _dt_ufunc(name, f, ins, dts):
    rdt = dts[-1]
    conv = []
    for x, d in zip(ins, dts):
        if _weak(x):
            conv.append(SymArray(np.asarray(x)))
        elif is_dt(d) and x.dtype != d:
            conv.append(x.astype(d) if is_dt(x.dtype) else SymArray(x._d, d) if not x.symbolic is None else x)
        else:
            conv.append(x)
    kinds = [d.kind for d in dts[:-1]]

    def g(*a):
        nat = T.FALSE
        for x, k in zip(a, kinds):
            if k in 'mM':
                nat = T.bor(nat, T.isnat(x))
            elif x.typ == 'R':
                nat = T.bor(nat, T.isnan(x))
        if name in ('isnat',):
            return T.isnat(a[0])
        if name in ('isnan',):
            return T.isnat(a[0])
        if name == 'isfinite':
            return T.bnot(T.isnat(a[0]))
        if rdt.kind == 'b':
            r = f(*a)
            return T.band(T.bnot(nat), r) if name != 'not_equal' else T.bor(nat, r)
        r = f(*a)
        if rdt.kind in 'mM':
            if r.typ == 'R':
                r = T.toint('trunc', r)
            return T.ite(nat, T.const(T.NAT), r)
        if rdt.kind == 'f':
            return T.ite(nat, T.NANC, T.toreal(r))
        return r
    return vmap(g, rdt, *conv)


# ---- array functions -------------------------------------------------------------

_F = {}


def implements(*names):
    def deco(f):
        for n in names:
            _F[n] = f
        return f
    return deco


def _common(arrs):
    """common dtype with NEP 50 weak scalars"""
    strong = [a.dtype for a in arrs if not _weak(a)]
    if not strong:
        return np.result_type(*arrs)
    return np.result_type(*[a if _weak(a) else a.dtype for a in arrs])


@implements('where')
def where_(c, a=None, b=None):
    if a is None:
        return nonzero_(c)
    a, b = _prep(a), _prep(b)
    dt = _common([a, b])
    c = as_sym(c)
    sa, sb = (as_sym(x) if not _weak(x) else as_sym(np.asarray(x)) for x in (a, b))
    if not (c.symbolic or sa.symbolic or sb.symbolic):
        return SymArray(np.where(c._d, sa._d.astype(dt), sb._d.astype(dt)))
    sa, sb = sa.astype(dt), sb.astype(dt)
    return vmap(lambda c, x, y: T.ite(T.tobool(c), x, y), dt, c, sa, sb)


@implements('select')
def select_(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where_(c, v, r)
    return as_sym(r)


@implements('piecewise')
def piecewise_(x, condlist, funclist, *args, **kw):
    x = as_sym(x)
    if isinstance(condlist, SymArray) and condlist.ndim == x.ndim:
        condlist = [condlist]
    fs = list(funclist)
    r = SymArray(np.zeros(x.shape, x.dtype))
    if len(fs) == len(condlist) + 1:
        f = fs.pop()
        r = f(x, *args, **kw) if callable(f) else r + f
    for c, f in zip(condlist, fs):
        r = where_(c, f(x, *args, **kw) if callable(f) else f, r)
    return as_sym(r).astype(x.dtype)


@implements('clip')
def clip_f(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **kw):
    r = clip_(as_sym(a), a_min if a_min is not None else min, a_max if a_max is not None else max)
    return _out(r, (out,) if out is not None else None)


@implements('round', 'around', 'round_')
def round_(a, decimals=0, out=None):
    a = as_sym(a)
    if not a.symbolic:
        return SymArray(np.asarray(np.round(a._d, decimals)))
    if a.dtype.kind in 'iub':
        return a
    r = vmap(lambda x: coerce_node(T.roundd(x, decimals) if decimals else T.rfloor('rint', x), a.dtype), a.dtype, a)
    return _out(r, (out,) if out is not None else None)


@implements('fix')
def fix_(a, out=None): return np.trunc(as_sym(a))


@implements('isnat')
def isnat_(a): return ufunc(np.isnat, '__call__', (a,), None, {})


@implements('nan_to_num')
def nan_to_num_(a, copy=True, nan=0.0, posinf=None, neginf=None):
    a = as_sym(a)
    return where_(np.isnan(a), nan, a)


@implements('isclose')
def isclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    return np.abs(a - b) <= atol + rtol*np.abs(b)


@implements('allclose')
def allclose_(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(isclose_(a, b, rtol, atol).all())


@implements('array_equal')
def array_equal_(a, b, **k):
    a, b = as_sym(a), as_sym(b)
    return a.shape == b.shape and bool((a == b).all())


for _n in ('sum', 'prod', 'all', 'any', 'mean', 'min', 'max'):
    def _mk(n):
        def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
            if k and any(v is not np._NoValue and v is not None for v in k.values()):
                w = k.get('where', np._NoValue)
                if w is not np._NoValue:
                    ident = {'sum': 0, 'prod': 1, 'all': True, 'any': False}.get(n)
                    if ident is None:
                        raise Unsupported(f'{n}(where=)')
                    a = where_(w, a, ident)
            if keepdims is np._NoValue:
                keepdims = False
            return _out(getattr(as_sym(a), n)(axis=axis, keepdims=keepdims), (out,) if out is not None and out is not np._NoValue else None)
        return g
    _F[_n] = _mk(_n)
_F['amin'], _F['amax'] = _F['min'], _F['max']


def _nanred(n, ident):
    def g(a, axis=None, **k):
        a = as_sym(a)
        return getattr(where_(np.isnan(a), ident, a), n)(axis=axis)
    return g


_F['nansum'] = _nanred('sum', 0.)


def stack_(parts, axis=0):
    parts = [as_sym(p) for p in parts]
    return _cat(np.stack, parts, axis=axis)


def _cat(func, parts, *args, **kw):
    parts = [p if isinstance(p, SymArray) else as_sym(p) for p in parts]
    dt = np.result_type(*[p.dtype for p in parts])
    parts = [p.astype(dt) for p in parts]
    if not any(p.symbolic for p in parts):
        return SymArray(func([p._d for p in parts], *args, **kw))
    return SymArray(func([to_obj(p) for p in parts], *args, **kw), dt)


for _n in ('stack', 'concatenate', 'hstack', 'vstack', 'dstack', 'column_stack', 'concat', 'row_stack'):
    def _mk(n):
        def g(arrays, *args, **kw):
            kw.pop('dtype', None)
            kw.pop('casting', None)
            kw.pop('out', None)
            return _cat(getattr(np, n), list(arrays), *args, **kw)
        return g
    if hasattr(np, _n):
        _F[_n] = _mk(_n)


@implements('meshgrid')
def meshgrid_(*xi, copy=True, sparse=False, indexing='xy'):
    xi = [as_sym(x) for x in xi]
    r = np.meshgrid(*[to_obj(x) for x in xi], copy=copy, sparse=sparse, indexing=indexing)
    return type(r)(SymArray(o, x.dtype) for o, x in zip(r, xi))


@implements('broadcast_arrays')
def broadcast_arrays_(*xs, subok=False):
    xs = [as_sym(x) for x in xs]
    r = np.broadcast_arrays(*[to_obj(x) for x in xs])
    return tuple(SymArray(o, x.dtype) for o, x in zip(r, xs))


@implements('full_like')
def full_like_(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = as_sym(a)
    return NP.full(shape if shape is not None else a.shape, fill_value, dtype=dtype or a.dtype)


@implements('zeros_like')
def zeros_like_(a, dtype=None, order='K', subok=True, shape=None):
    a = as_sym(a)
    return NP.zeros(shape if shape is not None else a.shape, dtype=dtype or a.dtype)


@implements('empty_like')
def empty_like_(a, dtype=None, order='K', subok=True, shape=None): return zeros_like_(a, dtype, shape=shape)


@implements('ones_like')
def ones_like_(a, dtype=None, order='K', subok=True, shape=None):
    a = as_sym(a)
    return NP.ones(shape if shape is not None else a.shape, dtype=dtype or a.dtype)


@implements('copy')
def copy_(a, order='K', subok=False): return as_sym(a).copy()


@implements('copyto')
def copyto_(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = where_(where, src, dst)


@implements('putmask')
def putmask_(a, mask, values):
    a[...] = where_(mask, values, a)


@implements('place')
def place_(a, mask, vals):
    v = as_sym(vals)
    if v.size != 1:
        raise Unsupported('np.place with several values')
    a[...] = where_(mask, v.reshape(()), a)


@implements('shape')
def shape_(a): return as_sym(a).shape


@implements('ndim')
def ndim_(a): return as_sym(a).ndim


@implements('size')
def size_(a, axis=None): return as_sym(a).size if axis is None else as_sym(a).shape[axis]


@implements('unwrap')
def unwrap_(*a, **k): raise Unsupported('unwrap')


@implements('diff')
def diff_(a, n=1, axis=-1, **k):
    a = as_sym(a)
    for _ in range(n):
        sl = [slice(None)]*a.ndim
        s2 = list(sl)
        sl[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(sl)] - a[tuple(s2)]
    return a


@implements('cumsum')
def cumsum_(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not a.symbolic:
        return SymArray(np.cumsum(a._d, axis))
    d = np.moveaxis(to_obj(a), axis, 0).copy()
    for i in range(1, len(d)):
        for j in np.ndindex(d.shape[1:]):
            d[(i,)+j] = T.add(lift(d[(i-1,)+j]), lift(d[(i,)+j]))
    return SymArray(np.moveaxis(d, 0, axis), a.dtype)


def _objective(f, ops, *a, **k):
    """a numpy function made of products and sums, on arrays of terms"""
    ops = [as_sym(o) for o in ops]
    dt = np.result_type(*[o.dtype for o in ops])
    if dt.kind not in 'fiu' or dt.itemsize < 8:
        raise Unsupported(f'{f.__name__} of {dt}')
    r = np.asarray(f(*[to_obj(o) for o in ops], *a, **k), object)
    return SymArray(r, dt)


@implements('dot', 'matmul', 'inner', 'vdot', 'cross', 'kron', 'convolve', 'ediff1d', 'cumprod', 'trace')
def _products(*a, **k):
    raise NotImplementedError       # dispatched by name in function()


@implements('tensordot')
def tensordot_(a, b, axes=2):
    return _objective(np.tensordot, (a, b), axes)


@implements('norm')
def norm_(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm')
    x = as_sym(x)
    if ord == 2 and axis is None and x.ndim != 1:
        raise Unsupported('norm of a matrix')
    return np.sqrt((x*x).sum(axis=axis, keepdims=keepdims))


@implements('average')
def average_(a, axis=None, weights=None, returned=False, **k):
    if weights is None and not returned:
        return as_sym(a).mean(axis=axis)
    a, w = as_sym(a), as_sym(weights)
    if returned or (w.shape != a.shape and not (w.ndim == 1 and axis in (a.ndim-1, -1))):
        raise Unsupported('average')
    return (a*w).sum(axis=axis) / w.sum(axis=axis if w.shape == a.shape else None)


@implements('einsum')
def einsum_(spec, *ops, **kw):
    ops = [as_sym(o) for o in ops]
    dt = np.result_type(*[o.dtype for o in ops])
    r = np.einsum(spec, *[to_obj(o) for o in ops])
    return SymArray(np.asarray(r, object), dt)


@implements('outer')
def outer_(a, b, out=None):
    return _out(as_sym(a).ravel()[:, None] * as_sym(b).ravel()[None, :], None if out is None else (out,))


# -- orders: the comparisons needed are decided (forked on), so that each path has one order

def _missing(x, kind):
    return bool(T.isnat(x)) if kind in 'mM' else bool(T.isnan(x)) if x.typ == 'R' else False


def _order(xs, kind):
    """stable order of terms, missing ones last"""
    order = []
    for i, x in enumerate(xs):
        j = len(order)
        if not _missing(x, kind):
            while j and (_missing(xs[order[j-1]], kind) or bool(T.lt(x, xs[order[j-1]]))):
                j -= 1
        order.insert(j, i)
    return order


def _lanes(a, axis):
    a = as_sym(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return a, np.moveaxis(to_obj(a), axis, -1), axis


@implements('argsort')
def argsort_(a, axis=-1, kind=None, order=None, **k):
    a, d, axis = _lanes(a, axis)
    out = np.empty(d.shape, 'i8')
    for i in np.ndindex(d.shape[:-1]):
        out[i] = _order([lift(x) for x in d[i]], a.dtype.kind)
    return SymArray(np.moveaxis(out, -1, axis))


@implements('sort')
def sort_(a, axis=-1, kind=None, order=None, **k):
    a, d, axis = _lanes(a, axis)
    out = np.empty(d.shape, object)
    for i in np.ndindex(d.shape[:-1]):
        for j, o in enumerate(_order([lift(x) for x in d[i]], a.dtype.kind)):
            out[i+(j,)] = d[i+(o,)]
    return SymArray(np.moveaxis(out, -1, axis), a.dtype)


def _arg(which):
    def g(a, axis=None, out=None, keepdims=False):
        a, d, ax = _lanes(a, axis)
        if keepdims or out is not None:
            raise Unsupported('argmax/argmin')
        r = np.empty(d.shape[:-1], 'i8')
        for i in np.ndindex(d.shape[:-1]):
            xs = [lift(x) for x in d[i]]
            best = 0
            for j in range(1, len(xs)):
                if _missing(xs[best], a.dtype.kind):
                    break
                if _missing(xs[j], a.dtype.kind) or bool(
                        T.lt(xs[best], xs[j]) if which == 'max' else T.lt(xs[j], xs[best])):
                    best = j
            r[i] = best
        return SymArray(r) if r.ndim else np.int64(r[()])
    return g


_F['argmax'], _F['argmin'] = _arg('max'), _arg('min')


@implements('unique')
def unique_(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    a = as_sym(ar)
    if axis is not None and not (a.ndim == 1 and axis in (0, -1)):
        raise Unsupported('unique along an axis')
    xs = [lift(x) for x in to_obj(a).ravel()]
    first, inverse, counts = [], [0]*len(xs), []
    for o in _order(xs, a.dtype.kind):
        if first:
            x, y = xs[first[-1]], xs[o]
            m = _missing(x, a.dtype.kind), _missing(y, a.dtype.kind)
            same = equal_nan if all(m) else not any(m) and bool(T.eq(x, y))
        if not first or not same:
            first.append(o)
            counts.append(0)
        inverse[o] = len(first)-1
        counts[-1] += 1
    r = [SymArray(to_obj(a).ravel()[first] if first else to_obj(a).ravel(), a.dtype)]
    if return_index:
        r.append(SymArray(np.array(first, 'i8')))
    if return_inverse:
        r.append(SymArray(np.array(inverse, 'i8').reshape(a.shape)))
    if return_counts:
        r.append(SymArray(np.array(counts, 'i8')))
    return tuple(r) if len(r) > 1 else r[0]


@implements('searchsorted')
def searchsorted_(a, v, side='left', sorter=None):
    a = as_sym(a)
    v = as_sym(v)
    av = [lift(x) for x in to_obj(a)]
    dt = np.result_type(a.dtype, v.dtype)

    def g(x):
        r = T.const(0)
        for y in av:
            c = T.lt(y, x) if side == 'left' else T.le(y, x)
            r = T.add(r, T.ite(c, T.const(1), T.const(0)))
        return r
    return vmap(g, 'i8', v)


@implements('digitize')
def digitize_(x, bins, right=False):
    return searchsorted_(bins, x, side='left' if right else 'right')


@implements('interp')
def interp_(x, xp, fp, left=None, right=None, period=None):
    raise Unsupported('interp')


@implements('choose')
def choose_(a, choices, **k):
    r = as_sym(choices[-1])
    for i in range(len(choices)-2, -1, -1):
        r = where_(as_sym(a) == i, choices[i], r)
    return r


@implements('take')
def take_(a, indices, axis=None, out=None, mode='raise'):
    a = as_sym(a)
    if isinstance(indices, SymArray) and indices.symbolic:
        return a[indices] if axis in (None, 0) else a.swapaxes(0, axis)[indices].swapaxes(0, axis)
    i = np.asarray(indices._d if isinstance(indices, SymArray) else indices)
    return SymArray(np.take(a._d, i, axis=axis, mode=mode), a.dtype)


@implements('result_type')
def result_type_(*a):
    return np.result_type(*[x.dtype if isinstance(x, SymArray) else x for x in a])


@implements('isscalar')
def isscalar_(x): return False


def _boolean(a):
    a = as_sym(a)
    if not a.symbolic:
        return np.asarray(a._d)
    return a.astype(bool).__array_bool__() if a.dtype != BOOL else a.__array_bool__()


@implements('nonzero')
def nonzero_(a): return tuple(SymArray(x) for x in np.nonzero(_boolean(a)))


@implements('flatnonzero')
def flatnonzero_(a): return SymArray(np.flatnonzero(_boolean(a)))


@implements('argwhere')
def argwhere_(a): return SymArray(np.argwhere(_boolean(a)))


@implements('count_nonzero')
def count_nonzero_(a, axis=None, keepdims=False):
    return np.count_nonzero(_boolean(a), axis=axis, keepdims=keepdims)


@implements('polyval')
def polyval_(p, x):
    y = as_sym(x)*0.
    for c in as_sym(p):
        y = y*x + c
    return y


def function(func, args, kwargs):
    name = func.__name__
    if _F.get(name) is _products:
        n = 1 if name in ('ediff1d', 'cumprod', 'trace') else 2
        return _objective(func, args[:n], *args[n:], **kwargs)
    f = _F.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name.startswith('atleast_'):
        r = [as_sym(x) for x in args]
        args = [SymArray(to_obj(x), x.dtype) for x in r]
        if len(args) > 1:
            return tuple(function(func, [x], {}) for x in args)
    # generic: structural numpy functions work on object arrays
    syms = []

    def conv(x):
        if isinstance(x, SymArray):
            syms.append(x)
            return to_obj(x)
        if isinstance(x, (list, tuple)):
            return type(x)(conv(e) for e in x)
        if hasattr(x, '__symarray__') or isinstance(x, Node) or type(x).__module__.startswith('xarray'):
            return conv(as_sym(x))
        return x
    if name not in _STRUCTURAL:
        raise Unsupported(f'numpy function {name}')
    r = func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})
    dt = syms[0].dtype

    def back(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return SymArray(x, dt)
        if isinstance(x, (list, tuple)):
            return type(x)(back(e) for e in x)
        if isinstance(x, Node):
            return wrap_scalar(x)
        return x
    return back(r)


_STRUCTURAL = {'reshape', 'ravel', 'transpose', 'squeeze', 'expand_dims', 'moveaxis', 'rollaxis', 'swapaxes',
               'broadcast_to', 'tile', 'repeat', 'flip', 'fliplr', 'flipud', 'roll', 'split', 'array_split',
               'hsplit', 'vsplit', 'dsplit', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'compress', 'extract',
               'delete', 'insert', 'append', 'resize', 'diagonal', 'take_along_axis', 'pad', 'rot90', 'kron',
               'permute_dims', 'matrix_transpose', 'require', 'iscomplexobj', 'may_share_memory',
               'shares_memory', 'unstack', 'real', 'diag'}


# ---- the stand-in for the numpy module ---------------------------------------------

class _NumpyModule(types.ModuleType):
    def __getattr__(self, k):
        v = getattr(np, k)
        if isinstance(v, types.FunctionType) or type(v).__name__ in ('_ArrayFunctionDispatcher',
                                                                     'builtin_function_or_method'):
            if k in ('errstate', 'seterr', 'geterr', 'finfo', 'iinfo', 'dtype', 'can_cast', 'promote_types',
                     'get_printoptions', 'set_printoptions', 'datetime_data', 'broadcast_shapes', 'ndindex'):
                return v
            w = _wrapper(v, k)
            setattr(self, k, w)
            return w
        if isinstance(v, np.ufunc):
            w = _UfuncWrapper(v)
            setattr(self, k, w)
            return w
        return v


def _foreign(x):
    return type(x).__module__.startswith(('xarray', 'pandas'))


def _wrapper(f, name):
    def g(*a, **k):
        if name.startswith('atleast_'):
            a = [as_sym(x) if _foreign(x) and has_sym(as_sym(x)) else x for x in a]
        if any(_foreign(x) and not hasattr(x, '__symarray__') for x in a):
            if any(_foreign(x) and type(x).__module__.startswith('xarray') for x in a):
                if name == 'where':
                    import xarray as xr
                    return xr.where(*a, **k)
                if name == 'clip':
                    return a[0].clip(*a[1:], **k)
                if name in ('round', 'around'):
                    return a[0].round(*a[1:], **k)
                return f(*a, **k)
        if _any_sym(a) or _any_sym(k.values()):
            a = [as_sym(x) if isinstance(x, Node) or hasattr(x, '__symarray__') else x for x in a]
            return function(f, a, k)
        r = f(*a, **k)
        return _wrapres(r)
    g.__name__ = name
    g.__wrapped__ = f
    return g


def _any_sym(xs):
    return any(has_sym(x) for x in xs)


def _wrapres(r):
    if type(r) is np.ndarray and r.dtype != object and r.dtype.kind in 'fiubmM':
        return SymArray(r)
    if isinstance(r, list) and r and all(type(x) is np.ndarray for x in r):
        return [_wrapres(x) for x in r]
    if type(r) is tuple and r and all(type(x) is np.ndarray for x in r):
        return tuple(_wrapres(x) for x in r)
    return r


class _UfuncWrapper:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if any(_foreign(x) and not hasattr(x, '__symarray__') for x in a):
            a = [wrap_scalar(x) for x in a]
            return self._uf(*a, **k)
        if _any_sym(a) or 'out' in k:
            out = k.pop('out', None)
            if len(a) > self._uf.nin:
                out, a = a[self._uf.nin:], a[:self._uf.nin]
            if out is not None and not isinstance(out, tuple):
                out = (out,)
            return ufunc(self._uf, '__call__', a, out, k)
        return _wrapres(self._uf(*a, **k))

    def __getattr__(self, n):
        if n in ('reduce', 'accumulate', 'outer', 'at'):
            def g(*a, **k):
                if n == 'reduce' and len(a) > 1:
                    k['axis'] = a[1]
                    a = a[:1]
                return ufunc(self._uf, n, a, k.pop('out', None), k)
            return g
        return getattr(self._uf, n)


NP = _NumpyModule('numpy')
NP.__dict__['__path__'] = []
NP.__dict__['__symshim__'] = True


def _dtype_arg(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, (np.datetime64, np.timedelta64)):
        return dtype.dtype
    if isinstance(dtype, _TypeShim):
        return np.dtype(dtype.t)
    if isinstance(dtype, SymArray):
        return dtype.dtype
    if dtype in _PYSHIM:
        return np.dtype(_PYSHIM[dtype])
    return np.dtype(dtype)


_PYSHIM = {}


def _array(x, dtype=None, *, copy=True, order='K', subok=False, ndmin=0, like=None):
    dtype = _dtype_arg(dtype)
    if hasattr(x, '__symarray__'):
        x = x.__symarray__()
    if type(x).__module__.startswith('xarray') and hasattr(x, 'variable'):
        x = as_sym(x)
    if isinstance(x, Node) and x.op == 'const':
        x = x.val
    if isinstance(x, (SymArray, Node)) or has_sym(x):
        s = as_sym(x)
        if dtype is not None and s.dtype != dtype:
            s = s.astype(dtype)
        elif copy:
            s = s.copy()
    else:
        if isinstance(x, np.ndarray) and not copy and (dtype is None or x.dtype == dtype):
            a = x
        else:
            a = np.array(x, dtype=dtype)
        if a.dtype == object or a.dtype.kind in 'USV':
            if ndmin > a.ndim:
                a = a.reshape((1,)*(ndmin-a.ndim) + a.shape)
            return a
        s = SymArray(a)
    if s.ndim < ndmin:
        s = s.reshape((1,)*(ndmin-s.ndim) + s.shape)
    return s


def _asarray(x, dtype=None, order=None, *, copy=None, like=None, **k):
    dtype = _dtype_arg(dtype)
    if isinstance(x, SymArray) and (dtype is None or x.dtype == dtype) and not copy:
        return x
    return _array(x, dtype, copy=bool(copy))


def _shape(s):
    if isinstance(s, SymArray):
        s = s.__array__().tolist()
    return s


def _full(shape, fill_value, dtype=None, order='C', **k):
    dtype = _dtype_arg(dtype)
    f = as_sym(fill_value)
    if dtype is None:
        dtype = f.dtype if not _weak(fill_value) else np.asarray(fill_value).dtype
    if not f.symbolic:
        return SymArray(np.full(_shape(shape), f._d, dtype))
    s = f.astype(dtype)
    return SymArray(np.array(np.broadcast_to(to_obj(s), _shape(shape))), dtype)


class _TypeShim:
    """np.float64(x), np.int32(x) ... usable as a dtype and as a type"""

    def __init__(self, t):
        self.t = t
        self.__name__ = t.__name__
        self.dtype = np.dtype(t)
        self.type = t

    def __call__(self, x=0, *a, **k):
        if hasattr(x, '__symarray__'):
            x = x.__symarray__()
        if isinstance(x, (SymArray, Node)) or has_sym(x):
            return as_sym(x).astype(self.dtype)
        if type(x).__module__.startswith('xarray') and hasattr(x, 'variable'):
            return x.astype(self.dtype)
        r = self.t(x, *a, **k)
        return SymArray(r) if isinstance(r, np.ndarray) else r

    def __eq__(self, o): return o is self or o == self.t or isinstance(o, _TypeShim) and o.t == self.t
    def __hash__(self): return hash(self.t)
    def __instancecheck__(self, o): return isinstance(o, self.t)
    def __getattr__(self, k): return getattr(self.t, k)
    def __repr__(self): return repr(self.t)


for _n in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64',
           'double', 'single', 'longdouble', 'float128', 'intp', 'int_', 'bool_', 'bool', 'long'):
    if hasattr(np, _n):
        setattr(NP, _n, _TypeShim(getattr(np, _n)))
NP.array = _array
NP.asarray = _asarray
NP.asanyarray = _asarray
NP.ascontiguousarray = _asarray
NP.asfarray = _asarray
NP.ndarray = SymArray
NP.full = _full
NP.zeros = lambda shape, dtype=float, order='C', **k: SymArray(np.zeros(_shape(shape), _dtype_arg(dtype)))
NP.ones = lambda shape, dtype=float, order='C', **k: SymArray(np.ones(_shape(shape), _dtype_arg(dtype)))
NP.empty = lambda shape, dtype=float, order='C', **k: SymArray(np.zeros(_shape(shape), _dtype_arg(dtype)))
NP.full_like, NP.zeros_like, NP.empty_like, NP.ones_like = full_like_, zeros_like_, empty_like_, ones_like_
NP.dtype = type('dtype', (), {'__new__': lambda cls, x, *a, **k: _dtype_arg(x)})
NP.isscalar = lambda x: np.isscalar(x) or isinstance(x, Node)
NP.vectorize = lambda f, **k: (lambda *a: _vectorize(f, a))


def _vectorize(f, arrs):
    arrs = broadcast_arrays_(*[as_sym(a) for a in arrs])
    out = np.empty(arrs[0].shape, object)
    for i in np.ndindex(out.shape):
        out[i] = as_sym(f(*[a[i] for a in arrs])).item()
    return as_sym(out)
