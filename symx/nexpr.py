"""Stand-in for the numexpr module: parses the expression text and evaluates it on SymArray."""
import ast
import sys
import types

import numpy as np
import numexpr as _real

from . import terms as T
from . import npfun
from .arr import SymArray, as_sym
from .terms import Unsupported

NP = npfun.NP

_FUN = {
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan',
    'arctan2': 'arctan2', 'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'log1p': 'log1p',
    'expm1': 'expm1', 'log2': 'log2', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'floor': 'floor', 'ceil': 'ceil', 'abs': 'absolute',
    'absolute': 'absolute', 'fmod': 'fmod', 'isnan': 'isnan', 'isfinite': 'isfinite', 'isinf': 'isinf', 'hypot': 'hypot',
    'sign': 'sign', 'trunc': 'trunc', 'rint': 'rint', 'round': 'rint', 'maximum': 'maximum', 'minimum': 'minimum',
    'fmax': 'fmax', 'fmin': 'fmin', 'signbit': 'signbit', 'copysign': 'copysign', 'arcsinh': None,
}

_OPS = {ast.Add: 'add', ast.Sub: 'subtract', ast.Mult: 'multiply', ast.Div: 'true_divide', ast.Mod: 'remainder',
        ast.Pow: 'power', ast.BitAnd: 'bitwise_and', ast.BitOr: 'bitwise_or', ast.BitXor: 'bitwise_xor',
        ast.FloorDiv: 'floor_divide'}
_CMP = {ast.Lt: 'less', ast.LtE: 'less_equal', ast.Gt: 'greater', ast.GtE: 'greater_equal', ast.Eq: 'equal',
        ast.NotEq: 'not_equal'}


def _call(name, *a):
    if all(not isinstance(x, SymArray) for x in a):
        return getattr(np, name)(*a)
    return npfun.ufunc(getattr(np, name), '__call__', a, None, {})


def _ev(n, env):
    if isinstance(n, ast.Expression):
        return _ev(n.body, env)
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            return np.bool_(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            return np.float64(v)
        raise Unsupported(f'numexpr constant {v!r}')
    if isinstance(n, ast.Name):
        return env(n.id)
    if isinstance(n, ast.BinOp):
        a, b = _ev(n.left, env), _ev(n.right, env)
        if isinstance(n.op, ast.Pow) and isinstance(a, SymArray) and isinstance(b, (int, np.integer)):
            return _call('power', a, int(b)) if a.dtype.kind != 'i' or b >= 0 else _call('power', a.astype('f8'), int(b))
        if isinstance(n.op, ast.LShift) or type(n.op) not in _OPS:
            raise Unsupported('numexpr operator')
        return _call(_OPS[type(n.op)], a, b)
    if isinstance(n, ast.UnaryOp):
        a = _ev(n.operand, env)
        if isinstance(n.op, ast.USub):
            return -a if not isinstance(a, SymArray) else _call('negative', a)
        if isinstance(n.op, ast.UAdd):
            return a
        if isinstance(n.op, ast.Invert):
            return _call('invert', a)
        raise Unsupported('numexpr unary operator')
    if isinstance(n, ast.Compare):
        if len(n.ops) != 1:
            raise Unsupported('chained comparison')
        return _call(_CMP[type(n.ops[0])], _ev(n.left, env), _ev(n.comparators[0], env))
    if isinstance(n, ast.Call):
        name = n.func.id
        args = [_ev(a, env) for a in n.args]
        kw = {k.arg: _ev(k.value, env) for k in n.keywords}
        if name == 'where':
            return npfun.where_(*args)
        if name in ('sum', 'prod', 'min', 'max'):
            a = as_sym(args[0])
            ax = args[1] if len(args) > 1 else kw.get('axis')
            return getattr(a, name)(axis=ax)
        if name in ('int',):
            return as_sym(args[0]).astype('i4')
        if _FUN.get(name):
            return _call(_FUN[name], *args)
        raise Unsupported(f'numexpr function {name}')
    raise Unsupported(f'numexpr syntax {type(n).__name__}')


_cache = {}


def evaluate(ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', sanitize=None,
             _frame_depth=1, **kw):
    f = sys._getframe(1)
    loc = local_dict if local_dict is not None else f.f_locals
    glo = global_dict if global_dict is not None else f.f_globals
    loc = dict(loc)
    loc.update(kw)
    return _run(ex, loc, glo, out)


def _run(ex, loc, glo, out=None):
    tree = _cache.get(ex)
    if tree is None:
        tree = _cache[ex] = ast.parse(ex.strip(), mode='eval')

    def env(name):
        if name in loc:
            v = loc[name]
        elif name in glo:
            v = glo[name]
        else:
            raise KeyError(name)
        if hasattr(v, '__symarray__'):
            v = v.__symarray__()
        s = as_sym(v)
        if s.dtype.kind in 'mM' and not s.symbolic:
            raise Unsupported('datetime in numexpr')
        return s
    r = as_sym(_ev(tree, env))
    if out is not None:
        out[...] = r
        return out
    return r


_last = {}


def re_evaluate(local_dict=None, **kw):
    raise Unsupported('re_evaluate')


class NumExpr:
    def __init__(self, ex, signature=(), **kw):
        self.ex, self.names = ex, [s[0] if isinstance(s, tuple) else s for s in signature]
        if not self.names:
            tree = ast.parse(ex, mode='eval')
            fn = {n.func.id for n in ast.walk(tree) if isinstance(n, ast.Call)}
            self.names = sorted({n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} - fn)

    def __call__(self, *a, out=None, **k):
        return _run(self.ex, dict(zip(self.names, a)), {}, out)


class _M(types.ModuleType):
    def __getattr__(self, k):
        return getattr(_real, k)


NE = _M('numexpr')
NE.evaluate = evaluate
NE.re_evaluate = re_evaluate
NE.NumExpr = NumExpr
NE.__symshim__ = True
