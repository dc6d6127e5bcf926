"""Imports the real sunwhere sources with numpy/numexpr/pandas/math replaced by the symbolic stand-ins."""
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math as _math
import os
import sys
import types

import numpy as np

from . import terms as T
from . import npfun, nexpr, pdshim
from .arr import SymArray, as_sym
from .terms import Node

REPO_SRC = os.environ.get('SYMX_REPO_SRC', '/repo/src')


class _FloatMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, float)
    def __subclasscheck__(cls, o): return issubclass(o, float)
    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)


class sfloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymArray) or type(x).__name__ == 'DataArray':
            x = x.item()
        if hasattr(x, '__symfloat__'):
            return x.__symfloat__()
        if isinstance(x, Node) and x.op != 'const':
            return T.toreal(x)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, int)
    def __subclasscheck__(cls, o): return issubclass(o, int)
    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)


class sint(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymArray) or type(x).__name__ == 'DataArray':
            x = x.item()
        if isinstance(x, Node) and x.op != 'const':
            return T.toint('trunc', x)
        return int(x, *a) if a else int(x)


class _BoolMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, bool)
    def __eq__(cls, o): return o is cls or o is bool
    def __hash__(cls): return hash(bool)


npfun._PYSHIM[sfloat] = float
npfun._PYSHIM[sint] = int


class _Math(types.ModuleType):
    def __getattr__(self, k):
        f = getattr(_math, k)
        m = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2',
             'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh'}.get(k)

        def g(*a):
            a2 = [x.item() if isinstance(x, SymArray) and x.size == 1 else x for x in a]
            if any(isinstance(x, Node) for x in a2):
                a2 = [T.lift(x) for x in a2]
                if m:
                    return T.fn(m, *a2)
                if k in ('floor', 'ceil', 'trunc'):
                    return T.toint(k, a2[0])
                if k == 'radians':
                    return T.deg2rad(a2[0])
                if k == 'degrees':
                    return T.rad2deg(a2[0])
                if k == 'fmod':
                    return T.fmod(*a2)
                if k == 'isnan':
                    return T.isnan(a2[0])
                if k == 'isfinite':
                    return T.bnot(T.isnan(a2[0]))
                if k == 'fabs':
                    return T.absv(a2[0])
                if k == 'modf':
                    return (T.sub(a2[0], T.rfloor('trunc', a2[0])), T.rfloor('trunc', a2[0]))
                if k == 'pow':
                    return T.power(*a2)
                if k == 'hypot':
                    return a2[0].hypot(a2[1])
                raise T.Unsupported(f'math.{k}')
            return f(*a2)
        return g if callable(f) else f


MATH = _Math('math')
_SHIMS = {'numpy': npfun.NP, 'numexpr': nexpr.NE, 'pandas': pdshim.PD, 'math': MATH}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split('.')[0]
        if root in _SHIMS:
            if name == root:
                return _SHIMS[root]
            real = builtins.__import__(name, globals, locals, fromlist, level)
            return real if fromlist else _SHIMS[root]
    return builtins.__import__(name, globals, locals, fromlist, level)


def _sabs(x): return x.__abs__() if isinstance(x, (Node, SymArray)) else abs(x)


BUILTINS = dict(vars(builtins))
BUILTINS.update(__import__=_import, float=sfloat, int=sint, abs=_sabs)


class _Loader(importlib.machinery.SourceFileLoader):
    prefix = ''

    def exec_module(self, module):
        src = self.get_data(self.path)
        code = compile(src, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names      # top-level package -> directory that holds it

    def find_spec(self, fullname, path, target=None):
        root = fullname.split('.')[0]
        if root not in self.names:
            return None
        rel = fullname.replace('.', '/')
        base = os.path.join(self.names[root], rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(fullname, f, loader=_Loader(fullname, f),
                                                              submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(fullname, base + '.py', loader=_Loader(fullname, base + '.py'))
        return None


_installed = [False]


def _patch_xarray():
    import xarray as xr
    from xarray.core import indexing, variable
    from .arr import untoken, lift
    NV = variable.Variable
    orig_to_numpy = NV.to_numpy

    def to_numpy(self):
        if isinstance(self._data, SymArray):
            return self._data
        return as_sym(self.data) if isinstance(self.data, SymArray) else orig_to_numpy(self)
    NV.to_numpy = to_numpy
    ov = NV.values

    def values(self):
        if isinstance(self._data, SymArray):
            return self._data
        return ov.fget(self)
    NV.values = property(values, ov.fset)
    PA = indexing.PandasIndexingAdapter
    og = PA.get_duck_array

    def get_duck_array(self):
        a = og(self)
        k = a.dtype.kind
        if k in 'mMf' and a.size:
            flat = a.reshape(-1)
            vals = flat.astype('M8[ns]' if k == 'M' else 'm8[ns]' if k == 'm' else 'f8')
            raw = vals.view('i8').tolist() if k in 'mM' else vals.tolist()
            nodes = [untoken(v, k) for v in raw]
            if any(n is not None for n in nodes):
                o = np.empty(len(raw), object)
                for i, n in enumerate(nodes):
                    o[i] = n if n is not None else lift(raw[i])
                return SymArray(o.reshape(a.shape), 'M8[ns]' if k == 'M' else 'm8[ns]' if k == 'm' else 'f8')
        return a
    PA.get_duck_array = get_duck_array
    DA = xr.DataArray
    od = DA.to_numpy

    def da_to_numpy(self):
        return to_numpy(self.variable)
    DA.to_numpy = da_to_numpy


def install(extra=None):
    """make `import sunwhere` load the real sources symbolically (this process only)"""
    if _installed[0]:
        return
    _installed[0] = True
    names = {'sunwhere': REPO_SRC}
    names.update(extra or {})
    for k in [m for m in sys.modules if m.split('.')[0] in names]:
        del sys.modules[k]
    sys.meta_path.insert(0, _Finder(names))
    _patch_xarray()


def sunwhere():
    install()
    return importlib.import_module('sunwhere')
