"""Stand-in for pandas: symbolic DatetimeIndex with a symbolic UTC offset function."""
import re
import types

import numpy as np
import pandas as _real

from . import terms as T
from .explore import decide
from .arr import SymArray, as_sym, has_sym, to_obj
from .terms import Node, Unsupported, lift

_zones = {}


# what zones of each kind are called
NAMES = {'pytz': 'Europe/Madrid', 'zoneinfo': 'Australia/Lord_Howe', 'fixed': 'UTC+05:30'}


class SymTZ:
    """A time zone whose UTC offset is an arbitrary function of the instant.

    kind: 'pytz' (has .zone), 'zoneinfo' (has .key) or 'fixed' (neither)."""

    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        if kind == 'pytz':
            self.zone = name
        elif kind == 'zoneinfo':
            self.key = name
        _zones[name] = self

    def __str__(self): return self.name
    def __repr__(self): return f'<{self.kind} {self.name}>'
    def __eq__(self, o): return self is o
    def __hash__(self): return hash(self.name)

    def offset(self, utc_seconds):
        if self.name == 'UTC':
            return T.const(0)
        if self.kind == 'fixed':
            return T.var('off_' + self.name, 'I')
        return T.mk('uf:off_' + self.name, (utc_seconds,), None, 'I')

    def utcoffset(self, *a): raise Unsupported('utcoffset')
    def tzname(self, *a): return self.name
    def localize(self, *a, **k): raise Unsupported('pytz localize')


class _UTC(SymTZ):
    pass


UTC = SymTZ('UTC', 'fixed')
UTC.zone = UTC.key = 'UTC'

_TICKS = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}
AmbiguousTimeError = ValueError


class SymIndex:
    """ticks: UTC ticks if tz-aware, wall-clock ticks if naive"""

    def __init__(self, ticks, unit, tz, scalar=False):
        self.ticks, self.unit, self.tz, self.scalar = list(ticks), unit, tz, scalar

    tzinfo = property(lambda s: s.tz)
    shape2 = None       # shape of a two-dimensional input, which pandas lets through

    def _as(self, o):
        o.shape2 = self.shape2
        return o

    def __len__(self):
        if self.scalar:
            raise TypeError("object of type 'Timestamp' has no len()")
        return len(self.ticks)

    @property
    def size(self): return len(self.ticks)
    @property
    def shape(self): return self.shape2 or (() if self.scalar else (len(self.ticks),))
    @property
    def ndim(self): return len(self.shape)
    @property
    def dtype(self): return np.dtype(f'M8[{self.unit}]') if self.tz is None else _real.DatetimeTZDtype(self.unit, 'UTC')
    def __bool__(self): raise ValueError('The truth value of a DatetimeIndex is ambiguous')
    def __iter__(self):
        for t in self.ticks:
            yield SymIndex([t], self.unit, self.tz, True)

    def _tick_s(self, n):
        return T.dt_convert(n, self.unit, 's', False)

    def wall(self):
        if self.tz is None:
            return list(self.ticks)
        k = _TICKS[self.unit]
        return [T.natprop(n, T.add(n, T.mul(self.tz.offset(self._tick_s(n)), T.const(k)))) for n in self.ticks]

    def tz_localize(self, tz, ambiguous='raise', nonexistent='raise'):
        if tz is None:
            return self._as(SymIndex(self.wall(), self.unit, None, self.scalar))
        if self.tz is not None:
            raise TypeError('Already tz-aware, use tz_convert to convert.')
        z = zone(tz)
        if z is UTC:
            return self._as(SymIndex(self.ticks, self.unit, UTC, self.scalar))
        k = _TICKS[self.unit]
        out = []
        for w in self.ticks:
            if T.isconst(T.isnat(w)) and T.isnat(w).val:
                out.append(w)
                continue
            if z.kind == 'fixed':
                out.append(T.natprop(w, T.sub(w, T.mul(z.offset(None), T.const(k)))))
                continue
            ws = self._tick_s(w)
            amb = T.mk('uf:amb_' + z.name, (ws,), None, 'B')
            if isinstance(ambiguous, str) and ambiguous in ('raise', 'infer'):
                # 'infer' needs the neighbours on both sides of the fold: a lone instant
                # inside the repeated hour cannot be inferred
                if bool(amb):
                    raise AmbiguousTimeError('Cannot infer dst time, there are no repeated times')
                loc = T.mk('uf:loc_' + z.name, (ws,), None, 'I')
            else:
                loc = T.mk('uf:loc_' + z.name, (ws,), None, 'I')
            sub = T.sub(w, T.mul(ws, T.const(k))) if k != 1 else T.const(0)
            out.append(T.natprop(w, T.add(T.mul(loc, T.const(k)), sub)))
        return SymIndex(out, self.unit, z, self.scalar)

    def tz_convert(self, tz):
        if self.tz is None:
            raise TypeError('Cannot convert tz-naive timestamps, use tz_localize to localize')
        if tz is None:
            return self._as(SymIndex(self.ticks, self.unit, None, self.scalar))
        return self._as(SymIndex(self.ticks, self.unit, zone(tz), self.scalar))

    astimezone = tz_convert

    def as_unit(self, unit):
        return SymIndex([T.dt_convert(n, self.unit, unit, False) for n in self.ticks], unit, self.tz, self.scalar)

    def __symarray__(self):
        # numpy reads a Timestamp as a datetime, to the microsecond
        return self._exact(self.scalar and self.unit == 'ns')

    def _exact(self, cut=False):
        o = np.empty(len(self.ticks), object)
        for i, n in enumerate(self.ticks):
            o[i] = T.dt_convert(T.dt_convert(n, 'ns', 'us', False), 'us', 'ns', False) if cut else n
        s = SymArray(o, f'M8[{self.unit}]')
        return s.reshape(self.shape)

    def __array__(self, dtype=None, copy=None):
        return self.__symarray__().__array__(dtype)

    def to_numpy(self, dtype=None, copy=False, **k):
        s = self._exact()
        return s if dtype is None else s.astype(dtype)

    @property
    def values(self): return self._exact()
    @property
    def asi8(self): return self._exact().astype('i8')
    def to_datetime64(self): return self._exact()
    def astype(self, dt):
        if self.tz is None:
            return self._exact().astype(dt)
        if np.dtype(dt).kind in 'iu':
            return self._exact().astype(dt)
        raise Unsupported('astype of an aware index')
    def copy(self, *a, **k): return SymIndex(self.ticks, self.unit, self.tz, self.scalar)
    def to_pydatetime(self): raise Unsupported('to_pydatetime')

    def strftime(self, fmt):
        if not self.scalar:
            raise Unsupported('strftime of an index')
        w = self.wall()[0]
        if decide(T.isnat(w)):
            raise ValueError('NaTType does not support strftime')
        return re.sub('%.', lambda m: '%' if m.group() == '%%' else T.token((w, self.unit, self.tz), m.group()), fmt)

    def __format__(self, spec): return self.strftime(spec) if spec else T.token((self.wall()[0], self.unit, self.tz), 'str')
    def __str__(self): return format(self, '')

    @property
    def value(self): return self._exact().astype('M8[ns]').astype('i8').item()
    def isna(self): return np.isnat(self._exact())
    def floor(self, freq): raise Unsupported('floor')

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return SymIndex([self.ticks[i]], self.unit, self.tz, True)
        if isinstance(i, SymArray):
            i = i.__array_bool__() if i.dtype == bool else i.__array__()
        return SymIndex(np.array(self.ticks + [None], object)[:-1][i], self.unit, self.tz)

    def __sub__(self, o):
        if isinstance(o, SymIndex):
            if (self.tz is None) != (o.tz is None):
                raise TypeError('Cannot subtract tz-naive and tz-aware datetime-like objects')
            return self._exact() - o._exact()
        r = self._exact() - o
        return to_datetime(r) if self.tz is None else SymIndex(to_obj(r).reshape(-1), np.datetime_data(r.dtype)[0], self.tz, self.scalar)

    def __add__(self, o):
        r = self._exact() + o
        return SymIndex(to_obj(r).reshape(-1), np.datetime_data(r.dtype)[0], self.tz, self.scalar)

    def __eq__(self, o):
        if isinstance(o, SymIndex):
            return self._exact() == o._exact()
        return NotImplemented
    __hash__ = object.__hash__


def zone(tz):
    if isinstance(tz, SymTZ):
        return tz
    s = str(tz)
    if s in _zones:
        return _zones[s]
    if s in ('UTC', 'utc', 'Etc/UTC', 'GMT'):
        return UTC
    raise KeyError(f'no time zone {s}')


def _isym(x):
    if isinstance(x, (list, tuple)) and any(isinstance(e, SymIndex) for e in x):
        return True
    return isinstance(x, SymIndex) or has_sym(x) or type(x).__name__ == 'DataArray' and isinstance(getattr(x.variable, '_data', None), SymArray)


TEXTS = {}      # texts that stand for an unknown time, and the times they stand for
CLOCK = []      # the unknown present, as an instant, and the time zone of the machine


def now(tz=None):
    i = SymIndex([CLOCK[0]], 'us', zone(tz) if tz is not None else CLOCK[1], True)
    return i if tz is not None else i.tz_localize(None)


def utcnow(tz=None):
    return SymIndex([CLOCK[0]], 'us', tz, True)


class _TimestampMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real.Timestamp) or isinstance(o, SymIndex) and o.scalar

    def __call__(cls, x=None, *a, tz=None, unit=None, **k):
        if isinstance(x, str) and x in TEXTS:
            x = TEXTS[x]
        if not _isym(x):
            return _real.Timestamp(*(() if x is None else (x,)), *a, **({'tz': tz} if tz is not None else {}), **({'unit': unit} if unit else {}), **k)
        if isinstance(x, SymIndex):
            i = SymIndex(x.ticks, x.unit, x.tz, True)
        else:
            i = to_datetime(x.item() if isinstance(x, SymArray) and x.dtype.kind != 'M' else x, unit=unit)
            i = SymIndex(i.ticks, i.unit, i.tz, True)
        if len(i.ticks) != 1:
            raise TypeError('Cannot convert input to Timestamp')
        if decide(T.isnat(i.ticks[0])):
            return _real.NaT
        if tz is not None:
            i = i.tz_localize(tz) if i.tz is None else i.tz_convert(tz)
        return i

    def __getattr__(cls, k):
        return getattr(_real.Timestamp, k)


class Timestamp(metaclass=_TimestampMeta):
    now = staticmethod(lambda tz=None: now(tz) if CLOCK else _real.Timestamp.now(tz))
    today = now
    utcnow = staticmethod(lambda: utcnow(UTC) if CLOCK else _real.Timestamp.utcnow())


def to_datetime(x, *a, utc=False, unit=None, **k):
    if isinstance(x, str) and x in TEXTS:
        x = TEXTS[x]
    elif isinstance(x, (list, tuple)) and any(isinstance(e, str) and e in TEXTS for e in x):
        x = [TEXTS.get(e, e) if isinstance(e, str) else e for e in x]
    if isinstance(x, str) and x in ('now', 'today') and CLOCK:
        x = utcnow() if x == 'now' else now()
    if isinstance(x, SymArray) and not x.symbolic:
        x = x._d
    if not _isym(x):
        r = _real.to_datetime(x, *a, utc=utc, unit=unit, **k)
        return r
    if isinstance(x, SymIndex):
        i = x
    elif isinstance(x, (list, tuple)) and any(isinstance(e, SymIndex) for e in x):
        i = SymIndex([e.ticks[0] for e in x], x[0].unit, x[0].tz)
    else:
        s = as_sym(x)
        if s.dtype.kind != 'M':
            if unit is None:
                unit = 'ns'
            s = s.astype('i8').astype(f'M8[{unit}]')
        u = np.datetime_data(s.dtype)[0]
        if u in ('D', 'h', 'm', 'M', 'Y'):
            s, u = s.astype('M8[s]'), 's'
        i = SymIndex(list(to_obj(s).reshape(-1)), u, None, s.ndim == 0)
        i.ticks = [lift(n) for n in i.ticks]
        if s.ndim > 1:
            i.shape2 = s.shape
    if utc:
        return i.tz_convert('UTC') if i.tz is not None else i.tz_localize('UTC')
    return i


class _PD(types.ModuleType):
    def __getattr__(self, k):
        return getattr(_real, k)


class _DatetimeIndexMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (SymIndex, _real.DatetimeIndex)) and not getattr(o, 'scalar', False)

    def __call__(cls, x=None, tz=None, **k):
        if _isym(x) or isinstance(x, (list, tuple)) and any(isinstance(e, str) and e in TEXTS for e in x):
            i = to_datetime(x)
            i = SymIndex(i.ticks, i.unit, i.tz)
            return i.tz_localize(tz) if tz is not None else i
        return _real.DatetimeIndex(x, tz=tz, **k)


class DatetimeIndex(metaclass=_DatetimeIndexMeta):
    pass


PD = _PD('pandas')
PD.to_datetime = to_datetime
PD.DatetimeIndex = DatetimeIndex
PD.Timestamp = Timestamp
PD.isnull = PD.isna = lambda x: (np.isnat(as_sym(x)) if as_sym(x).dtype.kind in 'mM' else np.isnan(as_sym(x))) if _isym(x) else _real.isna(x)
PD.notnull = PD.notna = lambda x: ~PD.isna(x)
PD.__symshim__ = True
