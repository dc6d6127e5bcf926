"""Oracles on the real code: each takes candidate points, runs sunwhere itself and reports the
first point at which the property, read as in properties.jsonl, is violated.

They never decide that a property holds; they only confirm or refute counterexample candidates."""
import functools
import itertools
import math
import os

import numpy as np

U = {'s': 1}
USECASES = ['sites', 'regular_grid', 'transect']
IMPL = [('psa', 'numpy'), ('psa', 'numexpr'), ('soltrack', 'numpy'), ('soltrack', 'numexpr'),
        ('iqbal', 'numpy'), ('iqbal', 'numexpr'), ('nrel', 'numexpr')]


def js(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


@functools.lru_cache(None)
def sw():
    import sunwhere
    return sunwhere


def sec(s):
    return int(np.datetime64(s, 's').astype('i8'))


def dt(t, unit='s'):
    return np.asarray(t, dtype='i8').astype(f'M8[{unit}]')


OK = {'violated': False}


def bad(msg, **params):
    return {'violated': True, 'message': msg, 'params': params}


# -- points ------------------------------------------------------------------------------

def subsolar(t):
    """approximate declination and longitude of the sub-solar point (degrees), own formula"""
    t = np.asarray(t, float)
    d = t/86400 - 10957.5
    g = np.radians(357.529 + .98560028*d)
    q = 280.459 + .98564736*d
    lam = np.radians(q + 1.915*np.sin(g) + .020*np.sin(2*g))
    e = np.radians(23.439 - 3.6e-7*d)
    dec = np.degrees(np.arcsin(np.sin(e)*np.sin(lam)))
    ra = np.degrees(np.arctan2(np.cos(e)*np.sin(lam), np.cos(lam)))
    eot = (q - ra + 180) % 360 - 180
    lon = (180 - (t % 86400)/240 - eot + 180) % 360 - 180
    return dec, lon


def std_points(n=4000, seed=1, t0='1950-01-01', t1='2100-01-01', specials=True):
    """deterministic batch: uniform, calendar edges, poles, sub-solar points, horizon, meridian"""
    rng = np.random.default_rng(seed)
    a, b = sec(t0), sec(t1)
    t = rng.integers(a, b, n)
    if specials:
        k = n//3
        y = rng.integers(1950, 2100, k)
        md = rng.choice(['01-01', '12-31', '02-28', '03-01', '12-30', '01-02', '06-30', '09-23', '02-29', '03-21', '06-21', '12-22'], k)
        leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
        md = np.where((md == '02-29') & ~leap, '03-01', md)
        v = np.array([f'{p}-{q}' for p, q in zip(y, md)], 'M8[s]').astype('i8')
        sod = rng.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86399], k)
        sod = np.where(rng.random(k) < .4, rng.integers(0, 86400, k), sod)
        v = v + sod
        t[:k] = np.where((v >= a) & (v < b), v, t[:k])
    lat = rng.uniform(-90, 90, n)
    lon = rng.uniform(-180, 180, n)
    kind = rng.integers(0, 12, n)
    dec, slon = subsolar(t)
    lat = np.where(kind == 0, rng.choice([-90, 90, 0, 23.4375, -23.4375, 89.9, -89.9, 60, -60], n), lat)
    lon = np.where(kind == 1, rng.choice([-180, 0, 179.9375, -179.9375, 90, -90, 15, -15], n), lon)
    lat = np.where(kind == 2, dec, lat)
    lon = np.where(kind == 2, slon, lon)
    lat = np.where(kind == 3, -dec, lat)
    lon = np.where(kind == 3, slon + 180, lon)
    lon = np.where(kind == 4, slon + rng.normal(0, .3, n), lon)
    lon = np.where(kind == 5, slon + 180 + rng.normal(0, .3, n), lon)
    # near the horizon
    L, D = np.radians(lat), np.radians(dec)
    with np.errstate(all='ignore'):
        z = np.radians(90.4 + rng.normal(0, .6, n))
        h = np.degrees(np.arccos((np.cos(z) - np.sin(L)*np.sin(D))/(np.cos(L)*np.cos(D))))
    hor = (kind >= 6) & (kind <= 8) & np.isfinite(h)
    lon = np.where(hor, slon + np.where(rng.random(n) < .5, h, -h), lon)
    lon = (lon + 180) % 360 - 180
    lat = lat.astype('f4').astype('f8')
    lon = lon.astype('f4').astype('f8')
    lon = np.where(lon >= 180, -180., lon)
    return t, np.clip(lat, -90, 90), lon


def gather(pts, std, seed, **kw):
    t, a, o = std_points(std, seed, **kw) if std else (np.zeros(0, 'i8'), np.zeros(0), np.zeros(0))
    if pts:
        p = np.array([[q[1], q[2]] for q in pts], float)
        t = np.concatenate([np.array([q[0] for q in pts], 'i8'), t])
        a, o = np.concatenate([p[:, 0], a]), np.concatenate([p[:, 1], o])
    return t, a, o


def call(uc, alg, eng, ref, t, lat, lon):
    """values at the points, each through use case uc; arrays of zenith, azimuth, declination, eot, ecf"""
    if uc == 'transect':
        r = sw().transect(dt(t), lat, lon, algorithm=alg, engine=eng, refraction=ref)
        return {k: np.asarray(getattr(r, k).values, float) for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')}
    f = getattr(sw(), uc)
    out = {k: [] for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')}
    for i in range(len(t)):
        r = f(dt(t[i:i+1]), lat[i:i+1], lon[i:i+1], algorithm=alg, engine=eng, refraction=ref)
        for k in out:
            out[k].append(float(getattr(r, k).values.reshape(-1)[0]))
    return {k: np.array(v) for k, v in out.items()}


def run(uc, alg, eng, ref, t, lat, lon):
    """as call; for sites and regular_grid only a subset when the batch is large"""
    return call(uc, alg, eng, ref, t, lat, lon)


def limit(uc, *arrs, n=300):
    if uc == 'transect':
        return arrs
    m = len(arrs[0])
    if m <= n:
        return arrs
    idx = np.unique(np.concatenate([np.arange(60), np.linspace(60, m-1, n-60).astype(int)]))
    return tuple(a[idx] for a in arrs)


def circ(d):
    return np.abs((np.asarray(d) + 180) % 360 - 180)


def first(mask):
    w = np.flatnonzero(mask)
    return int(w[0]) if len(w) else None


def where_(i, t, a, o):
    return f'{dt(t[i])} lat {float(a[i])!r} lon {float(o[i])!r}'


# -- plumbing -----------------------------------------------------------------------------

def outputs(reqs):
    outs = []
    for q in reqs:
        r = getattr(sw(), q['uc'])(dt(q['t']), q['lat'], q['lon'], algorithm=q['alg'], engine=q['eng'], refraction=q['ref'])
        outs.append({k: getattr(r, k).values.tolist() for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')})
    return {'violated': False, 'outs': outs}


def ptlist(t, a, o, i):
    return [[int(t[i]), float(a[i]), float(o[i])]]


# -- C01 ------------------------------------------------------------------------------------

def c01(alg, ref, ucs=USECASES, pts=(), std=3000, seed=1):
    for uc in ucs:
        t, a, o = limit(uc, *gather(pts, std, seed))
        try:
            x = call(uc, alg, 'numpy', ref, t, a, o)
        except Exception as e:
            x = e
        try:
            y = call(uc, alg, 'numexpr', ref, t, a, o)
        except Exception as e:
            y = e
        if isinstance(x, Exception) or isinstance(y, Exception):
            if isinstance(x, Exception) and isinstance(y, Exception):
                continue
            return bad(f'{uc} {alg}: only one engine raises: {x if isinstance(x, Exception) else y!r}', alg=alg, ref=ref, ucs=[uc],
                       pts=[[int(p), float(q), float(r)] for p, q, r in zip(t, a, o)][:400], std=0)
        true = call(uc, alg, 'numexpr', False, t, a, o) if ref else y
        elev = np.radians(90 - true['zenith'])
        cut = (np.abs(elev + .0145444) < 1e-4) | (np.abs(elev + .0145) < 1e-4) if ref else np.zeros(len(t), bool)
        s = np.maximum(np.sin(np.radians(y['zenith'])), 0)
        near = s < math.sin(math.radians(1.1))
        dz = np.abs(x['zenith'] - y['zenith'])
        # psa/numpy rounds the cosine of zenith to six decimals
        v = {'declination': np.abs(x['declination'] - y['declination']) > 1e-3,
             'eot': np.abs(x['eot'] - y['eot'])/4 > 1e-3,
             'ecf': np.abs(x['ecf'] - y['ecf']) > 1e-3,
             'zenith': np.where(s < math.sin(math.radians(3.1)), dz > .1, dz > 1e-3) & ~cut,
             'azimuth': circ(x['azimuth'] - y['azimuth'])*np.where(near, s, np.minimum(1, s*10)) > 1e-3}
        for k, m in v.items():
            m = m | (np.isnan(x[k]) != np.isnan(y[k]))
            i = first(m)
            if i is not None:
                return bad(f'{k} of {alg} differs between engines ({uc}, refraction={ref}) at {where_(i, t, a, o)}: '
                           f'numpy {x[k][i]!r} numexpr {y[k][i]!r}', alg=alg, ref=ref, ucs=[uc], pts=ptlist(t, a, o, i), std=0)
    return OK


# -- C02 ------------------------------------------------------------------------------------
RAW = ('ecf', 'eot', 'declination', 'zenith', 'azimuth')
UNITS = ('deg', 'rad', 'tst', 'utc', 'local')
AMS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')
CORR = ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')
DERIVED = (['dec', 'sza', 'saa', 'elevation', 'cosz', 'true_solar_time', 'daylight_length()', 'incidence(30., 20.)']
           + [f'{f}({u!r})' for f in ('sunrise', 'sunset') for u in UNITS]
           + [f'airmass({p!r})' for p in AMS] + [f'eth(am_correction={c!r})' for c in CORR])


def access(sp, name):
    return eval('sp.' + name, {'sp': sp})


def where(dims, idx, uc):
    d = dict(zip(dims, idx))
    i = d.get('time', 0)
    if uc == 'transect':
        return i, i, i
    if uc == 'sites':
        return i, d.get('location', 0), d.get('location', 0)
    return i, d.get('latitude', 0), d.get('longitude', 0)


def diff(a, b, tol, kind='num'):
    """do two scalars differ (numbers: beyond tol; times: beyond a millisecond)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'mM' or b.dtype.kind in 'mM':
        if a.dtype.kind != b.dtype.kind:
            return True
        if np.isnat(a) or np.isnat(b):
            return bool(np.isnat(a) != np.isnat(b))
        return abs(int(a.astype(f'{a.dtype.kind}8[ns]').astype('i8')) - int(b.astype(f'{b.dtype.kind}8[ns]').astype('i8'))) > 10**6
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) != math.isnan(b)
    if kind == 'azimuth':
        return float(circ(a - b)) > tol
    return abs(a - b) > tol*max(1, abs(a))


def c02(uc, alg, eng, ref, shapes, unit='s', seed=1, extra=True, at=()):
    rng = np.random.default_rng(seed)
    shapes = [tuple(s) for s in shapes]
    if extra:
        shapes = shapes + [{'sites': (3, 5), 'regular_grid': (3, 4, 5), 'transect': (7,)}[uc]]
    mul = {'s': 1, 'ms': 10**3, 'ns': 10**9}[unit]
    names = list(RAW) + DERIVED
    for s in shapes:
        nt, ny, nx = s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3
        for rep in range(4):
            t, a, o = std_points(max(nt, ny, nx), int(rng.integers(1e6)))
            t, a, o = t[:nt].copy(), a[:ny].copy(), o[:nx].copy()
            if rep == 1:             # duplicates
                t[-1], a[-1], o[-1] = t[0], a[0], o[0]
            if rep == 2:
                t, a, o = np.sort(t), np.sort(a), np.sort(o)
            if rep == 3:             # one day, so that nearby entries look alike
                t = t[0] - t[0] % 86400 + np.sort(rng.integers(0, 86400, nt))
            tt = t*mul + (rng.integers(0, mul, nt) if mul > 1 else 0)
            r = getattr(sw(), uc)(dt(tt, unit), a, o, algorithm=alg, engine=eng, refraction=ref)
            one = {}
            for k in names if rep < 2 and max(s) < 8 else RAW:
                v = access(r, k)
                idxs = list(np.ndindex(v.shape))
                if len(idxs) > 40:
                    idxs = [idxs[q] for q in np.unique(np.r_[0, len(idxs)-1, rng.integers(0, len(idxs), 40)])] + [q for q in map(tuple, at) if q in set(idxs)]
                for idx in idxs:
                    i, j, l = where(v.dims, idx, uc)
                    if (i, j, l) not in one:
                        one[i, j, l] = sw().sites(dt(tt[i:i+1], unit), a[j:j+1], o[l:l+1], algorithm=alg, engine=eng, refraction=ref)
                    w = access(one[i, j, l], k)
                    x, y = v.values[idx], w.values.reshape(-1)[0]
                    z = float(one[i, j, l].zenith.values.reshape(-1)[0])
                    sz = max(math.sin(math.radians(z)), 1e-9)
                    kind = 'azimuth' if k in ('azimuth', 'saa') else 'num'
                    tol = 1e-3 if sz > .02 else (.1 if kind == 'num' else 1e-3/sz)
                    if 'airmass' in k or 'eth' in k:
                        if abs(z - 90) < .02:
                            continue
                        tol = 1e-2
                    if k.startswith(('sunrise', 'sunset', 'daylight')):
                        # ill-conditioned at the edge of polar day and night
                        c = -math.tan(math.radians(a[j]))*math.tan(math.radians(float(one[i, j, l].dec.values[0])))
                        if abs(abs(c) - 1) < 1e-3:
                            continue
                    if diff(x, y, tol, kind):
                        return bad(f'{k}{idx} of {uc}{s} ({alg}/{eng}, refraction={ref}) is {x!r}, the single-point answer is {y!r} for '
                                   f'{dt(tt, unit)[i]} {a[j]!r} {o[l]!r}', uc=uc, alg=alg, eng=eng, ref=ref, shapes=[s], unit=unit, seed=seed, extra=False)
    return OK


# -- C04 ------------------------------------------------------------------------------------

def c04(uc, alg, eng, ref, nt, ny, nx, pattern=None, seed=1):
    import itertools
    names = list(RAW) + DERIVED
    pats = [tuple(pattern)] if pattern else []
    pats += [p for p in itertools.product((False, True), repeat=nt) if any(p)][:40]
    for rep, pat in enumerate(pats):
        t, a, o = std_points(max(nt, ny, nx), seed + rep)
        t, a, o = dt(t[:nt]), a[:ny], o[:nx]
        tn = t.copy()
        tn[list(pat)] = np.datetime64('NaT')
        par = dict(uc=uc, alg=alg, eng=eng, ref=ref, nt=nt, ny=ny, nx=nx, pattern=list(pat), seed=seed)
        kw = dict(algorithm=alg, engine=eng, refraction=ref)
        good = getattr(sw(), uc)(t, a, o, **kw)
        try:
            r = getattr(sw(), uc)(tn, a, o, **kw)
            vals = {k: access(r, k) for k in names}
        except Exception as e:
            return bad(f'{uc} {alg}/{eng} with missing times {pat} raises {e!r}', **par)
        for k in names:
            w = access(good, k)
            v = vals[k]
            for idx in np.ndindex(v.shape):
                i, j, l = where(v.dims, idx, uc)
                x, y = v.values[idx], w.values[idx]
                miss = np.isnat(x) if np.asarray(x).dtype.kind in 'mM' else np.isnan(x)
                if 'time' in v.dims and pat[i]:
                    if not miss:
                        return bad(f'{k}{idx} is {x!r} where the time is missing ({uc} {alg}/{eng})', **par)
                elif diff(x, y, 1e-6, 'azimuth' if k in ('azimuth', 'saa') else 'num'):
                    return bad(f'{k}{idx} is {x!r} with missing times {pat}, {y!r} without ({uc} {alg}/{eng})', **par)
    return OK


# -- C03 ------------------------------------------------------------------------------------

def zones():
    import datetime
    import zoneinfo
    import pytz
    return {'pytz': [pytz.timezone('Europe/Madrid'), pytz.timezone('America/New_York')],
            'zoneinfo': [zoneinfo.ZoneInfo('Europe/Madrid'), zoneinfo.ZoneInfo('Australia/Lord_Howe')],
            'fixed': [datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(hours=-9))]}


def c03(uc, alg, eng, ref, shapes, tz=None, unit='s', seed=1):
    import pandas as pd
    from checks import c03spec as S
    rng = np.random.default_rng(seed)
    mul = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}[unit]
    for s in shapes:
        nt, ny, nx = s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3
        for rep in range(4):
            t, a, o = std_points(max(nt, ny, nx), int(rng.integers(1e6)))
            t, a, o = dt(t[:nt]*mul, unit), a[:ny], o[:nx]
            if rep % 2:  # places with all their digits
                a, o = rng.uniform(-90, 90, ny), rng.uniform(-180, 180, nx)
            z = zones()[tz][rep//2] if tz else None
            T = t if z is None else pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(z)
            wall = np.asarray(t if z is None else T.tz_localize(None)).astype('M8[ns]')
            par = dict(uc=uc, alg=alg, eng=eng, ref=ref, shapes=[s], tz=tz, unit=unit, seed=seed)
            head = f'{uc}{s} {alg}/{eng} {z or "naive"}: '
            try:
                r = getattr(sw(), uc)(T, a, o, algorithm=alg, engine=eng, refraction=ref)
                vals = {k: access(r, k) for k in list(RAW) + DERIVED}
            except Exception as e:
                return bad(head + f'raises {e!r}', **par)
            want = S.coords(uc, wall, a, o)

            def cmp(x, y):
                x, y = np.asarray(x), np.asarray(y)
                if y.dtype.kind == 'M':
                    x, y = x.astype('M8[ns]'), y.astype('M8[ns]')
                return x.shape == y.shape and bool(np.all(x == y))
            for k, v in vals.items():
                if not S.dims_ok(k, v.dims, uc):
                    return bad(head + f'{k} has dimensions {v.dims}', **par)
                need = set(v.dims) | ({'time', 'latitude', 'longitude'} if S.full(k) else set())
                for c in need - set(v.coords):
                    return bad(head + f'{k} has no coordinate {c}', **par)
                for c in v.coords:
                    if c in want and (v.coords[c].dims != (want[c][0],) or not cmp(v.coords[c].values, want[c][1])):
                        return bad(head + f'coordinate {c} of {k} is {v.coords[c].values} along {v.coords[c].dims}, expected {want[c][1]}', **par)
            for k in ('latitude', 'longitude'):
                v = getattr(r, k)
                if v.dims != (want[k][0],) or not cmp(v.values, want[k][1]):
                    return bad(head + f'{k} is reported as {v.values} along {v.dims}, given {want[k][1]}', **par)
            if not cmp(r.times.tz_convert(None), t.astype('M8[ns]')) or not cmp(r.times.tz_localize(None), wall):
                return bad(head + f'times are reported as {r.times}, given {T}', **par)
            for k, x in (('algorithm', alg), ('engine', eng), ('has_refraction', ref), ('usecase', uc)):
                if getattr(r, k) != x:
                    return bad(head + f'{k} is reported as {getattr(r, k)!r}, given {x!r}', **par)
    return OK


# -- C18 ------------------------------------------------------------------------------------

def c18(uc, alg, eng, ref, shape, seed=1):
    import importlib
    rng = np.random.default_rng(seed)
    s = tuple(shape)
    nt, ny, nx = s if uc == 'regular_grid' else (s[0], s[1], s[1]) if uc == 'sites' else (s[0],)*3
    par = dict(uc=uc, alg=alg, eng=eng, ref=ref, shape=list(s), seed=seed)
    for rep in range(30):
        t, a, o = std_points(max(nt, ny, nx), int(rng.integers(1e6)))
        t, a, o = dt(t[:nt]), a[:ny], o[:nx]
        r = getattr(sw(), uc)(t, a, o, algorithm=alg, engine=eng, refraction=ref)
        head = f'{uc}{s} {alg}/{eng} refraction={ref} {t} {a} {o}: '
        pub = {k: np.asarray(access(r, k).values, float) for k in ('zenith', 'sza', 'azimuth', 'saa', 'declination', 'dec', 'elevation', 'cosz', 'ecf', 'eot')}
        # zenith is hard to compare where it is ill-conditioned
        exp = {'sza': pub['zenith'], 'saa': pub['azimuth'], 'dec': pub['declination'], 'elevation': 90 - pub['zenith'],
               'cosz': np.cos(np.radians(pub['zenith']))}
        raw = importlib.import_module(f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}').sunpos(
            t, o, a, {'sites': 1, 'regular_grid': 2, 'transect': 0}[uc], ref)
        for k in ('zenith', 'azimuth', 'declination'):
            exp[k] = np.degrees(np.asarray(raw[k], float)).reshape(pub[k].shape)
        for k in ('ecf', 'eot'):
            exp[k] = np.asarray(raw[k], float).reshape(pub[k].shape)
        for k, v in exp.items():
            d = np.abs(pub[k] - v)
            m = ~((d < 1e-6) | (np.isnan(pub[k]) & np.isnan(v)))
            i = first(m.reshape(-1))
            if i is not None:
                return bad(head + f'{k} is {pub[k].reshape(-1)[i]!r}, expected {v.reshape(-1)[i]!r}', **par)
        if not np.array_equal(np.asarray(r.local_standard_time.tz_convert(None)), np.asarray(r.times.tz_convert(None))):
            return bad(head + f'local standard time {r.local_standard_time}', **par)
        for k, q in (('sza', 'zenith'), ('saa', 'azimuth'), ('dec', 'declination'), ('elevation', 'zenith'), ('cosz', 'zenith')):
            if access(r, k).dims != access(r, q).dims:
                return bad(head + f'{k} has dimensions {access(r, k).dims}', **par)
    return OK


# -- C21 ------------------------------------------------------------------------------------

def hist_requests(uc, alg, eng, ref):
    """requests that differ in a single respect"""
    rng = np.random.default_rng(5)
    n = 5
    t, a, o = std_points(n, 3)
    t = np.sort(t)
    base = dict(uc=uc, alg=alg, eng=eng, ref=ref, t=t.tolist(), lat=a.tolist(), lon=o.tolist())
    out = [base]
    for k in ('t', 'lat', 'lon'):
        for i in (0, 2, n-1):
            q = {**base, k: list(base[k])}
            q[k][i] = q[k][i] + 3600*5 if k == 't' else -q[k][i]/2
            out.append(q)
        out.append({**base, k: base[k][::-1]})
        out.append({**base, k: [base[k][0]] + base[k][1:-1][::-1] + [base[k][-1]]})
    out.append({**base, 'ref': not ref})
    out += [{**base, 'uc': u} for u in USECASES if u != uc]
    out += [{**base, 'alg': a1, 'eng': e1} for a1, e1 in IMPL]
    out += [{**base, 't': base['t'][:3], 'lat': base['lat'][:3], 'lon': base['lon'][:3]}]
    out += [{**base, 't': [x*1 for x in base['t']], 'lat': [99.]*n}]
    out += [{**base, 't': base['t'][:4] + [None]}]
    return out


def hist_run(reqs):
    outs = []
    for q in reqs:
        try:
            t = np.array(['NaT' if x is None else x for x in q['t']], dtype='M8[s]') if None in q['t'] else dt(q['t'])
            r = getattr(sw(), q['uc'])(t, q['lat'], q['lon'], algorithm=q['alg'], engine=q['eng'], refraction=q['ref'])
            outs.append([[None if not np.isfinite(x) else round(float(x), 7) for x in np.asarray(access(r, k).values, float).reshape(-1)]
                         for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf', 'airmass()', 'sunrise()')])
        except Exception as e:
            outs.append(repr(e))
    return {'violated': False, 'outs': outs}


def c21(uc, alg, eng, ref, first=None, given=None, seed=1):
    import copy
    import json
    import subprocess
    import sys
    import pandas as pd
    par = dict(uc=uc, alg=alg, eng=eng, ref=ref, first=first, given=given)
    names = list(RAW) + DERIVED + ['eth(1000.)', 'incidence(0., 0.)', 'latitude', 'longitude', 'times', 'times_utc', 'timezone', 'algorithm', 'engine', 'has_refraction', 'usecase']
    head = f'{uc} {alg}/{eng} refraction={ref}: '
    kw = dict(algorithm=alg, engine=eng, refraction=ref)

    def val(r, k):
        v = access(r, k)
        if hasattr(v, 'dims'):
            return (v.name, v.dims, np.array(v.values).tobytes(), {c: np.array(v.coords[c].values).tobytes() for c in v.coords}, dict(v.attrs))
        return str(v) + (v.tz_convert(None).asi8.tobytes().hex() if isinstance(v, pd.Index) else '')
    for rep in range(3):
        t, a, o = std_points(4, seed + rep)
        if rep == 0:
            a[0], a[1], o[0] = 90, -90, -180
        for k, v in (given or {}).items():
            {'t': t, 'a': a, 'o': o}[k[0]][int(k[1:])] = v
        n = {'sites': (3, 4, 4), 'regular_grid': (3, 4, 2), 'transect': (4, 4, 4)}[uc]
        for kind in ('array', 'ns', 'aware') if rep == 0 else ('array',):
            T = dt(t[:n[0]])
            if kind == 'ns':
                T = T.astype('M8[ns]')
            if kind == 'aware':
                T = pd.DatetimeIndex(T).tz_localize('Europe/Madrid')
            A, O = a[:n[1]].copy(), o[:n[2]].copy()
            T0, A0, O0 = copy.deepcopy(T), A.copy(), O.copy()
            r = getattr(sw(), uc)(T, A, O, **kw)
            r2 = getattr(sw(), uc)(T, A, O, **kw)
            solo = {}
            for k in names:
                solo[k] = val(getattr(sw(), uc)(T, A, O, **kw), k)
            for order in (names, names[::-1], names + names):
                rr = getattr(sw(), uc)(T, A, O, **kw)
                for k in order:
                    if val(rr, k) != solo[k]:
                        return bad(head + f'{k} depends on which accessors were read before', **par)
            for i, k in enumerate(names if rep == 0 and kind == 'array' else []):
                rr = getattr(sw(), uc)(T, A, O, **kw)
                access(rr, k)
                for j in names[(7*i) % len(names):] + names[:(7*i) % len(names)]:
                    if val(rr, j) != solo[j]:
                        return bad(head + f'{j} changes after reading {k}', **par)
            if not (np.array_equal(np.asarray(T), np.asarray(T0)) and np.array_equal(A, A0) and np.array_equal(O, O0)):
                return bad(head + 'an input array was modified', **par)
            # overwriting inputs or a result must not show elsewhere
            if kind != 'aware':
                T[...] = T[0] + np.timedelta64(12345, 's')
            A[...] = 1.
            O[...] = 2.
            for k in names:
                if val(r, k) != solo[k]:
                    return bad(head + f'{k} changed when the input arrays were overwritten afterwards', **par)
            for k in names:
                v = access(r, k)
                if hasattr(v, 'dims') and v.values.dtype.kind == 'f' and v.values.flags.writeable:
                    v.values[...] = -5.
            for k in names:
                if val(r2, k) != solo[k]:
                    return bad(head + f'{k} changed when another result was overwritten', **par)
            if kind != 'aware' and np.any(A != 1.) or np.any(O != 2.):
                return bad(head + 'overwriting a result changed an input array', **par)
    # order of calls
    reqs = hist_requests(uc, alg, eng, ref)
    if first:
        reqs = reqs[:1] + [{**reqs[0], 'uc': first[0], 'alg': first[1], 'eng': first[2], 'ref': first[3]}] + reqs[1:]

    def go(rs):
        p = subprocess.run([sys.executable, __file__.replace('oracles.py', 'replay.py'), '-'], input=json.dumps({'oracle': 'hist_run', 'params': {'reqs': rs}}),
                           text=True, capture_output=True, timeout=200)
        line = [x for x in p.stdout.splitlines() if x.startswith('RESULT ')]
        return json.loads(line[0][7:])['outs']
    fwd, bwd = go(reqs), go(reqs[::-1])[::-1]
    for q, x, y in zip(reqs, fwd, bwd):
        if x != y:
            return bad(head + f'the answer to {q} depends on the calls made before it: {str(x)[:150]} or {str(y)[:150]}', **par)
    return OK


# -- C16 ------------------------------------------------------------------------------------

def c16(uc, alg='psa', eng='numexpr', ref=True, sizes=None, given=(), shapes=None, names=False, option=None, kw=None, seed=1):
    rng = np.random.default_rng(seed)
    par = dict(uc=uc, alg=alg, eng=eng, ref=ref, sizes=sizes, shapes=shapes, names=names, option=option, kw=kw)
    f = getattr(sw(), uc)

    def attempt(valid, what, call, **extra):
        try:
            call()
            got = None
        except ValueError as e:
            got = e
        except Exception as e:
            return bad(f'{uc}: {what} raises {e!r}', **{**par, **extra})
        if valid and got is not None:
            return bad(f'{uc}: {what} is rejected with {got!r}', **{**par, **extra})
        if not valid and got is None:
            return bad(f'{uc}: {what} is accepted', **{**par, **extra})

    def place_ok(a, o):
        return bool(np.all((np.asarray(a) >= -90) & (np.asarray(a) <= 90)) and np.all((np.asarray(o) >= -180) & (np.asarray(o) < 180)))
    t0 = sec('2021-03-04T10:20:30')
    if shapes:
        tt = dt(t0 + np.arange(int(np.prod(shapes[0])))*3600).reshape(shapes[0])
        a, o = rng.uniform(-80, 80, shapes[1]), rng.uniform(-170, 170, shapes[2])
        return attempt(all(len(s) < 2 for s in shapes), f'shapes {shapes}', lambda: f(tt, a, o)) or OK
    if names:
        cand = ['psa', 'soltrack', 'iqbal', 'nrel', 'numpy', 'numexpr', '', 'PSA', 'Nrel', 'xyz', 'none', 'NREL', 'spa', 'numexp', 'Numpy', 'default', 'auto', 'py', 'ne', 'sites', 'python']
        try:
            from symx.strs import vocabulary
            import pathlib
            cand += [v for v in vocabulary(pathlib.Path(sw().__file__).parent) if v not in cand][:400]
        except Exception:
            pass
        for x in cand:
            for y in (cand if x in cand[:4] else cand[4:8]):
                r = attempt((x, y) in IMPL, f'algorithm {x!r} with engine {y!r}', lambda: f(dt([t0]), [10.], [20.], algorithm=x, engine=y))
                if r:
                    return r
        return OK
    if kw is not None:
        return attempt(True, f'defaults with {kw}', lambda: f(dt([t0]), [10.], [20.], **kw)) or OK
    if option:
        sp = f(dt([t0]), [10.], [20.], algorithm=alg, engine=eng)
        spec = {'airmass': (AMS, lambda n: sp.airmass(n)), 'eth': (CORR, lambda n: sp.eth(am_correction=n)), 'sunrise': (UNITS, lambda n: sp.sunrise(n)), 'sunset': (UNITS, lambda n: sp.sunset(n))}
        cand = sorted(set(AMS) | set(CORR) | set(UNITS)) + ['', 'xyz', 'UTC', 'Deg', 'degrees', 'radians', 'None', 'kasten', 'gueymard', 'perez', 'min', 'lst', 'kasten_1989', 'skartveit_1998', 'hours', 'time', 'h']
        try:
            from symx.strs import vocabulary
            import pathlib
            cand += vocabulary(pathlib.Path(sw().__file__).parent)[:600]
        except Exception:
            pass
        for k, (good, call) in spec.items():
            if option in (k, 'all'):
                for n in cand:
                    r = attempt(n in good, f'{k}({n!r})', lambda: call(n))
                    if r:
                        return r
        return OK
    todo = []
    for g in given or ():
        if sizes:
            a = np.array([g.get(f'a{i}', 10.) for i in range(sizes[1])], float)
            o = np.array([g.get(f'o{i}', 20.) for i in range(sizes[2])], float)
            t = t0 + np.arange(sizes[0])*3600
            todo.append((t, a, o))
    edge_a = [-90, 90, 0, -90.0000001, 90.0000001, 90.5, -91, 1e9, -1e9, 180, 89.99, -89.9999, 45]
    edge_o = [-180, 179.9999, 180, 180.0000001, -180.0000001, 181, 360, -360, 1e9, -1e9, 0, 90, 179.99999999]
    for s in ([sizes] if sizes else []) + [(1, 1, 1), (2, 2, 2), (3, 3, 3), (2, 3, 2), (3, 2, 2), (2, 2, 3), (1, 2, 2), (1, 2, 1), (130, 130, 130)]:
        s = tuple(s)
        for k in range(max(s[1], s[2])) if max(s) < 10 else (0, 1, 64, 100, 128, 129):
            for va, vo in itertools.product(edge_a, edge_o) if max(s) < 10 else [(1e9, 0), (91, 0), (0, 180), (0, -181), (0, 0)]:
                a, o = rng.uniform(-80, 80, s[1]), rng.uniform(-170, 170, s[2])
                if k < s[1]:
                    a[k] = va
                if k < s[2]:
                    o[k] = vo
                todo.append((t0 + np.arange(s[0])*3600, a, o))
    for t, a, o in todo:
        n = (len(t), len(a), len(o))
        if uc == 'regular_grid' and n[1] > 50 and n[2] > 50:
            continue
        ok = (uc == 'regular_grid' or n[1] == n[2] and (uc == 'sites' or n[0] == n[1])) and place_ok(a, o)
        if ok and rng.random() < .7 and not given:
            continue
        r = attempt(ok, f'{alg}/{eng} with latitudes {a.tolist()[:8]} and longitudes {o.tolist()[:8]} ({n})', lambda: f(dt(t), a, o, algorithm=alg, engine=eng, refraction=ref),
                    sizes=list(n), given=[{**{f'a{i}': float(x) for i, x in enumerate(a)}, **{f'o{i}': float(x) for i, x in enumerate(o)}}])
        if r:
            return r
    return OK


# -- derived accessors --------------------------------------------------------------------
NS = 10**9


def overhead_points(n, seed):
    """sun from overhead to the nadir along the meridian and the hour circle, horizon included"""
    rng = np.random.default_rng(seed)
    t = rng.integers(sec('1950-01-01'), sec('2100-01-01'), n)
    dec, slon = subsolar(t)
    ang = np.concatenate([np.geomspace(1e-3, 20, n//3), rng.normal(90, .5, n//6), np.linspace(0, 180, n - n//3 - n//6)])
    merid = rng.random(n) < .4
    lat = np.where(merid, dec + rng.choice([-1, 1], n)*ang, dec)
    with np.errstate(all='ignore'):
        c = (np.cos(np.radians(ang)) - np.sin(np.radians(dec))**2)/np.cos(np.radians(dec))**2
        h = np.degrees(np.arccos(np.clip(c, -1, 1)))
    flip = np.abs(lat) > 90
    lat = np.where(flip, np.sign(lat)*180 - lat, lat)
    lon = np.where(merid, np.where(flip, slon + 180, slon), slon + rng.choice([-1, 1], n)*h)
    lon = (lon + 180) % 360 - 180
    return t, np.clip(lat, -90, 90), np.where(lon >= 180, -180., lon)


class Case:
    """one request on the real code and broadcasting of its accessors to a common shape"""

    def __init__(s, uc, alg, eng, ref, t, a, o, unit='s', tz=None):
        import pandas as pd
        tt = dt(t, unit)
        if tz:
            tt = pd.DatetimeIndex(tt).tz_localize('UTC').tz_convert(tz)
        s.uc, s.t, s.a, s.o, s.tt = uc, t, a, o, tt
        s.sp = getattr(sw(), uc)(tt, a, o, algorithm=alg, engine=eng, refraction=ref)
        s.dims = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'), 'transect': ('time',)}[uc]
        s.shape = {'sites': (len(t), len(a)), 'regular_grid': (len(t), len(a), len(o)), 'transect': (len(t),)}[uc]
        g = np.indices(s.shape)
        s.i, s.j, s.k = (g[0], g[0], g[0]) if uc == 'transect' else (g[0], g[1], g[1]) if uc == 'sites' else (g[0], g[1], g[2])
        s.T, s.A, s.O = t[s.i], a[s.j], o[s.k]

    def get(s, v):
        """values of a labelled result over the full shape"""
        d = {k: n for k, n in zip(s.dims, s.shape)}
        for k in v.dims:
            if k not in d:
                raise ValueError(f'dimension {k} is not one of {s.dims}')
        x = v.transpose(*[k for k in s.dims if k in v.dims]).values
        x = x.reshape([d[k] if k in v.dims else 1 for k in s.dims])
        return np.broadcast_to(x, s.shape)

    def at(s, idx):
        return f'{dt(s.T[idx])} lat {float(s.A[idx])!r} lon {float(s.O[idx])!r}'


def cases(uc, alg, eng, ref, seed, n=2500, over=False, unit='s', tz=None, pts=()):
    k = {'s': 1, 'ns': NS}[unit]
    rng = np.random.default_rng(seed)
    m = {'transect': (n, 0, 0), 'sites': (60, 30, 30), 'regular_grid': (40, 9, 8)}[uc]
    reps = 1 if uc == 'transect' else 6
    for r in range(reps):
        t, a, o = overhead_points(max(m), seed + r) if over and r % 2 == 0 else std_points(max(m), seed + r)
        if uc == 'transect' and over:
            t2, a2, o2 = std_points(n//2, seed + 9)
            t, a, o = np.r_[t, t2], np.r_[a, a2], np.r_[o, o2]
        if uc == 'sites':
            a, o = a[:m[1]], o[:m[1]]
        if uc == 'regular_grid':
            t, a, o = t[:m[0]], a[:m[1]], o[:m[2]]
        if pts and uc == 'transect':
            p = np.array([[q[1], q[2]] for q in pts], float)
            t, a, o = np.r_[[q[0] for q in pts], t].astype('i8'), np.r_[p[:, 0], a], np.r_[p[:, 1], o]
        t = t*k + (rng.integers(0, k, len(t)) if k > 1 else 0)
        c = Case(uc, alg, eng, ref, t, a, o, unit, tz)
        c.T = c.T//k
        c.tns = t*(NS//k)
        yield c


def horizon_case(uc, alg, eng, ref):
    """points around a sunrise or sunset, as close as longitudes can be: some zeniths are exactly 90"""
    t = np.array([1577880000, 1593604800, 1719830000], 'i8')
    a = np.array([0., 30., -45.])
    lo, hi = np.zeros(3), np.full(3, 179.)

    def z(o):
        return np.array([float(sw().transect(dt(t[i:i+1]), a[i:i+1], o[i:i+1], algorithm=alg, engine=eng, refraction=ref).zenith.values[0]) - 90 for i in range(3)])
    s = z(lo) > 0
    for _ in range(55):
        m = (lo + hi)/2
        k = (z(m) > 0) == s
        lo, hi = np.where(k, m, lo), np.where(k, hi, m)
    n = 601
    o = np.array([lo[i] + (q - n//2)*w for i in range(3) for w in (np.spacing(lo[i])*3, 1.5e-5) for q in range(n)])
    n *= 2
    T_, A_ = np.repeat(t, n), np.repeat(a, n)
    if uc == 'regular_grid':
        return Case(uc, alg, eng, ref, t, a, o)
    return Case(uc, alg, eng, ref, T_ if uc == 'transect' else t, A_, o)


def worst(c, mask):
    w = np.argwhere(mask)
    return tuple(w[0]) if len(w) else None


def guard(f):
    """an exception raised by the code under test for a valid request is a violation"""
    @functools.wraps(f)
    def g(**kw):
        try:
            return f(**kw)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            import traceback
            src = ''.join(traceback.format_exception(e))
            if 'sunwhere/' in src.split('oracles.py')[-1]:
                return bad(f'a valid request raises {e!r}'[:400], **kw)
            raise
    return g


@guard
def c11(uc=None, alg=None, eng=None, ref=False, unit='s', helper=None, tkind='array', okind='array', nt=3, no=2, seed=1):
    if helper:
        import importlib
        h = importlib.import_module('sunwhere.utils.datetime')
        fn = getattr(h, helper)
        sign = 1 if helper == 'true_solar_time' else -1
        for r in range(30):
            t, a, o = std_points(max(nt, no, 1), seed*100 + r)
            t, o = t[:nt], o[:no]
            k = {'s': 1, 'ns': NS}[unit]
            tt = dt(t*k + (123456789 if k > 1 else 0), unit)
            ta = tt[0] if tkind == 'scalar' else tt
            oa = float(o[0]) if okind == 'scalar' else list(o) if okind == 'list' else o
            got = np.asarray(fn(ta, oa))
            want = tuple(n for n in (nt, no) if n > 1)
            q = np.array([float(sw()._core.evaluate(tt[i:i+1], 0., 0.)['eot'].reshape(-1)[0]) for i in range(nt)])
            msg = None
            if got.shape != want:
                msg = f'shape {got.shape}, expected {want}'
            elif got.dtype.kind != 'M':
                msg = f'dtype {got.dtype}'
            else:
                g = got.astype('M8[ns]').astype('i8').reshape(nt, no)
                base = tt.astype('M8[ns]').astype('i8')
                for i, j in np.ndindex(nt, no):
                    w = sign*(4*o[j] + q[i])*60e9
                    if abs((int(g[i, j]) - int(base[i])) - w) > 1100 or np.isnat(got.reshape(nt, no)[i, j]):
                        msg = f'{got.reshape(nt, no)[i, j]} for {tt[i]} longitude {o[j]!r}, eot {q[i]!r}: shifted by {(int(g[i, j]) - int(base[i]))/6e10} minutes instead of {w/6e10}'
            if msg:
                return bad(f'{helper}({tkind} of {nt} [{unit}], {okind} of {no}): {msg}', helper=helper, tkind=tkind, okind=okind, unit=unit, nt=nt, no=no, seed=seed)
        return OK
    for c in cases(uc, alg, eng, ref, seed, unit='s' if unit == 'zone' else unit, tz='Asia/Kolkata' if unit == 'zone' else None):
        q = c.get(c.sp.eot)
        x = c.get(c.sp.true_solar_time)
        base = c.tns[c.i]
        d = x.astype('M8[ns]').astype('i8') - base - ((4*c.O + q)*60e9)
        i = worst(c, (np.abs(d) > 1100) | np.isnat(x))
        if i is not None:
            return bad(f'true solar time of {uc} {alg}/{eng} at {dt(base[i], "ns")} lon {c.O[i]!r} (eot {q[i]!r} min) is {x[i]}, off by {d[i]/1e3} microseconds',
                       uc=uc, alg=alg, eng=eng, ref=ref, unit=unit, seed=seed)
    return OK


@guard
def c12(uc, alg, eng, ref, seed=1):
    for tz in (None, 'Europe/Madrid', 'Asia/Kathmandu', 'America/St_Johns'):
        for c in cases(uc, alg, eng, ref, seed, n=1500, tz=tz):
            sp = c.sp
            with np.errstate(all='ignore'):
                tt = -np.tan(np.radians(c.A))*np.tan(np.radians(c.get(sp.declination)))
                edge = np.abs(np.abs(tt) - 1) < 1e-9
                dom = np.abs(tt) <= 1
                w = np.arccos(np.where(dom, tt, np.nan))
            P = dict(uc=uc, alg=alg, eng=eng, ref=ref, seed=seed)
            tst = c.get(sp.true_solar_time).astype('M8[ns]').astype('i8')
            day = tst - tst % (86400*NS)
            off = np.zeros(len(c.t)) if tz is None else np.array([x.utcoffset().total_seconds() for x in c.tt])
            off = off[c.i]*1e9
            shift = (c.get(sp.eot) + 4*c.O)*60e9
            hw = np.where(dom, w, 0)*12/np.pi*3.6e12
            exp = {'tst': (0., 0.), 'utc': (-shift, 0.), 'local': (-shift, off)}
            for f in ('sunrise', 'sunset'):
                sg = 1 if f == 'sunrise' else -1
                for u in UNITS:
                    v = access(sp, f'{f}({u!r})')
                    x = c.get(v)
                    if u in ('deg', 'rad'):
                        e = sg*(np.degrees(w) if u == 'deg' else w)
                        d = np.abs(np.cos(np.radians(x) if u == 'deg' else x) - np.cos(w)) + (np.sign(x) != np.sign(e))*(np.abs(e) > 1e-9)
                        m = (np.isnan(x) != np.isnan(e)) | (d > 1e-9)
                        got = x
                    else:
                        e = day + 12*3.6e12 - sg*hw + exp[u][0] + exp[u][1]
                        if x.dtype.kind != 'M':
                            return bad(f'{f}({u!r}) of {uc} has dtype {x.dtype}', **P)
                        nat = np.isnat(x)
                        with np.errstate(all='ignore'):
                            d = np.abs(x.astype('M8[ns]').astype('i8') - e)
                        m = (nat != ~dom) | (~nat & dom & (d > 4000) & (np.abs(np.abs(tt) - 1) > 1e-7))
                        got = x
                    i = worst(c, m & ~edge)
                    if i is not None:
                        return bad(f'{f}({u!r}) of {uc} {alg}/{eng} zone {tz} at {c.at(i)} is {got[i]}, expected {dt(int(e[i]), "ns") if u in ("tst", "utc", "local") and dom[i] else e[i] if u in ("deg", "rad") else "missing"}'
                                   f' (declination {c.get(sp.declination)[i]!r})', **P)
            x = c.get(sp.daylight_length())
            e = 2/15*np.degrees(w)
            i = worst(c, ((np.isnan(x) != np.isnan(e)) | (np.abs(x - e) > 1e-4*(np.abs(np.abs(tt) - 1) < 1e-6) + 1e-7)) & ~edge)
            if i is not None:
                return bad(f'daylight_length of {uc} at {c.at(i)} is {x[i]}, expected {e[i]}', **P)
    return OK


@guard
def c13(uc, alg, eng, ref, seed=1):
    rng = np.random.default_rng(seed)
    P = dict(uc=uc, alg=alg, eng=eng, ref=ref, seed=seed)
    for q, c in enumerate(cases(uc, alg, eng, ref, seed, n=1200)):
        sp = c.sp
        surf = [(0., 0.), (0., 77.), (180., 0.), (90., 0.), (90., 90.), (90., -90.), (30., 180.), (30, -180), (45., 380.), (45., 20.), (-20., 10.), (30., -340.), (90, 270), (100., 100.)]
        surf += [(float(x), float(y)) for x, y in zip(rng.uniform(0, 180, 6), rng.uniform(-720, 720, 6))]
        tst = c.get(sp.true_solar_time).astype('M8[ns]').astype('i8')
        h = np.radians(15*((tst % (86400*NS))/3.6e12 - 12))
        L, d = np.radians(c.A), np.radians(c.get(sp.declination))
        up = np.sin(L)*np.sin(d) + np.cos(L)*np.cos(d)*np.cos(h)
        so = np.sin(L)*np.cos(d)*np.cos(h) - np.cos(L)*np.sin(d)
        ea = -np.cos(d)*np.sin(h)
        for b, g in surf:
            x = c.get(sp.incidence(b, g))
            B, G = np.radians(b), np.radians(g)
            e = up*np.cos(B) + np.sin(B)*(np.cos(G)*so + np.sin(G)*ea)
            i = worst(c, ~(np.abs(x - e) <= 1e-6) | (np.abs(x) > 1 + 1e-9))
            if i is not None:
                return bad(f'incidence({b}, {g}) of {uc} {alg}/{eng} at {c.at(i)} is {x[i]!r}, the dot product is {e[i]!r}', **P)
    return OK


def ref_airmass(p, z):
    k, e, s, q = {'kasten_1965': (.15, 0., 93.885, -1.253), 'kasten_and_young_1989': (.50572, 0., 96.07995, -1.6364),
                  'gueymard_2001': (.45665, .07, 96.4836, -1.697), 'gueymard_2003': (.48353, .095846, 96.741, -1.754)}[p]
    with np.errstate(all='ignore'):
        r = np.cos(np.radians(z)) + k*z**e*(s - z)**q
        return np.where(z <= 90, np.maximum(1, 1/r), np.nan)


@guard
def c14(uc, alg, eng, ref, am=None, seed=1):
    P = dict(uc=uc, alg=alg, eng=eng, ref=ref, am=am, seed=seed)
    for c in [*cases(uc, alg, eng, ref, seed, over=True), *([horizon_case(uc, alg, eng, ref)] if (alg, uc) == ("nrel", "transect") else [])]:
        z = c.get(c.sp.zenith)
        for p in AMS if am is None else [am]:
            for call in [f'airmass({p!r})'] + (['airmass()'] if p == 'gueymard_2003' else []):
                x = c.get(access(c.sp, call))
                e = ref_airmass(p, z)
                with np.errstate(all='ignore'):
                    sec_ = 1/np.cos(np.radians(z))
                    m = (np.isnan(x) != np.isnan(e)) | (np.abs(x/e - 1) > 1e-4) | (x < 1) | (x > 45) | ((z <= 70) & (np.abs(x/sec_ - 1) > .01))
                i = worst(c, m)
                if i is not None:
                    return bad(f'{call} of {uc} {alg}/{eng} at zenith {z[i]!r} ({c.at(i)}) is {x[i]!r}, the published formula gives {e[i]!r}', **P)
                o = np.argsort(z.reshape(-1))
                y = x.reshape(-1)[o]
                y = y[np.isfinite(y)]
                if np.any(np.diff(y) < -1e-6):
                    return bad(f'{call} of {uc} {alg}/{eng} decreases with zenith angle', **P)
    return OK


@guard
def c15(uc, alg, eng, ref, corr=None, seed=1):
    P = dict(uc=uc, alg=alg, eng=eng, ref=ref, corr=corr, seed=seed)
    for c in cases(uc, alg, eng, ref, seed, over=True):
        z, ecf = c.get(c.sp.zenith), c.get(c.sp.ecf)
        for k in CORR if corr is None else [corr]:
            for isc in (None, 1361.1, 1367., 1., 0., 1000, 2000.):
                kw = {} if isc is None else {'ISC': isc}
                x = c.get(c.sp.eth(am_correction=k, **kw) if k != 'none' or seed % 2 else c.sp.eth(**kw))
                S = 1361.1 if isc is None else isc
                with np.errstate(all='ignore'):
                    if k == 'perez_1990':
                        f = .1 + 1.031*np.exp(-1.4/(.9 + 9.4/ref_airmass('kasten_and_young_1989', z)))
                    elif k == 'skarveith_1998':
                        f = .83 - .56*np.exp(-.06*(90 - z))
                    elif k == 'gonzalez_and_calbo_1999':
                        m = ref_airmass('gueymard_2003', z)
                        f = .229 + .957*np.exp(-1.74*m*(.124 - .0285*np.log(m)))
                    else:
                        f = 1.
                    e = S*ecf*np.maximum(0, np.cos(np.radians(z)))*f
                    by = z <= 90 if k != 'none' else np.ones(z.shape, bool)
                    i = worst(c, by & ~(np.abs(x - e) <= 1e-5*max(1, S)))
                    if i is None and k == 'none':
                        i = worst(c, (x < 0) | (x > S*ecf*(1 + 1e-12)) | (z > 90) & (x != 0))
                if i is not None:
                    return bad(f'eth(ISC={isc}, am_correction={k!r}) of {uc} {alg}/{eng} at zenith {z[i]!r} ({c.at(i)}) is {x[i]!r}, expected {e[i]!r}', **P)
    return OK


@guard
def c10(uc, alg, eng, ref, zk, form, unit='s', shape=(2, 2, 2), seed=1):
    import datetime
    import pandas as pd
    rng = np.random.default_rng(seed)
    nt, ny, nx = shape
    P = dict(uc=uc, alg=alg, eng=eng, ref=ref, zk=zk, form=form, unit=unit, shape=list(shape), seed=seed)
    k = {'s': 1, 'us': 10**6, 'ns': NS}[unit]
    zs = {'naive': [None], 'utc': ['UTC', datetime.timezone.utc]}.get(zk) or zones()[zk]
    # daylight-saving changes of the zones of zones(): two hours around each
    dst = [int(np.datetime64(x, 's').astype('i8')) for x in ('2024-10-27T01', '2024-03-31T01', '2024-11-03T06', '2024-03-10T07', '2024-04-06T15', '2024-10-05T15:30')]
    for r in range(40):
        z = zs[r % len(zs)]
        _, a, o = std_points(max(ny, nx), seed*100 + r)
        a, o = a[:ny], o[:nx]
        if uc != 'regular_grid':
            o = o[:ny]
        c = dst[r % 6] if r % 4 else int(rng.integers(-6*10**8, 4*10**9))
        t = c + rng.integers(-5400, 5400, nt)
        tt = dt(t*k + (rng.integers(0, k, nt) if k > 1 else 0), unit)
        full = pd.DatetimeIndex(tt)
        x = full if z is None else full.tz_localize('UTC').tz_convert(z)
        i = x[0] if form == 'scalar' else list(x) if form == 'list' else tuple(x) if form == 'tuple' else tt if form == 'numpy' else x
        base = getattr(sw(), uc)(full, a, o, algorithm=alg, engine=eng, refraction=ref)
        try:
            got = getattr(sw(), uc)(i, a, o, algorithm=alg, engine=eng, refraction=ref)
            at = f'{uc} {alg}/{eng} with times {[str(q) for q in x]} ({form} in {z!r})'
            for n in ['ecf', 'eot', 'declination', 'zenith', 'azimuth', 'true_solar_time', "sunrise('utc')", "sunset('utc')", "sunrise('deg')",
                      'daylight_length()', 'incidence(30., 20.)', 'airmass()', 'eth()']:
                u, v = np.asarray(access(got, n).values), np.asarray(access(base, n).values)
                if not np.array_equal(u, v, equal_nan=True):
                    return bad(f'{at}: {n} is {u.reshape(-1)[:4]}, but {v.reshape(-1)[:4]} for the same instants in UTC', **P)
            for n, w, tz in (('times_utc', full.tz_localize('UTC'), 'UTC'), ('times', x if z is not None else full.tz_localize('UTC'), z or 'UTC')):
                g = getattr(got, n)
                if not np.array_equal(g.tz_convert(None).as_unit('ns').asi8, w.tz_convert(None).as_unit('ns').asi8):
                    return bad(f'{at}: {n} are {list(map(str, g))}', **P)
                if not np.array_equal(g.tz_localize(None).as_unit('ns').asi8, w.tz_localize(None).as_unit('ns').asi8):
                    return bad(f'{at}: {n} read {list(map(str, g))}', **P)
            lab = np.asarray(got.zenith.coords['time'].values).astype('M8[ns]').reshape(-1)
            w = x.tz_localize(None).as_unit('ns').asi8
            if not np.array_equal(lab.astype('i8'), w):
                return bad(f'{at}: results are labelled {lab}', **P)
            if got.timezone != (str(z) if z is not None else 'UTC'):
                return bad(f'{at}: the zone is reported as {got.timezone!r}', **P)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return bad(f'{uc} {alg}/{eng} with valid times {[str(q) for q in x]} ({form} in {z!r}) raises {e!r}', **P)
    return OK


@guard
def c17(uc, eng, ref=False, unit='s', pts=(), seed=1):
    import datetime
    from checks.c17spec import SERIES
    P = dict(uc=uc, eng=eng, ref=ref, unit=unit, seed=seed)
    rng = np.random.default_rng(seed)
    lo, hi = (int(np.datetime64(x, 's').astype('i8')) for x in ('1800-01-01', '2262-01-01'))
    t = [*pts]
    for y in range(1800, 2262):
        for d in ('01-01', '02-28', '03-01', '06-30', '12-31'):
            b = int(np.datetime64(f'{y}-{d}', 's').astype('i8'))
            t += [b, b + 86399, b + int(rng.integers(0, 86400))]
    t = np.array([x for x in t if lo <= x < hi] + list(rng.integers(lo, hi, 3000)), 'i8')
    k = 1 if unit == 's' else NS
    tk = t*k + (rng.integers(0, k, len(t)) if k > 1 else 0)
    n = len(t)
    o, a = rng.uniform(-180, 179, n), rng.uniform(-89, 89, n)
    sp = getattr(sw(), uc)(dt(tk, unit), a if uc == 'transect' else a[:1], o if uc == 'transect' else o[:1], algorithm='iqbal', engine=eng, refraction=ref)
    e0 = datetime.datetime(1970, 1, 1)
    g = np.empty(n)
    for i, x in enumerate(t):
        q = e0 + datetime.timedelta(seconds=int(x))
        g[i] = 2*np.pi*(q.timetuple().tm_yday + (q.hour*3600 + q.minute*60 + q.second)/86400)/365
    for o_, (c0, cs, ss) in SERIES.items():
        e = c0 + sum(c*np.cos(i*g) for i, c in enumerate(cs, 1)) + sum(c*np.sin(i*g) for i, c in enumerate(ss, 1))
        e = np.degrees(e) if o_ == 'declination' else e
        x = np.asarray(getattr(sp, o_).values, float)
        m = ~(np.abs(x - e) <= 1e-7)
        if m.any():
            i = int(np.argmax(m))
            return bad(f'{o_} of {uc} iqbal/{eng} at {dt(t[i:i+1])[0]} is {x[i]!r}, the series at the day of the year gives {e[i]!r}', **P)
    return OK


# -- C19 --------------------------------------------------------------------------------------------

def c19(kind, pts=(), seed=1):
    import importlib
    import inspect
    m = importlib.import_module('sunwhere._cli.main')
    P = dict(kind=kind)
    p = list(inspect.signature(m.at).parameters.values())[1 if kind == 'latitude' else 2]
    f = [x.parser for x in [p.default, *getattr(p.annotation, '__metadata__', ())] if getattr(x, 'parser', None)][0]
    plus, minus, lim = ('nN', 'sS', 90.) if kind == 'latitude' else ('eE', 'wW', 180.)
    vals = [0., 1., -1., 3.822, -3.822, 36.949, 89.999, 90., -90., 90.001, -90.001, 120., -120., 179.999, 180., -180., 180.001, -180.001, 359., 360., -360., 1e9,
            np.nextafter(lim, 1e9), -np.nextafter(lim, 1e9), np.nextafter(lim, 0), -np.nextafter(lim, 0), *np.random.default_rng(seed).uniform(-200, 200, 20)]
    vals = [repr(float(v)) for v in vals] + ['0', '12', '-5', '1e1', '.5', 'nan', 'inf', '-inf', '', 'x', '12N', '3 4']
    letters = 'nNsSeEwW' + 'xXoO0159 .-+°′"\n\té' + 'abcdfghijklmpqrtuvyz'
    q = [(v, c) for v in vals for c in letters]
    q += [('12.5', chr(i)) for i in range(0x3000) if chr(i) != 'ſ']
    for v, c in pts:
        c = chr(int(c)) if c is not None and not 0xD800 <= int(c) < 0xE000 else 'x'
        q = [(repr(float(v)), c)] + [(repr(float(v)), d) for d in 'nNsSeEwW'] + [(w, c) for w in vals] + q if v is not None else [(w, c) for w in vals] + q
    for v, c in q:
        if c == 'ſ':
            continue
        try:
            x = float(v)
        except ValueError:
            x = None
        w = None
        if x is not None and c in plus + minus:
            w = x if c in plus else -x
            if not (-lim <= w <= lim) or (kind == 'longitude' and w == lim):
                w = None
        try:
            g = f(v + c)
        except Exception:
            g = None
        if (g is None) != (w is None) or g is not None and float(g) != w:
            return bad(f'{kind} {v + c!r} is {"rejected" if g is None else "read as %r" % g}, expected {"rejection" if w is None else w}', **P)
    return OK


# -- C09 --------------------------------------------------------------------------------------------

def zenith_points(alg, eng, zs, seed=1):
    """(t, lat, lon) whose airless zenith is as close to zs as latitudes allow (near noon or midnight)"""
    rng = np.random.default_rng(seed)
    zs = np.asarray(zs, float)
    n = len(zs)
    day = rng.integers(int(np.datetime64('1990-01-01', 's').astype('i8'))//86400, int(np.datetime64('2060-01-01', 's').astype('i8'))//86400, n)
    best = None
    t = day*86400 + np.where(zs <= 90, 43200, 0)
    o = np.zeros(n)

    def z(a):
        return np.asarray(sw().transect(dt(t), a, o, algorithm=alg, engine=eng, refraction=False).zenith.values, float)
    g = np.linspace(-90, 90, 61)
    v = np.stack([z(np.full(n, x)) for x in g])
    lo, hi = np.zeros(n), np.zeros(n)
    for i in range(n):
        k = np.nonzero((v[:-1, i] - zs[i])*(v[1:, i] - zs[i]) <= 0)[0]
        k = k[len(k)//2] if len(k) else int(np.argmin(np.abs(v[:, i] - zs[i])))
        lo[i], hi[i] = g[k], g[min(k + 1, 60)]
    s = z(lo) > zs
    for _ in range(50):
        m = (lo + hi)/2
        k = (z(m) > zs) == s
        lo, hi = np.where(k, m, lo), np.where(k, hi, m)
    return t, np.where(np.abs(z(lo) - zs) < np.abs(z(hi) - zs), lo, hi), o


def c09(uc, alg, eng, pts=(), zs=(), seed=1):
    P = dict(uc=uc, alg=alg, eng=eng, seed=seed)
    rng = np.random.default_rng(seed)
    want = np.concatenate([np.asarray(zs, float), np.linspace(0, 180, 181), np.linspace(85, 100, 151), np.full(8, 90.), 90 + np.array([.8333, .8334, .8335, .834, .8332]), rng.uniform(0, 180, 200)])
    want = np.concatenate([w + want for w in (0., 1e-4, -1e-4)])
    t, a, o = zenith_points(alg, eng, np.clip(want, 0, 180), seed)
    p = np.array([[*q] for q in pts], float).reshape(-1, 3)
    st, sa, so = std_points(400, seed)
    t = np.concatenate([p[:, 0].astype('i8'), t, st])
    a = np.concatenate([p[:, 1], a, sa])
    o = np.concatenate([p[:, 2], o, so])
    rows = []
    f = getattr(sw(), uc)
    for r in (False, True):
        if uc == 'transect':
            s = f(dt(t), a, o, algorithm=alg, engine=eng, refraction=r)
            rows.append({k: np.ravel(np.asarray(getattr(s, k).values, float)) for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')})
        else:
            q = {k: [] for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf')}
            for i in range(len(t)):
                s = f(dt(t[i:i+1]), a[i:i+1], o[i:i+1], algorithm=alg, engine=eng, refraction=r)
                for k in q:
                    q[k].append(float(np.ravel(getattr(s, k).values)[0]))
            rows.append({k: np.array(v) for k, v in q.items()})
    F, W = rows

    def at(i):
        return f'{uc} {alg}/{eng} at {dt(t[i:i+1])[0]}, latitude {a[i]!r}, longitude {o[i]!r}: '
    for k in ('azimuth', 'declination', 'eot', 'ecf'):
        d = np.abs(F[k] - W[k])
        m = ~((d < 1e-6) | (np.isnan(F[k]) & np.isnan(W[k])))
        if m.any():
            i = int(np.argmax(m))
            return bad(at(i) + f'{k} is {F[k][i]!r} without and {W[k][i]!r} with refraction', **P)
    z, l = F['zenith'], F['zenith'] - W['zenith']
    ok = np.isfinite(z)
    for name, m in (('above -0.02 and below 0.8 degrees', ok & ~((l >= -.021) & (l <= .801))),
                    ('below 0.03 degrees when the sun is higher than 45 degrees', (z < 45) & ~(np.abs(l) < .03)),
                    ('below 0.4 degrees at more than 7 degrees under the horizon', (z > 97) & ~(np.abs(l) < .4)),
                    ('between 0.3 and 0.75 degrees at the horizon', (np.abs(z - 90) < 1e-6) & ~((l >= .3) & (l <= .75)))):
        if m.any():
            i = int(np.argmax(m))
            return bad(at(i) + f'the lift at zenith {z[i]!r} is {l[i]!r}, not {name}', **P)
    std = 1.02/60/np.tan(np.radians(90 - z + 10.3/(95.11 - z)))
    if alg == 'iqbal':
        h = np.radians(90 - z)
        std = np.minimum(np.degrees(.061359*(.1594 + 1.1230*h + .065656*h*h)/(1 + 28.9344*h + 277.3971*h*h)), z)
    m = (z <= 90) & ~(np.abs(l - std) <= .0036)
    if alg == 'psa' and eng == 'numpy':
        m &= z > .3
    if m.any():
        i = int(np.argmax(m))
        return bad(at(i) + f'the lift at zenith {z[i]!r} is {l[i]!r}, the published refraction is {std[i]!r}', **P)
    below = np.nonzero((z > 90) & (np.abs(l) < 1e-9))[0]
    if len(below):
        c = z[below].min()
        m = (z > c + 1e-6) & (np.abs(l) > 1e-7)
        if m.any():
            i = int(np.argmax(m))
            return bad(at(i) + f'the lift at zenith {z[i]!r} is {l[i]!r}, though it is zero at {c!r}', **P)
    return OK


def _position(uc, alg, eng, t, a, o):
    """declination, ecf, eot and hour angle (of the position without refraction), true solar time (s); full shape"""
    c = Case(uc, alg, eng, False, t, a, o)
    z, s = np.radians(c.get(c.sp.zenith)), np.radians(c.get(c.sp.azimuth))
    L = np.radians(c.A)
    x = np.cos(z)*np.cos(L) + np.sin(z)*np.cos(s)*np.sin(L)
    h = np.degrees(np.arctan2(np.sin(z)*np.sin(s), x))
    tst = c.get(c.sp.true_solar_time).astype('M8[ns]').astype('i8')/1e9
    return c, c.get(c.sp.declination), c.get(c.sp.ecf), c.get(c.sp.eot), h, tst, (z > .17) & (z < 2.97), z, s


def _instants(uc, ts, seed, n):
    t, a, o = std_points(n, seed, '2020-01-01', '2050-01-01')
    ts = np.array([q + k for q in ts for k in (-1, 0, 1)], 'i8')
    ts = ts[(ts >= sec('2020-01-01')) & (ts < sec('2050-01-01'))]
    t = np.r_[ts, t]
    if uc == 'transect':
        k = len(ts)
        a2, o2 = np.r_[np.resize([90., 40, -30, -90], k), a], np.r_[np.resize([0., 100, -179, 179], k), o]
        return t, a2, o2
    a2, o2 = np.array([90., 40., -30., -90., 0., 65.]), np.array([0., -179., 100., 179.9, 15., -60.])
    return t, a2, o2


@guard
def c07(uc, alg, eng, ref=False, ts=(), seed=1):
    lim = {'psa': (.02, 3e-4, .1, .02), 'soltrack': (.02, 3e-4, .1, .02), 'iqbal': (.6, 2e-3, .9, .6)}[alg]
    for r in range(3):
        t, a, o = _instants(uc, ts, seed + r, 60000 if uc == 'transect' else 3000)
        c, *x, _, ok, z, s = _position(uc, alg, eng, t, a, o)
        _, *y, _, _, w, q = _position(uc, 'nrel', 'numexpr', t, a, o)
        for k, p, u, l, f in zip(('declination', 'eccentricity factor', 'equation of time', 'hour angle'), x, y, lim, (1, 1, 1, 0)):
            d = p - u if f else (p - u + 180) % 360 - 180
            m = ~(np.abs(d) <= l + 1e-6) & (f | ok) if l else None
            i = worst(c, m)
            if i:
                return bad(f'{uc} {alg}/{eng} {c.at(i)}: {k} {float(p[i])!r}, nrel {float(u[i])!r}', uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
        if ref:
            p, u = (Case(uc, g, e, True, t, a, o) for g, e in ((alg, eng), ('nrel', 'numexpr')))
            for k, l in zip(('declination', 'ecf', 'eot'), lim):
                v, w = p.get(getattr(p.sp, k)), u.get(getattr(u.sp, k))
                i = worst(p, ~(np.abs(v - w) <= l + 1e-6))
                if i:
                    return bad(f'{uc} {alg}/{eng} refraction {c.at(i)}: {k} {float(v[i])!r}, nrel {float(w[i])!r}', uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
    return OK


@guard
def c20(uc, alg, eng, ref=False, ts=(), seed=1):
    lim = .05 if alg == 'nrel' else .1
    for r in range(3):
        t, a, o = _instants(uc, ts, seed + r, 60000 if uc == 'transect' else 3000)
        c, _, _, q, h, tst, ok, z, s = _position(uc, alg, eng, t, a, o)
        for nm, v in (('true_solar_time', tst/240), ('longitude and equation of time', c.T/240 + c.O + q/4)):
            d = (h - v) % 360 - 180
            i = worst(c, ~(np.abs(d) <= lim + 1e-4) & ok)
            if i:
                return bad(f'{uc} {alg}/{eng} {c.at(i)}: hour angle {float(h[i])!r} degrees, {nm} gives {float((v[i] % 360) - 180)!r}',
                           uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
    return OK


@guard
def c06(uc, alg, eng, ts=(), seed=1):
    """zenith and azimuth against the spherical transform of declination and hour angle (azimuth at the pole)"""
    for r in range(4):
        n = 60000 if uc == 'transect' else 1500
        t, a, o = (overhead_points if r % 2 else std_points)(n, seed + r)
        tq = np.array([q + k for q in ts for k in (-1, 0, 1)], 'i8')
        if len(tq):
            k = len(tq) if uc == 'transect' else 0
            t = np.r_[tq, t]
            a, o = np.r_[np.resize([90., 40, -30, -90, 10, 66], k), a], np.r_[np.resize([0., 100, -179, 15, 179], k), o]
        if uc != 'transect':
            t = t[:1500]
            a, o = np.r_[a[:12], -90., 0, 90], np.r_[o[:12], 0., -180, 90]
        c = Case(uc, alg, eng, False, t, a, o)
        pole = sw().transect(dt(t), np.full(len(t), 90.), np.zeros(len(t)), algorithm=alg, engine=eng, refraction=False)
        h = np.radians(pole.azimuth.values[c.i] + c.O)
        d, z, s, L = [np.radians(x) for x in (c.get(c.sp.declination), c.get(c.sp.zenith), c.get(c.sp.azimuth), c.A)]
        u = np.array([np.sin(z)*np.sin(s), np.sin(z)*np.cos(s), np.cos(z)])
        v = np.array([np.cos(d)*np.sin(h), np.sin(L)*np.cos(d)*np.cos(h) - np.cos(L)*np.sin(d), np.sin(L)*np.sin(d) + np.cos(L)*np.cos(d)*np.cos(h)])
        sep = np.degrees(np.arctan2(np.sqrt((np.cross(u, v, axis=0)**2).sum(0)), (u*v).sum(0)))
        lim = np.where(np.sin(z) < np.sin(np.radians(1.1)), .11, .0105)
        i = worst(c, ~(sep <= lim))
        if i:
            return bad(f'{uc} {alg}/{eng} {c.at(i)}: zenith {np.degrees(z[i])!r} azimuth {np.degrees(s[i])!r} are {sep[i]!r} degrees from declination {np.degrees(d[i])!r} and hour angle {np.degrees(h[i])!r}',
                       uc=uc, alg=alg, eng=eng, ts=[int(c.T[i])], seed=seed)
    return OK


RANGE5 = dict(zenith=(-.05, 180.05), elevation=(-90.05, 90.05), azimuth=(-180 - 1e-6, 180 + 1e-6),
              declination=(-23.6, 23.6), eot=(-20, 20), ecf=(.96, 1.04))


def under_sun(alg, eng, n, seed):
    """places within a hair of the point under the sun, or of its antipode, as the code itself sees it"""
    rng = np.random.default_rng(seed)
    t = rng.integers(sec('1950-01-01'), sec('2100-01-01'), n)
    p = sw().transect(dt(t), np.full(n, 90.), np.zeros(n), algorithm=alg, engine=eng, refraction=False)
    lat, lon = p.declination.values, -p.azimuth.values
    lat, lon = np.where(np.isfinite(lat), lat, 0), np.where(np.isfinite(lon), lon, 0)
    anti = rng.random(n) < .3
    lat, lon = np.where(anti, -lat, lat), np.where(anti, lon + 180, lon)
    d = 10.**rng.uniform(-9, -1, n)*(rng.random(n) < .8)
    w = rng.uniform(0, 2*np.pi, n)
    lat, lon = lat + d*np.sin(w), lon + d*np.cos(w)
    lon = (lon + 180) % 360 - 180
    return t, lat, np.where(lon >= 180, -180., lon)


@guard
def c05(uc, alg, eng, ref=True, ts=(), zs=(), seed=1):
    for r in range(6):
        n = 60000 if uc == 'transect' else 1500
        t, a, o = (overhead_points, lambda n, s: under_sun(alg, eng, n, s), std_points)[r % 3](n, seed + r)
        tq = np.array([q + k for q in ts for k in (-1, 0, 1)], 'i8')
        if len(tq):
            k = len(tq) if uc == 'transect' else 0
            t = np.r_[tq, t]
            a, o = np.r_[np.resize([90., 40, -30, -90, 10, 66], k), a], np.r_[np.resize([0., 100, -179, 15, 179], k), o]
        if r % 3 == 2 and uc == 'transect':      # the year round by day and the poles
            t = np.r_[t, np.arange(sec('1950-01-01'), sec('2100-01-01'), 7200*3 + 1)]
            m = len(t) - len(a)
            a, o = np.r_[a, np.resize([-90., 90, 0, 23.4, -23.4], m)], np.r_[o, np.resize([-180., 0, 179.99], m)]
        if uc != 'transect':
            if r % 3 == 1:
                k = 40
                t = t[:k]
                a, o = a[:k], o[:k]
            else:
                a, o = np.r_[a[:12], -90., 0, 90], np.r_[o[:12], 0., -180, 90]
        if len(zs) and r == 0:
            t, a, o = zenith_points(alg, eng, zs, seed)
            a = np.r_[a, a - 1e-5, a + 1e-5, a + 1e-4, a - 1e-4]
            t, a, o = np.resize(t, len(a)), np.clip(a, -90, 90), np.resize(o, len(a))
            if uc != 'transect':
                t, a, o = t[:40], a[:40], o[:40]
        c = Case(uc, alg, eng, ref, t, a, o)
        for k, (x, y) in RANGE5.items():
            v = c.get(getattr(c.sp, k))
            i = worst(c, ~((v >= x) & (v <= y)))
            if i:
                return bad(f'{uc} {alg}/{eng} refraction={ref} {c.at(i)}: {k} {float(v[i])!r}', uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
    return OK


@functools.lru_cache(None)
def published_spa():
    import importlib.util
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref', 'pvlib_spa.py')
    spec = importlib.util.spec_from_file_location('published_spa', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


CUTOFF = -.26667 - .5667


@guard
def c08(uc, alg, eng, ref=True, ts=(), zs=(), seed=1):
    m = published_spa()
    for r in range(6):
        n = 40000 if uc == 'transect' else 1500
        t, a, o = (std_points, overhead_points, lambda n, s: under_sun(alg, eng, n, s))[r % 3](n, seed + r)
        tq = np.array([q + k for q in ts for k in (-1, 0, 1)], 'i8')
        if len(tq):
            k = len(tq) if uc == 'transect' else 0
            t = np.r_[tq, t]
            a, o = np.r_[np.resize([90., 40, -30, -90, 10, 66], k), a], np.r_[np.resize([0., 100, -179, 15, 179], k), o]
        if r % 3 == 0 and uc == 'transect':
            t = np.r_[t, np.arange(sec('1950-01-01'), sec('2100-01-01'), 7200*11 + 1)]
            k = len(t) - len(a)
            a, o = np.r_[a, np.resize([-90., 90, 0, 23.4, -23.4, 51, -66.5], k)], np.r_[o, np.resize([-180., 0, 179.99, 60, -75], k)]
        if uc != 'transect':
            a, o = np.r_[a[:12], -90., 0, 90], np.r_[o[:12], 0., -180, 90]
        if len(zs) and r == 0:
            t, a, o = zenith_points(alg, eng, zs, seed)
            if uc != 'transect':
                t, a, o = t[:40], a[:40], o[:40]
        c, f = Case(uc, alg, eng, ref, t, a, o), Case(uc, alg, eng, False, t, a, o)
        with np.errstate(all='ignore'):
            q = (c.T.ravel().astype(float), c.A.ravel(), c.O.ravel(), 0., 1013.25, 12., 67., .5667, 1)
            app, zen, _, _, az, eot = [x.reshape(c.shape) for x in m.solar_position_numpy(*q)]
            dec = m.solar_position_numpy(*q, sst=True)[2].reshape(c.shape)
            ecf = 1/m.solar_position_numpy(*q, esd=True)[0].reshape(c.shape)**2
            none = np.isnan(zen)     # rounding at the zenith and the nadir
        for k, p, u, l in (('declination', c.get(c.sp.declination), dec, 3e-5), ('eccentricity factor', c.get(c.sp.ecf), ecf, 2e-7), ('equation of time', c.get(c.sp.eot), eot, 1e-3)):
            i = worst(c, ~(np.abs(p - u) <= l))
            if i:
                return bad(f'{uc} {alg}/{eng} refraction={ref} {c.at(i)}: {k} {float(p[i])!r}, published {float(np.broadcast_to(u, c.shape)[i])!r}', uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
        def vec(z, s):
            z, s = np.radians(z), np.radians(s)
            return np.array([np.sin(z)*np.sin(s), np.sin(z)*np.cos(s), np.cos(z)])
        for y in (f, c):
            u, v = vec(f.get(f.sp.zenith), y.get(y.sp.azimuth)), vec(zen, az - 180)
            sep = np.degrees(np.arctan2(np.sqrt((np.cross(u, v, axis=0)**2).sum(0)), (u*v).sum(0)))
            i = worst(c, ~(sep <= 1.5e-4) & ~none)
            if i:
                return bad(f'{uc} {alg}/{eng} {c.at(i)}: zenith {float(f.get(f.sp.zenith)[i])!r} azimuth {float(y.get(y.sp.azimuth)[i])!r}, published {float(zen[i])!r} {float(az[i] - 180)!r}',
                           uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
        if ref:
            p = c.get(c.sp.zenith)
            i = worst(c, ~(np.abs(p - app) <= 2e-4) & ~none & ~(np.abs(90 - zen - CUTOFF) < 1.1e-3))
            if i:
                return bad(f'{uc} {alg}/{eng} refraction {c.at(i)}: zenith {float(p[i])!r}, published {float(app[i])!r}', uc=uc, alg=alg, eng=eng, ref=ref, ts=[int(c.T[i])], seed=seed)
    return OK


def _printed(args, tz=None):
    """(exit code, rows) of the command line"""
    import importlib
    import re
    from typer.testing import CliRunner
    m = importlib.import_module('sunwhere._cli.main')
    r = CliRunner().invoke(m.app, list(args))
    if getattr(r.exception, 'args', None) and not isinstance(r.exception, SystemExit) and r.exit_code == 0:
        return 1, {}, str(r.exception)
    rows = {}
    for line in r.output.splitlines():
        c = [x.strip() for x in re.split('[\u2551\u2502|]', line) if x.strip()]
        if len(c) == 2:
            rows[c[0]] = c[1]
    return r.exit_code, rows, r.output[:300]


@guard
def c22(alg='psa', ref=True, zk='UTC', now=False, row=None):
    """the rows printed by `sunwhere at` against the library"""
    import os
    import re
    import time as clk
    import pandas as pd
    m = sw()
    cmd = __import__('importlib').import_module('sunwhere._cli.main').app
    names = [c.name or c.callback.__name__ for c in cmd.registered_commands]
    head = ['at'] if len(names) > 1 else []
    P = dict(alg=alg, ref=ref, now=now, row=row)
    zones = ['UTC'] if zk == 'UTC' else ['Europe/Madrid', 'America/Vancouver', 'Asia/Kathmandu', 'Pacific/Auckland', 'Etc/GMT+5']
    places = [(40., -3.), (-33.5, 151.25), (69.65, 18.95), (-78.4, 106.8), (0., -179.5)]
    stamps = ['2024-03-20 06:30:15', '2024-06-21 12:00:00', '2024-12-21 00:10:59', '1999-02-28 23:59:59', '2024-03-31 12:00:00', '2024-03-10 20:00:00.75', '2071-09-01 04:05:06']
    scan = pd.date_range('2024-01-01', '2025-01-01', freq='37min')
    eot = np.asarray(m.sites(scan, [0.], [0.], algorithm=alg).eot)
    s = np.abs(eot)*60 % 60
    for mask in ((eot < 0) & (eot > -1), (eot > 0) & (eot < 1), (s > 59.96) & (eot > 0), (s > 59.96) & (eot < 0), (s > 29) & (s < 31), eot < -13):
        stamps += [str(x) for x in scan[mask][::max(1, int(mask.sum())//4)][:5]]
    todo = []
    for z in zones:
        for i, st in enumerate(stamps):
            todo.append((z, st, places[i % len(places)]))
            if i < 3:
                todo += [(z, st, p) for p in places]
            if i == 4:      # sunrises and sunsets in UTC at clock times that the zone skips or repeats
                for day in ('2024-03-31', '2024-10-27', '2024-03-10', '2024-11-03', '2024-09-29', '2024-04-07'):
                    todo += [(z, f'{day} 12:00:00', (10., o)) for o in (53., 38., 63., -127., -112., -142.)]
    if now:
        todo = [(z, 'now', p) for z in zones for p in places[:3]]
    old = os.environ.get('TZ')
    try:
        for i, (z, st, (a, o)) in enumerate(todo):
            if now:
                os.environ['TZ'] = ('Pacific/Auckland', 'America/Lima', 'UTC')[i % 3]
                clk.tzset()
            la, lo = f'{abs(a)!r}{"ns"[a < 0]}', f'{abs(o)!r}{"ew"[o < 0]}'
            t0 = pd.Timestamp.now(tz='UTC')
            code, rows, out = _printed([*head, st, la, lo, '-a', alg, '--refraction' if ref else '--no-refraction', '-z', z])
            t1 = pd.Timestamp.now(tz='UTC')
            w = dict(P, args=[st, la, lo, z])
            ts = t0.tz_convert(z) if now else None
            if not now:
                try:
                    ts = pd.Timestamp(st).tz_localize(z)
                except ValueError:
                    continue
            if code != 0 or not rows:
                return bad(f'`sunwhere at {st} {la} {lo} -z {z}` fails: {out.strip()[:200]}', **w)
            x = m.sites(pd.DatetimeIndex([ts]), a, o, algorithm=alg, refraction=ref)
            one = {'Latitude': a, 'Longitude': o, 'Declination': float(x.dec[0]), 'Sun-Earth distance': float(x.ecf[0])**-.5, 'Zenith': float(x.sza[0, 0]),
                   'Elevation': float(x.elevation[0, 0]), 'Azimuth': float(x.saa[0, 0])}
            slack = (t1 - t0).total_seconds() + 1 if now else 0
            for k, v in one.items():
                g = [c for n, c in rows.items() if n == k or k == 'Azimuth' and n.startswith(k)]
                q = re.fullmatch(r'(-?\d+\.\d{4})(°| AU)', g[0]) if g else None
                if not q:
                    return bad(f'{k} printed as {g}, it is {v}', **w)
                tol = 5.1e-5 + (slack*(.005 if k != 'Azimuth' else 1) if k not in ('Latitude', 'Longitude', 'Declination', 'Sun-Earth distance') else slack*1e-4)
                d = abs(float(q.group(1)) - v)
                if min(d, abs(d - 360) if k == 'Azimuth' else d) > tol:
                    return bad(f'{k} printed as {g[0]}, it is {v}', **w)
            e = float(x.eot[0])
            q = re.fullmatch(r'(-?)(\d+):(\d+\.\d) min', rows.get('Equation of time', ''))
            if not q or float(q.group(3)) >= 60 or abs((-1 if q.group(1) else 1)*(60*int(q.group(2)) + float(q.group(3))) - 60*e) > .0511 + slack*.01:
                return bad(f'equation of time printed as {rows.get("Equation of time")}, it is {e} min', **w)
            for f in ('sunrise', 'sunset'):
                for u, n in (('utc', 'UTC'), ('local', z)):
                    v = pd.Timestamp(np.asarray(getattr(x, f)(units=u)).reshape(-1)[0])
                    g = rows.get(f'{f.capitalize()}({n})', '')
                    ok = not re.search(r'\d', g) if pd.isnull(v) else g == f'{v:%H:%M:%S}'
                    if now and not ok and not pd.isnull(v) and re.fullmatch(r'\d\d:\d\d:\d\d', g):
                        d = abs((pd.Timestamp(f'2000-01-01 {g}') - pd.Timestamp(f'2000-01-01 {v:%H:%M:%S}')).total_seconds())
                        ok = min(d, 86400 - d) < 5 + slack
                    if not ok:
                        return bad(f'{f} ({n}) printed as {g}, it is {v}', **w)
            if now:
                g = rows.get('Time', '')
                ok = any(f'{q:%H:%M:%S(%Z)}' == g for q in pd.date_range(ts.floor('s'), periods=int(slack) + 3, freq='s'))
                if not ok:
                    return bad(f'the present time is printed as {g}, it is {ts:%H:%M:%S(%Z)}', **w)
            else:
                if rows.get('Time') != f'{ts:%H:%M:%S(%Z)}' or rows.get('Day of week', '').lower() != f'{ts:%A}'.lower() or rows.get('Date', '').lower() != f'{ts:%d %B %Y}'.lower():
                    return bad(f'{ts} printed as {rows.get("Day of week")} {rows.get("Date")} {rows.get("Time")}', **w)
    finally:
        if now:
            os.environ.pop('TZ', None) if old is None else os.environ.update(TZ=old)
            clk.tzset()
    return OK


@guard
def c23(uc, alg, eng, ref, what, form, seed=1):
    import pandas as pd
    import xarray as xr
    rng = np.random.default_rng(seed)
    P = dict(uc=uc, alg=alg, eng=eng, ref=ref, what=what, form=form, seed=seed)
    one = form in ('scalar', '0-d', 'integer', 'text', '0-d s', '0-d us', 'timestamp')
    names = ['ecf', 'eot', 'declination', 'zenith', 'azimuth', 'latitude', 'longitude', 'true_solar_time', "sunrise('utc')", "sunset('deg')", 'daylight_length()',
             'incidence(30., 20.)']
    for r in range(40):
        n = 1 if one else int(rng.integers(2, 5))
        t = rng.integers(-6*10**8, 4*10**9, n)
        tt = bt = pd.DatetimeIndex(dt(t, 's'))
        lat, lon = rng.uniform(-90, 90, n), rng.uniform(-180, 179.9, n)
        if what == 'places':
            ks = form.split() if form[:2] in ('f8', 'i8') and ' ' in form else [form]*2
            got = []
            for k, v in zip(ks, (lat, lon)):
                if k in ('i8', 'i4', 'i2', 'integers', 'integer'):
                    v = np.round(v)
                elif k == 'u1':
                    v = np.abs(np.round(v))
                elif k == 'f4':
                    v = v.astype('f4').astype('f8')
                elif k == 'mixed':
                    v = np.where(np.arange(n) % 2, np.round(v), v)
                v = np.where(v >= 180, 179, v)
                q = {'list': list, 'tuple': tuple, 'object': lambda v: v.astype(object), 'series': lambda v: pd.Series(v, index=range(10, 10 - n, -1)),
                     'data array': lambda v: xr.DataArray(v, dims='point'), 'scalar': lambda v: float(v[0]), 'integer': lambda v: int(v[0]),
                     '0-d': lambda v: np.array(v[0]), 'integers': lambda v: [int(x) for x in v],
                     'mixed': lambda v: [int(x) if i % 2 else float(x) for i, x in enumerate(v)]}.get(k, lambda v: v.astype(k))(v)
                got.append((q, v))
            (a, ba), (o, bo) = got
        else:
            a, o, ba, bo = lat, lon, lat, lon
            w = form.split()
            u = w[1] if w[0] in ('array', '0-d') else 'us' if 'timestamp' in form else 's' if 'text' in form else 'ns'
            x = dt(t, 's').astype('M8[ns]') + rng.integers(0, NS, n).astype('m8[ns]')
            x = x.astype(f'M8[{u}]')
            bt = pd.DatetimeIndex(x.astype('M8[ns]'))
            tt = {'array': lambda: x, '0-d': lambda: x.reshape(()), 'data': lambda: xr.DataArray(x, dims='time'), 'list': lambda: [pd.Timestamp(q) for q in x],
                  'timestamp': lambda: pd.Timestamp(x[0]), 'texts': lambda: [str(q) for q in x], 'text': lambda: str(x[0])}[w[0]]()
        f = getattr(sw(), uc)
        want = f(bt, ba, bo, algorithm=alg, engine=eng, refraction=ref)
        at = f'{uc} {alg}/{eng} at {[str(q) for q in bt]}, {list(ba)}, {list(bo)} with {what} as {form}'
        try:
            got = f(tt, a, o, algorithm=alg, engine=eng, refraction=ref)
            for k in names:
                u, v = access(got, k), access(want, k)
                if u.dims != v.dims or u.shape != v.shape or u.dtype != v.dtype:
                    return bad(f'{at}: {k} is {u.dims} {u.shape} {u.dtype}, not {v.dims} {v.shape} {v.dtype}', **P)
                for c in v.coords:
                    if c not in u.coords or not np.array_equal(u.coords[c].values, v.coords[c].values):
                        return bad(f'{at}: {k} has other labels', **P)
                g, h = np.asarray(u.values), np.asarray(v.values)
                same = np.array_equal(g, h) if g.dtype.kind == 'M' and np.array_equal(np.isnat(g), np.isnat(h)) and not np.isnat(g).any() else \
                    np.array_equal(g.astype('i8'), h.astype('i8')) if g.dtype.kind == 'M' else np.allclose(g, h, rtol=1e-12, atol=1e-9, equal_nan=True)
                if not same:
                    return bad(f'{at}: {k} is {g.reshape(-1)[:4]}, not {h.reshape(-1)[:4]}', **P)
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return bad(f'{at} raises {e!r}', **P)
    return OK


# -- C24 ------------------------------------------------------------------------------------

def c24(uc, alg, eng, ref, nt, ny, nx, pattern=None, seed=1):
    import itertools
    of_lat = ['latitude', 'daylight_length()'] + [f'{f}({u!r})' for f in ('sunrise', 'sunset') for u in ('deg', 'rad')]
    of_lon, of_none = ['longitude', 'true_solar_time'], ['ecf', 'eot', 'declination', 'dec']
    names = ['latitude', 'longitude', *RAW, *DERIVED]
    pats = [tuple(pattern)] if pattern else []
    pats += [p for p in itertools.product((False, True), repeat=ny + nx) if any(p)][:40]
    pats += [p for p in pats[:1] for _ in range(10)]
    null = lambda x: bool(np.isnat(x) if np.asarray(x).dtype.kind in 'mM' else np.isnan(x))
    for rep, pat in enumerate(pats):
        t, a, o = std_points(max(nt, ny, nx), seed + rep)
        t, a, o = dt(t[:nt]), a[:ny], o[:nx]
        py, px = pat[:ny], pat[ny:]
        an, on = np.where(py, np.nan, a), np.where(px, np.nan, o)
        par = dict(uc=uc, alg=alg, eng=eng, ref=ref, nt=nt, ny=ny, nx=nx, pattern=list(map(bool, pat)), seed=seed)
        if uc in ('true_solar_time', 'universal_time_coordinated'):
            from sunwhere.utils import datetime as D
            try:
                x, y = (np.reshape(getattr(D, uc)(t, v), (nt, nx)) for v in (on, o))
            except Exception as e:
                return bad(f'{uc} with longitudes {list(on)} raises {e!r}', **par)
            for i, l in np.ndindex(nt, nx):
                if null(x[i, l]) if not px[l] else not null(x[i, l]) or False:
                    return bad(f'{uc} of {t[i]} with longitudes {list(on)} is {x[i, l]} at {l}', **par)
                if not px[l] and diff(x[i, l], y[i, l], 0):
                    return bad(f'{uc} of {t[i]} with longitudes {list(on)} is {x[i, l]} at {l}, {y[i, l]} without missing ones', **par)
            continue
        kw = dict(algorithm=alg, engine=eng, refraction=ref)
        good = getattr(sw(), uc)(t, a, o, **kw)
        where_ = f'{uc} {alg}/{eng} refraction={ref} at {[str(q) for q in t]}, {list(an)}, {list(on)}'
        try:
            r = getattr(sw(), uc)(t, an, on, **kw)
            vals = {k: access(r, k) for k in names}
        except Exception as e:
            return bad(f'{where_} raises {e!r}', **par)
        for k in names:
            v, w = vals[k], access(good, k)
            if v.dims != w.dims or v.shape != w.shape or v.dtype != w.dtype:
                return bad(f'{where_}: {k} is {v.dims} {v.shape} {v.dtype}, not {w.dims} {w.shape} {w.dtype}', **par)
            la, lo = k not in of_none + of_lon, k not in of_none + of_lat
            for idx in np.ndindex(v.shape):
                i, j, l = where(v.dims, idx, uc)
                x, y = v.values[idx], w.values[idx]
                if la and py[j] or lo and px[l]:
                    if not null(x):
                        return bad(f'{where_}: {k}{idx} is {x!r} where a coordinate is missing', **par)
                elif diff(x, y, 1e-6, 'azimuth' if k in ('azimuth', 'saa') else 'num'):
                    return bad(f'{where_}: {k}{idx} is {x!r}, {y!r} if no coordinate were missing', **par)
    return OK
