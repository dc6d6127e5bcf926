"""C10: the time zone of the input times does not change the answer.

A zone is an uninterpreted function from instants to UTC offsets (its local times may be ambiguous). The
pipeline runs on symbolic instants given naively in UTC and in each kind of zone and container; every
output is proved to be the same term, on the one path there is, and the instants reported are the input's."""
import itertools

import numpy as np

from symx import pdshim, smt, terms as T
from symx.arr import SymArray
from . import common as C

SHAPES = {'sites': [(2, 2, 2), (1, 1, 1)], 'regular_grid': [(2, 2, 1)], 'transect': [(2, 2, 2), (1, 1, 1)]}
ZONES = {k: pdshim.SymTZ(pdshim.NAMES[k], k) for k in ('pytz', 'zoneinfo', 'fixed')}
FORMS = ('index', 'list', 'tuple', 'scalar')
ACC = [*C.RAW, 'true_solar_time', "sunrise('utc')", "sunset('utc')", "sunrise('deg')", 'daylight_length()', 'incidence(30., 20.)', 'airmass()', 'eth()']
UNIT = {'s': 1, 'ns': 10**9, 'us': 10**6}


def build(nt, unit, tz, form):
    x = C.times(nt, unit, tz)
    if form == 'index':
        return x
    if form == 'scalar':
        return C.times(nt, unit, tz, scalar=True)
    if form == 'numpy':
        return x.__symarray__()
    return (list if form == 'list' else tuple)(x)


def job(chk, uc, alg, eng, ref, shape, unit, zk, form, accs):
    m = C.sw()
    nt, ny, nx = shape
    chk.functions |= {'sunwhere._base.Sunpos', 'sunwhere._core.evaluate', 'sunwhere.utils.validate.check_timelatlon', 'sunwhere.usecases.'+uc}
    name = f'{uc} {alg}/{eng} refraction={ref} {nt} times [{unit}] {zk} zone as {form}'
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref, zk=zk, form=form, unit=unit, shape=list(shape))
    k = UNIT[unit]
    b = C.bounds(nt, ny, nx, t=(C.T0*k, C.T1*k))
    tz = {'naive': None, 'utc': pdshim.UTC}.get(zk, ZONES.get(zk))
    lat, lon = C.floats('a', ny), C.floats('o', nx)

    def run(tms):
        def f():
            sp = getattr(m, uc)(tms(), lat, lon, algorithm=alg, engine=eng, refraction=ref)
            return sp, {a: C.access(sp, a) for a in accs}
        return C.single(C.explore(f, b))
    base = run(lambda: build(nt, unit, None, 'index'))
    try:
        sp, got = run(lambda: build(nt, unit, tz, form))
    except Exception as e:
        chk.unproved(name, 'c10', params, f'{type(e).__name__}: {e}'[:400])
        return
    bad, pairs = [], []
    P = None
    for a in accs:
        x, y = C.nodes(got[a]), C.nodes(base[1][a])
        if x.shape != y.shape:
            bad.append(f'{a}: shape {x.shape}')
            continue
        for idx in np.ndindex(x.shape):
            u, v = x[idx], y[idx]
            if u is not v:
                try:
                    if P is None:
                        e = C.sample_env(nt, ny, nx)
                        P = smt.Prover(b, {q: w*k if q[0] == 't' else w for q, w in e.items()})
                    u, v = P.canon(u), P.canon(v)
                except Exception as ex:
                    bad.append(f'{a}{idx}: {type(ex).__name__} {ex}')
                    break
            pairs.append((u, v))
            if u is not v:
                bad.append(f'{a}{idx}: {T.show(u, 4)[:150]}')
                break
    # the instants
    L = smt.Prover(b, {'_': np.zeros(1)})
    tv = [T.var(f't{i}', 'I') for i in range(nt)]

    def ticks(i, want_unit):
        x = [T.dt_convert(n, i.unit, want_unit, False) for n in i.ticks]
        return [n for n in x]
    for what, idx, zone in (('times_utc', sp.times_utc, pdshim.UTC), ('times', sp.times, tz or pdshim.UTC)):
        try:
            if not isinstance(idx, pdshim.SymIndex) or idx.tz is not zone:
                bad.append(f'{what} is in zone {getattr(idx, "tz", None)}')
                continue
            for t, n in zip(tv, ticks(idx, 'ns')):
                w = T.mul(t, T.const(10**9//k))
                if n is not w and not L.prove(T.eq(n, w), timeout=5.):
                    bad.append(f'{what}: {T.show(n, 4)[:150]}')
                pairs.append((n, n))
            if len(idx) != nt:
                bad.append(f'{len(idx)} {what}')
        except Exception as e:
            bad.append(f'{what}: {type(e).__name__} {e}')
    if sp.timezone != str(tz or 'UTC'):
        bad.append(f'timezone {sp.timezone!r}')
    # labels: wall clock of the zone
    try:
        lab = C.nodes(got['zenith'].coords['time'])
        for i, n in enumerate(lab.reshape(-1)):
            n = offsets(n, tv[i], k, L)
            off = T.const(0) if tz is None or tz is pdshim.UTC else T.var(f'off{i}', 'I')
            if tz is not None and tz.kind == 'fixed' and tz is not pdshim.UTC:
                off = tz.offset(None)
            w = T.mul(T.add(tv[i], T.mul(off, T.const(k))), T.const(10**9//k))
            if n is not w and not L.prove(T.eq(n, w), timeout=5.):
                bad.append(f'time label {T.show(n, 5)[:200]}')
    except Exception as e:
        bad.append(f'labels: {type(e).__name__} {e}')
    if not bad and C.same_all(pairs):
        chk.proved(name)
    else:
        chk.unproved(name, 'c10', params, str(bad[:4])[:600])


def offsets(n, t, k, L):
    """the offset of the instant becomes a variable"""
    m = {}
    for x in T.topo([n]):
        if x.op.startswith('uf:off_') and x.args and {v.val for v in T.variables([x])} == {t.val}:
            s = t if k == 1 else T.floordiv(t, T.const(k))
            if x.args[0] is s or L.prove(T.eq(x.args[0], s), timeout=5.):
                m[x] = T.var('off' + t.val[1:], 'I')
    return T.substitute([n], m)[0] if m else n


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = ['instants 1950-2099 at second, microsecond and nanosecond resolution; UTC offset an arbitrary function of the instant, any local time may be ambiguous',
                  f'shapes (times, latitudes, longitudes) {SHAPES}; times as index, list, tuple, numpy array or a single timestamp (to the microsecond, as numpy reads it)']
    chk.assumptions = ['pandas localisation and conversion are modelled: instants are UTC ticks plus a zone; local times are read back through an unspecified inverse']
    jobs = []
    for alg, eng in C.IMPL[::-1]:
        for uc in C.USECASES:
            for shape in SHAPES[uc]:
                for zk in ('utc', 'pytz', 'zoneinfo', 'fixed', 'naive'):
                    for form in (*FORMS, 'numpy'):
                        if form == 'scalar' and shape[0] != 1 or form == 'numpy' and zk != 'naive':
                            continue
                        rich = (alg, eng) == ('psa', 'numexpr')
                        if not (rich or form in ('index', 'scalar') and zk in ('pytz', 'zoneinfo') or th):
                            continue
                        for unit in ('s', 'us', 'ns') if rich or th else ('s',):
                            if (zk, form) == ('naive', 'index') and unit == 's' or (form, unit) == ('scalar', 'ns'):
                                continue
                            for ref in ((True, False) if th else (True,)):
                                a = (uc, alg, eng, ref, shape, unit, zk, form, ACC if rich or th else ACC[:7])
                                jobs.append((job, a, ('c10', dict(uc=uc, alg=alg, eng=eng, ref=ref, zk=zk, form=form, unit=unit, shape=list(shape)))))
    # few processes: consecutive jobs share their encodings
    by = {}
    for j in jobs:
        by.setdefault(j[1][:5], []).append(j)
    chk.run_jobs([(batch, (b,)) for b in by.values()])


def batch(chk, js):
    for j in js:
        C._guard(chk, *j)
