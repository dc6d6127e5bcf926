"""C21: calls and accessors have no side effects.

Symbolic heap: inputs are arrays of solver variables.  After a call and after every accessor the input
arrays must hold the same terms, outputs must not alias them nor the outputs of another call, an
accessor must give the same terms whatever was read before, and a second call with independent symbolic
inputs must give, on every path, the terms it gives as a first call."""
import numpy as np

from symx import pdshim, smt, terms as T
from symx.arr import SymArray
from . import common as C

SHAPES = {'sites': (2, 3, 3), 'regular_grid': (2, 3, 2), 'transect': (3, 3, 3)}
EXTRA = ['eth(1000.)', 'incidence(0., 0.)', 'incidence(90., -120.)', 'times', 'times_utc', 'local_standard_time', 'latitude', 'longitude',
         'algorithm', 'engine', 'has_refraction', 'usecase', 'timezone']
ZONE = pdshim.SymTZ('Europe/Madrid', 'zoneinfo')


def key(v):
    """everything observable of a value"""
    if isinstance(v, pdshim.SymIndex):
        return ('index', v.unit, v.tz, tuple(x.id for x in v.ticks))
    if hasattr(v, 'dims'):
        a = C.nodes(v)
        cs = tuple(sorted((c, v.coords[c].dims, tuple(x.id for x in C.nodes(v.coords[c]).reshape(-1))) for c in v.coords))
        return ('array', v.name, v.dims, a.shape, str(v.dtype), tuple(x.id for x in a.reshape(-1)), cs, tuple(sorted((k, str(w)) for k, w in v.attrs.items())))
    return ('value', v)


def buffers(v):
    """the memory behind an array-like"""
    out = []
    vs = [v.variable] + [c.variable for c in v.coords.values()] if hasattr(v, 'coords') else [v]
    for x in vs:
        x = getattr(x, '_data', x)
        if isinstance(x, SymArray):
            x = x._d
        if isinstance(x, np.ndarray):
            out.append(x)
    return out


def inputs(nt, ny, nx, kind, p=('t', 'a', 'o')):
    def arr(prefix, n, typ, dt):
        return SymArray(C.obj([T.var(f'{prefix}{i}', typ) for i in range(n)]), dt)
    t = arr(p[0], nt, 'I', 'M8[s]')
    if kind == 'index':
        t = pdshim.SymIndex(list(t._d), 's', None)
    if kind == 'aware':
        t = pdshim.SymIndex(list(t._d), 's', ZONE)
    a, o = arr(p[1], ny, 'R', 'f8'), arr(p[2], nx, 'R', 'f8')
    if kind == 'list':
        a, o = list(a._d), list(o._d)
    return t, a, o


def bnd(p, nt, ny, nx):
    b = {f'{p[0]}{i}': (C.T0, C.T1) for i in range(nt)}
    b.update({f'{p[1]}{i}': (-90, 90) for i in range(ny)})
    b.update({f'{p[2]}{i}': (-180, 180, True) for i in range(nx)})
    return b


def snap(x):
    if isinstance(x, pdshim.SymIndex):
        return list(x.ticks)
    return list(x._d.reshape(-1)) if isinstance(x, SymArray) else list(x)


def job_inputs(chk, uc, alg, eng, ref, kind):
    """inputs stay as they were and are not aliased by outputs"""
    m = C.sw()
    nt, ny, nx = SHAPES[uc]
    name = f'{uc} {alg}/{eng} refraction={ref}, inputs as {kind}'
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    names = list(C.RAW) + C.DERIVED + EXTRA if (alg, eng) == ('psa', 'numexpr') else list(C.RAW) + ['latitude', 'longitude', 'times']
    chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere._base.Sunpos', 'sunwhere.usecases.'+uc}
    before = None

    def run():
        nonlocal before
        io = inputs(nt, ny, nx, kind)
        before = [snap(x) for x in io]
        sp = getattr(m, uc)(*io, algorithm=alg, engine=eng, refraction=ref)
        return io, before, sp, {k: C.access(sp, k) for k in names}
    try:
        io, before, sp, vals = C.single(C.explore(run, bnd('tao', nt, ny, nx)))
        sp2 = C.single(C.explore(lambda: getattr(m, uc)(*io, algorithm=alg, engine=eng, refraction=ref), bnd('tao', nt, ny, nx)))
    except Exception as e:
        chk.unproved(name, 'c21', params, f'{type(e).__name__}: {e}'[:400])
        return
    pairs, bad = [], []
    for x, y in zip(before, [snap(q) for q in io]):
        if len(x) != len(y):
            bad.append('an input changed its length')
        pairs += [(p, q) for p, q in zip(x, y)]
    if any(p is not q for p, q in pairs):
        bad.append('an input array was modified')
        P = smt.Prover(bnd('tao', nt, ny, nx), {'_': np.zeros(1)})
        P.types = {f'{p}{i}': 'I' if p == 't' else 'R' for p, n in zip('tao', (nt, ny, nx)) for i in range(n)}
        for p, q in pairs:
            if p is not q and p.typ == q.typ:
                try:
                    g = P.query(T.eq(p, q), set(), timeout=5., want_model=True)
                except T.Unsupported:
                    continue
                if isinstance(g, dict):
                    params['given'] = {k: v for k, v in g.items() if k[0] in 'tao'}
                    break
    ib = [b for x in io for b in buffers(x)]
    ob = [(k, b) for k in names if k != 'location' for b in buffers(vals[k])]
    ob2 = [b for k in names for b in buffers(C.access(sp2, k))]
    for k, b in ob:
        if b.flags.writeable and any(np.shares_memory(b, c) for c in ib):
            bad.append(f'{k} shares memory with an input')
        if b.flags.writeable and any(np.shares_memory(b, c) for c in ob2):
            bad.append(f'{k} shares memory with the result of another call')
    for k in names:
        x, y = key(vals[k]), key(C.access(sp2, k))
        if x != y:
            bad.append(f'{k} of a repeated call differs')
    if not bad and C.same_all(pairs):
        chk.proved(name)
    else:
        chk.unproved(name, 'c21', params, '; '.join(bad[:4]))


def job_access(chk, uc, alg, eng, ref, shape, pairwise):
    """an accessor shows the same whatever was read before it"""
    m = C.sw()
    nt, ny, nx = shape
    params = dict(uc=uc, alg=alg, eng=eng, ref=ref)
    names = list(C.RAW) + C.DERIVED + EXTRA
    b = bnd('tao', nt, ny, nx)

    def fresh():
        return getattr(m, uc)(*inputs(nt, ny, nx, 'aware' if pairwise else 'index'), algorithm=alg, engine=eng, refraction=ref)
    feas = C.feasible_fn(b)

    def run(f):
        from symx.explore import Explorer
        ps = list(Explorer(feas).run(f))
        return C.single(ps)
    name0 = f'{uc}{shape} {alg}/{eng} refraction={ref}'
    try:
        solo = {k: run(lambda: key(C.access(fresh(), k))) for k in names}
    except Exception as e:
        chk.unproved(name0 + ': accessors', 'c21', params, f'{type(e).__name__}: {e}'[:400])
        return
    orders = {'forward': names, 'backward': names[::-1], 'twice': names + names}
    if pairwise:
        orders.update({f'{k} first': [k] + [n for n in names if n != k] for k in names})
    for on, order in orders.items():
        bad = []
        pairs = []

        def f():
            sp = fresh()
            return [(k, key(C.access(sp, k))) for k in order]
        try:
            for k, x in run(f):
                if x != solo[k]:
                    bad.append(k)
                elif x[0] == 'array':
                    pairs += [(T.by_id(p), T.by_id(q)) for p, q in zip(x[5], solo[k][5])]
        except Exception as e:
            bad.append(repr(e)[:300])
        if not bad and C.same_all(pairs):
            chk.proved(f'{name0}: reading accessors {on}')
        else:
            chk.unproved(f'{name0}: reading accessors {on}', 'c21', params, f'differ: {bad[:5]}')
    if pairwise:
        for k in names:
            bad = []

            def f():
                out = []
                for j in names:
                    sp = fresh()
                    C.access(sp, k)
                    out.append((j, key(C.access(sp, j))))
                return out
            try:
                bad = [j for j, x in run(f) if x != solo[j]]
            except Exception as e:
                bad = [repr(e)[:300]]
            if not bad and C.same_all([(T.const(0), T.const(0))]):
                chk.proved(f'{name0}: {k} leaves every other accessor unchanged')
            else:
                chk.unproved(f'{name0}: {k} leaves every other accessor unchanged', 'c21', params, f'differ: {bad[:5]}')


def job_history(chk, alg, eng):
    """a call after other calls, with independent symbolic inputs, gives what it gives alone"""
    m = C.sw()
    P2 = ('u', 'b', 'c')
    cases = [(uc, ref) for uc in C.USECASES for ref in (True, False)]
    for uc, ref in cases:
        nt, ny, nx = SHAPES[uc]
        b = {**bnd('tao', nt, ny, nx), **bnd(P2, nt, ny, nx)}
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref)

        def second(x, first):
            (uc1, alg1, eng1, ref1, shape1, bad1) = first

            def f():
                io = inputs(*shape1, 'array')
                if bad1:
                    try:
                        getattr(m, uc1)(io[0], [T.const(95.)]*shape1[1], io[2], algorithm=alg1, engine=eng1, refraction=ref1)
                    except ValueError:
                        pass
                else:
                    r = getattr(m, uc1)(*io, algorithm=alg1, engine=eng1, refraction=ref1)
                    C.access(r, 'sunrise("utc")')
                sp = getattr(m, uc)(*inputs(nt, ny, nx, 'array', P2), algorithm=alg, engine=eng, refraction=ref)
                return {k: C.access(sp, k) for k in C.RAW}
            return f
        try:
            alone = C.single(C.explore(lambda: {k: C.access(getattr(m, uc)(*inputs(nt, ny, nx, 'array', P2), algorithm=alg, engine=eng, refraction=ref), k) for k in C.RAW}, b))
        except Exception as e:
            chk.unproved(f'{uc} {alg}/{eng} refraction={ref}: a first call', 'c21', params, repr(e)[:300])
            continue
        others = [(u1, alg, eng, r1, SHAPES[u1], False) for u1, r1 in cases]
        others += [(uc, a1, e1, ref, SHAPES[uc], False) for a1, e1 in C.IMPL if (a1, e1) != (alg, eng) and 'nrel' not in (a1, alg)]
        others += [(uc, alg, eng, ref, SHAPES[uc], True)]
        for first in others:
            name = f'{uc} {alg}/{eng} refraction={ref} after {first[0]} {first[1]}/{first[2]} refraction={first[3]}' + (' (rejected)' if first[5] else '')
            bad = []
            pairs = []
            try:
                for conds, kind, val in C.explore(second(None, first), b, max_paths=64):
                    chk.paths += 1
                    if kind == 'raise':
                        bad.append(f'raises {val!r}'[:200])
                        continue
                    P = None
                    for k in C.RAW:
                        for x, y in zip(C.nodes(val[k]).reshape(-1), C.nodes(alone[k]).reshape(-1)):
                            if x is not y:
                                if P is None:
                                    env = {v: np.random.default_rng(1).uniform(0, 1, 8)*(q[1] - q[0]) + q[0] for v, q in b.items()}
                                    P = smt.Prover(b, {v: e.astype('i8') if v[0] in 'tu' else e for v, e in env.items()}, assume=conds)
                                if not (conds and P.prove(T.eq(x, y), timeout=2.)):
                                    bad.append(k)
                                    break
                            pairs.append((y, y))
                        if len(bad) > 2:
                            break
            except Exception as e:
                bad.append(f'{type(e).__name__}: {e}'[:300])
            if not bad and C.same_all(pairs):
                chk.proved(name)
            else:
                chk.unproved(name, 'c21', {**params, 'first': list(first[:4])}, str(bad[:4])[:400])


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes (times, latitudes, longitudes) {SHAPES}; inputs as arrays, lists and (aware) indexes of any values',
                  'accessors: every order of two, forward, backward, repeated, each one first; histories of two calls, every pair of use cases, refraction settings and implementations']
    chk.assumptions = ['pd.to_datetime copies its input (checked on the build at hand)']
    jobs = []
    for a, e in C.IMPL[::-1]:
        jobs.append((job_history, (a, e), ('c21', dict(uc='sites', alg=a, eng=e, ref=True))))
        for uc in C.USECASES:
            for ref in (True, False):
                for kind in ('array', 'list', 'index', 'aware') if th or a != 'nrel' else ('array',):
                    jobs.append((job_inputs, (uc, a, e, ref, kind), ('c21', dict(uc=uc, alg=a, eng=e, ref=ref))))
    for uc in C.USECASES:
        for a, e in C.IMPL if th else [('psa', 'numexpr'), ('iqbal', 'numpy')]:
            jobs.append((job_access, (uc, a, e, True, SHAPES[uc], False), ('c21', dict(uc=uc, alg=a, eng=e, ref=True))))
        jobs.append((job_access, (uc, 'psa', 'numpy', False, (1, 1, 1), True), ('c21', dict(uc=uc, alg='psa', eng='numpy', ref=False))))
    chk.run_jobs(jobs)
