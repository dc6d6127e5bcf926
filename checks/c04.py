"""C04: a missing time gives missing values there and nowhere else.

Times are solver variables that may be NaT: the selection of valid times forks the execution into
every pattern of missing entries; on each path every element must be NaN/NaT or the single-point term."""
import numpy as np

from symx import smt, terms as T
from . import common as C

NAT = -2**63
SHAPES = {'sites': [(1, 1, 1), (3, 2, 2)], 'regular_grid': [(2, 2, 1), (3, 1, 2)], 'transect': [(1, 1, 1), (3, 3, 3)]}
MORE = {'sites': [(4, 1, 1)], 'regular_grid': [(4, 2, 2)], 'transect': [(4, 4, 4)]}


def is_missing(n, dt):
    if n.op != 'const':
        return None
    if dt.kind in 'mM':
        return int(n.val) == NAT
    return n.val != n.val


def job(chk, uc, alg, eng, ref, shapes, derived):
    m = C.sw()
    names = list(C.RAW) + (C.DERIVED if derived else [])
    one = C.single(C.request('sites', alg, eng, ref))
    if uc != 'sites':
        one = C.single(C.request(uc, alg, eng, ref))
    tpl = {k: C.nodes(C.access(one, k)).reshape(-1)[0] for k in names}
    chk.functions |= {f'sunwhere.libspa.{"py" if eng == "numpy" else "ne"}_{alg}.sunpos', 'sunwhere._core.evaluate', 'sunwhere._base.Sunpos', 'sunwhere.usecases.'+uc}
    P = smt.Prover(C.bounds(1, 1, 1), C.sample_env(1, 1, 1, 40))
    for nt, ny, nx in shapes:
        b = {k: v for k, v in C.bounds(nt, ny, nx).items() if k[0] != 't'}
        tv = [T.var(f't{i}', 'I') for i in range(nt)]
        nat = [T.eq(t, T.const(NAT)) for t in tv]
        asm = [T.bor(q, T.band(T.le(T.const(C.T0), t), T.le(t, T.const(C.T1)))) for q, t in zip(nat, tv)]
        name0 = f'{uc} {alg}/{eng} refraction={ref} shape {(nt, ny, nx)}'
        params = dict(uc=uc, alg=alg, eng=eng, ref=ref, nt=nt, ny=ny, nx=nx)

        def run():
            T.NATVARS.update(t.val for t in tv)
            sp = getattr(m, uc)(C.times(nt), C.floats('a', ny), C.floats('o', nx), algorithm=alg, engine=eng, refraction=ref)
            return sp, {k: C.access(sp, k) for k in names}
        try:
            paths = C.explore(run, b, asm)
        except Exception as e:
            chk.unproved(name0, 'c04', params, repr(e)[:500])
            continue
        finally:
            T.NATVARS.clear()
        feas = C.feasible_fn(b)
        seen = set()
        for conds, kind, val in paths:
            chk.paths += 1
            # which times are missing on this path
            pat = []
            for q in nat:
                y, n = feas(asm + conds + [q]), feas(asm + conds + [T.bnot(q)])
                pat.append(True if y and not n else False if n and not y else None)
            name = f'{name0} missing {pat}'
            if None in pat:
                # the code did not distinguish them on this path: both cases apply to the same terms
                pats = [[p if p is not None else x for p in pat] for x in (True, False)]
            else:
                pats = [pat]
            seen |= {tuple(p) for p in pats}
            if kind == 'raise':
                chk.unproved(name, 'c04', {**params, 'pattern': pats[0]}, repr(val)[:300])
                continue
            sp, vals = val
            for pt in pats:
                sub = {t: T.const(NAT) for t, p in zip(tv, pt) if p}
                sub.update({q: T.FALSE for q, p in zip(nat, pt) if not p})
                bad, ids = [], []
                for k in names:
                    v = vals[k]
                    arr = C.nodes(v)
                    timeful = 'time' in v.dims
                    for idx in np.ndindex(arr.shape):
                        x = arr[idx]
                        if not (x.op == 'const' or x.op == 'var'):
                            x = T.substitute([x], sub)[0]
                        i, j, l = C.where(v.dims, idx, uc)
                        if timeful and pt[i]:
                            if not is_missing(x, v.dtype if hasattr(v, 'dtype') else np.dtype('f8')):
                                bad.append((f'{k}{idx}', f'not missing: {T.show(x, 3)[:120]}'))
                            continue
                        y = C.rename(tpl[k], i, j, l)
                        if x is not y and not equal(x, y, i, j, l, P):
                            bad.append((f'{k}{idx}', f'{T.show(x, 3)[:120]}'))
                        ids.append((y, y))
                if not bad and C.same_all(ids):
                    chk.proved(name)
                else:
                    chk.unproved(name, 'c04', {**params, 'pattern': pt}, str(bad[:3])[:500])
        if len(seen) != 2**nt:
            chk.unproved(f'{name0}: all {2**nt} patterns of missing times are reached', 'c04', params, f'{len(seen)} of {2**nt} patterns')


def equal(x, y, i, j, l, P):
    back = {T.var(f'{p}{q}', t): T.var(f'{p}0', t) for p, q, t in (('t', i, 'I'), ('a', j, 'R'), ('o', l, 'R'))}
    other = {w: T.var('x_' + w.val, w.typ) for w in T.variables([x]) if w not in back}
    x, y = T.substitute([x, y], {**other, **back})
    if not {w.val for w in T.variables([x])} <= {'t0', 'a0', 'o0'}:
        return False
    return P.canon(x) is P.canon(y)


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = [f'shapes (times, latitudes, longitudes) {SHAPES}' + (f', thorough {MORE}' if th else '') + ', every pattern of missing times',
                  'other times: any whole second of 1950-2099; any place', 'all algorithms and engines; derived accessors for psa/numexpr']
    chk.assumptions = ['numpy conversions of NaN to datetime64/timedelta64 give NaT (checked on the build at hand)']
    jobs = []
    for a, e in C.IMPL[::-1]:
        for uc in C.USECASES:
            for ref in ((True, False) if th or a == 'psa' else (True,)):
                d = (a, e) == ('psa', 'numexpr')
                jobs.append((job, (uc, a, e, ref, SHAPES[uc] + (MORE[uc] if th else []), d), ('c04', dict(uc=uc, alg=a, eng=e, ref=ref, nt=3, ny=3 if uc == 'transect' else 2, nx=3 if uc == 'transect' else 2))))
    chk.run_jobs(jobs)
