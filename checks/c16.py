"""C16: invalid requests raise ValueError, valid ones are accepted.

Requests with unbounded symbolic latitudes and longitudes, symbolic names and every combination of small
sizes are executed on all paths; z3 decides that a path raises ValueError exactly when its inputs are
invalid."""
import itertools

import numpy as np
import z3

from symx import smt, terms as T
from symx.arr import SymArray
from symx.strs import SymStr, vocabulary
from . import common as C


def tbounds(nt):
    return {f't{i}': (C.T0, C.T1) for i in range(nt)}


def valid_places(ny, nx):
    g = T.TRUE
    for i in range(ny):
        a = T.var(f'a{i}', 'R')
        g = T.band(g, T.band(T.le(T.const(-90.), a), T.le(a, T.const(90.))))
    for i in range(nx):
        o = T.var(f'o{i}', 'R')
        g = T.band(g, T.band(T.le(T.const(-180.), o), T.lt(o, T.const(180.))))
    return g


def outcome(kind, val):
    return 'ok' if kind == 'ok' else 'ValueError' if isinstance(val, ValueError) else type(val).__name__


def check_paths(chk, name, run, valid, bnds, oracle, params, types, axioms=()):
    """every path: ValueError <=> not valid"""
    try:
        paths = C.explore(run, bnds, max_paths=3000)
    except Exception as e:
        chk.unproved(name, oracle, params, f'{type(e).__name__}: {e}'[:400])
        return
    P = smt.Prover(bnds, {'_': np.zeros(1)})
    P.types = types
    bad = []
    extra = {}
    covered = T.FALSE
    for conds, kind, val in paths:
        chk.paths += 1
        out = outcome(kind, val)
        pc = T.TRUE
        for c in list(conds) + list(axioms):
            pc = T.band(pc, c)
        covered = T.bor(covered, pc)
        want = valid if out == 'ok' else T.bnot(valid) if out == 'ValueError' else T.FALSE
        goal = T.bor(T.bnot(pc), want)
        if goal.op == 'const':
            r = 'unsat' if goal.val else {}
            if goal.val:
                e = z3.Solver()
                smt.STATS.check(e)
        else:
            cut = set()
            if any(n.op in smt.APPS for n in T.topo([goal])):
                cut, _ = P.cone([goal], 4)
            r = P.query(goal, cut, timeout=10., want_model=True)
        if r != 'unsat':
            bad.append(f'{out} {str(val)[:120] if kind == "raise" else ""} on [{"; ".join(T.show(c, 3)[:80] for c in conds[:6])}]')
            if isinstance(r, dict) and r:
                extra.setdefault('given', []).append(r)
    if not bad:
        chk.proved(name, f'{len(paths)} paths')
    else:
        chk.unproved(name, oracle, {**params, **extra}, str(bad[:3])[:600])


def job_values(chk, uc, alg, eng, sizes, refs):
    m = C.sw()
    chk.functions |= {'sunwhere.usecases.'+uc, 'sunwhere._core.evaluate', 'sunwhere.utils.validate.check_timelatlon'}
    for (nt, ny, nx), ref in itertools.product(sizes, refs):
        shape_ok = uc == 'regular_grid' or ny == nx and (uc == 'sites' or nt == ny)
        valid = valid_places(ny, nx) if shape_ok else T.FALSE
        types = {**{f'a{i}': 'R' for i in range(ny)}, **{f'o{i}': 'R' for i in range(nx)}, **{f't{i}': 'I' for i in range(nt)}}
        b = {**tbounds(nt), **{f'a{i}': (None, None) for i in range(ny)}, **{f'o{i}': (None, None) for i in range(nx)}}

        def run():
            sp = getattr(m, uc)(C.times(nt), C.floats('a', ny), C.floats('o', nx), algorithm=alg, engine=eng, refraction=ref)
            return sp
        check_paths(chk, f'{uc} {alg}/{eng} refraction={ref}: {nt} times, {ny} latitudes and {nx} longitudes of any value', run, valid, b,
                    'c16', dict(uc=uc, alg=alg, eng=eng, ref=ref, sizes=[nt, ny, nx]), types)


def job_dims(chk, uc):
    m = C.sw()
    shapes = [(), (2,), (2, 2), (1, 2), (2, 1), (1, 1), (1, 1, 1)]

    def arr(p, s, typ='R', dt='f8'):
        n = int(np.prod(s))
        return SymArray(C.obj([T.var(f'{p}{i}', typ) for i in range(n)]).reshape(s), dt)
    for s in itertools.product(shapes, repeat=3):
        if sum(len(x) > 1 for x in s) == 0 and s != ((), (), ()) and s != ((2,), (2,), (2,)):
            continue
        if sum(len(x) > 1 for x in s) > 1 and len(set(s)) > 2:
            continue
        n = [int(np.prod(x)) for x in s]
        b = C.bounds(*n)
        okd = all(len(x) < 2 for x in s)
        types = {**{f'a{i}': 'R' for i in range(n[1])}, **{f'o{i}': 'R' for i in range(n[2])}, **{f't{i}': 'I' for i in range(n[0])}}
        check_paths(chk, f'{uc}: times of shape {s[0]}, latitudes {s[1]}, longitudes {s[2]}',
                    lambda: getattr(m, uc)(arr('t', s[0], 'I', 'M8[s]'), arr('a', s[1]), arr('o', s[2])), T.TRUE if okd else T.FALSE, b,
                    'c16', dict(uc=uc, shapes=[list(x) for x in s]), types)


def job_names(chk, uc):
    """algorithm and engine are any strings"""
    m = C.sw()
    voc = vocabulary(C.REPO_SRC + '/sunwhere' if isinstance(C.REPO_SRC, str) else C.REPO_SRC / 'sunwhere')
    both = [(SymStr('algorithm', sorted(KNOWN)), SymStr('engine', sorted(KNOWN)))]
    both += [(SymStr('algorithm', voc), e) for e in sorted({e for _, e in C.IMPL})] + [(a, SymStr('engine', voc)) for a in sorted({a for a, _ in C.IMPL})]
    b = C.bounds(1, 1, 1)
    for alg, eng in both:
        def at(s, lit):
            return s.atom(lit) if isinstance(s, SymStr) else T.TRUE if s == lit else T.FALSE
        valid = T.FALSE
        for a, e in C.IMPL:
            valid = T.bor(valid, T.band(at(alg, a), at(eng, e)))
        ax = [x for s in (alg, eng) if isinstance(s, SymStr) for x in exclusive(s, sorted(set(s.vocab) | KNOWN))]
        for ref in (True, False):
            check_paths(chk, f'{uc} refraction={ref}: algorithm {alg}, engine {eng}',
                        lambda: getattr(m, uc)(C.times(1), C.floats('a', 1), C.floats('o', 1), algorithm=alg, engine=eng, refraction=ref),
                        valid, b, 'c16', dict(uc=uc, names=True), {}, ax)
    # default engine and default algorithm are accepted
    for kw in ({}, {'algorithm': 'nrel'}, {'engine': 'numpy'}):
        check_paths(chk, f'{uc}: defaults with {kw}', lambda: getattr(m, uc)(C.times(1), C.floats('a', 1), C.floats('o', 1), **kw), T.TRUE, b, 'c16', dict(uc=uc, kw=kw), {})


def exclusive(s, lits):
    """a string equals at most one literal (only those compared matter)"""
    out = []
    for i, x in enumerate(lits):
        for y in lits[:i]:
            if s.name in ('algorithm', 'engine') and x not in KNOWN and y not in KNOWN:
                continue
            out.append(T.bnot(T.band(s.atom(x), s.atom(y))))
    return out


KNOWN = {a for a, _ in C.IMPL} | {e for _, e in C.IMPL}


def job_options(chk, uc, alg, eng):
    """names of air-mass parameterizations, corrections and units"""
    m = C.sw()
    voc = vocabulary(C.REPO_SRC + '/sunwhere' if isinstance(C.REPO_SRC, str) else C.REPO_SRC / 'sunwhere')
    b = C.bounds(1, 1, 1)
    sp = C.single(C.request(uc, alg, eng, True))
    for call, good in (('airmass', C.AMS), ('eth', C.CORR), ('sunrise', C.UNITS), ('sunset', C.UNITS)):
        s = SymStr(call + '_option', voc)
        valid = T.FALSE
        for g in good:
            valid = T.bor(valid, s.atom(g))
        ax = [T.bnot(T.band(s.atom(x), s.atom(y))) for x in good for y in voc if x < y or y not in good]
        f = {'airmass': lambda: sp.airmass(s), 'eth': lambda: sp.eth(am_correction=s), 'sunrise': lambda: sp.sunrise(s), 'sunset': lambda: sp.sunset(s)}[call]
        chk.functions.add('sunwhere._base.Sunpos.'+call)
        check_paths(chk, f'{call} of {uc} {alg}/{eng}: any name', f, valid, b, 'c16', dict(uc=uc, option=call), {}, ax)


def main(chk):
    th = chk.tier == 'thorough'
    n = (1, 2, 3, 4) if th else (1, 2, 3)
    sizes = list(itertools.product(n, repeat=3))
    big = {'sites': [(2, 130, 130), (2, 130, 129)], 'regular_grid': [(1, 130, 2), (1, 2, 130)], 'transect': [(130, 130, 130), (130, 129, 130)]}
    chk.bounds = [f'latitudes and longitudes: any real numbers (no bound); 1..{n[-1]} times, latitudes and longitudes in every combination, and {big}',
                  'inputs of up to 3 dimensions', 'names: any string (compared with the string constants of the sources)']
    chk.assumptions = ['NaN and infinite coordinates and empty inputs are not considered', 'nested lists as times are rejected by pandas (TypeError) and not considered']
    jobs = []
    for uc in C.USECASES:
        jobs.append((job_dims, (uc,), ('c16', dict(uc=uc))))
        jobs.append((job_names, (uc,), ('c16', dict(uc=uc, names=True))))
        jobs.append((job_values, (uc, 'psa', 'numexpr', sizes, (True, False)), ('c16', dict(uc=uc, alg='psa', eng='numexpr', ref=True))))
        jobs.append((job_values, (uc, 'psa', 'numpy', big[uc], (True,)), ('c16', dict(uc=uc, alg='psa', eng='numexpr', ref=True))))
        for a, e in C.IMPL:
            if (a, e) != ('psa', 'numexpr'):
                jobs.append((job_values, (uc, a, e, [(1, 1, 1), (2, 2, 2), (2, 2, 1)], (True, False)), ('c16', dict(uc=uc, alg=a, eng=e, ref=True))))
            jobs.append((job_options, (uc, a, e), ('c16', dict(uc=uc, alg=a, eng=e, option='all'))))
    chk.run_jobs(jobs)
