"""Shared machinery of the checks: symbolic requests, provers, replay on the real code, evidence."""
import copy
import hashlib
import itertools
import json
import math
import multiprocessing as mp
import os
import pathlib
import subprocess
import sys
import time
import traceback

import numpy as np

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True

from symx import loader, terms as T, pdshim, smt, tm, trig  # noqa: E402
from symx.arr import SymArray, as_sym, to_obj  # noqa: E402
from symx.explore import Explorer  # noqa: E402
from symx.terms import Node  # noqa: E402

REPO_SRC = loader.REPO_SRC
PY = sys.executable
IMPL = [('psa', 'numpy'), ('psa', 'numexpr'), ('soltrack', 'numpy'), ('soltrack', 'numexpr'),
        ('iqbal', 'numpy'), ('iqbal', 'numexpr'), ('nrel', 'numexpr')]
USECASES = ['sites', 'regular_grid', 'transect']


def sec(s):
    return int(np.datetime64(s, 's').astype('i8'))


T0, T1 = sec('1950-01-01'), sec('2100-01-01')


def sw():
    return loader.sunwhere()


# -- symbolic inputs ----------------------------------------------------------------

def obj(nodes):
    o = np.empty(len(nodes), object)
    for i, n in enumerate(nodes):
        o[i] = n
    return o


def floats(prefix, n):
    return SymArray(obj([T.var(f'{prefix}{i}', 'R') for i in range(n)]), 'f8')


def times(n, unit='s', tz=None, prefix='t', scalar=False):
    return pdshim.SymIndex([T.var(f'{prefix}{i}', 'I') for i in range(n)], unit, tz, scalar)


def nodes(x):
    """flat list of terms of an array-like"""
    d = getattr(x, 'variable', None)
    x = d._data if d is not None else x
    if not isinstance(x, (SymArray, np.ndarray)) and hasattr(x, 'get_duck_array'):
        x = x.get_duck_array()
    if isinstance(x, pdshim.SymIndex):
        x = x.__symarray__()
    a = as_sym(x)
    o = np.empty(a.size, object)
    o[:] = [T.lift(x) for x in to_obj(a).reshape(-1)]
    return o.reshape(a.shape)


def bounds(nt, nlat, nlon, t=(T0, T1)):
    b = {f't{i}': t for i in range(nt)}
    b.update({f'a{i}': (-90, 90) for i in range(nlat)})
    b.update({f'o{i}': (-180, 180, True) for i in range(nlon)})
    return b


def sample_env(nt, nlat, nlon, n=40, seed=7, t=(T0, T1)):
    rng = np.random.default_rng(seed)
    env = {}
    special = [sec(f'{y}-{d}') for y in (1952, 1980, 1999, 2000, 2023, 2024, 2096) for d in ('01-01', '03-01', '12-31')]
    special += [sec(f'{y}-02-29') for y in (1952, 2000, 2024)]
    special = [s for s in special if t[0] <= s < t[1] - 86400]
    for i in range(nt):
        v = rng.integers(t[0], t[1], n)
        k = min(len(special), n//3)
        if k:
            v[:k] = rng.permutation(special)[:k] + rng.integers(1, 86399, k)
        env[f't{i}'] = v
    for i in range(nlat):
        env[f'a{i}'] = rng.uniform(-89.5, 89.5, n).astype('f4').astype('f8')
    for i in range(nlon):
        env[f'o{i}'] = rng.uniform(-180, 179.9, n).astype('f4').astype('f8')
    return env


_feas = {}


def feasible_fn(bnds, budget=3.0, depths=(30, 5)):
    """z3 feasibility of path conditions (transcendental sub-terms beyond the cone are free)"""
    P = smt.Prover(bnds, {'_': np.zeros(1)})

    def f(conds):
        key = (depths, *sorted(c.id for c in conds))
        if key in _feas:
            return _feas[key]
        goal = T.TRUE
        for c in conds:
            goal = T.band(goal, c)
        if T.isconst(goal):
            r = bool(goal.val)
        else:
            cut = set()
            if any(n.op in smt.APPS for n in T.topo([goal])):
                for depth in depths:
                    cut, size = P.cone([goal], depth)
                    if size < 300:
                        break
            e = smt.Enc(bnds, cut)
            import z3
            s = z3.Solver()
            g = e.enc(goal)
            s.add(*e.side)
            s.add(g)
            r = smt.STATS.check(s, budget) != 'unsat'
        _feas[key] = r
        return r
    return f


def explore(fn, bnds=None, assumptions=(), max_paths=4096, **kw):
    ex = Explorer(feasible_fn(bnds or {}, **kw), assumptions, max_paths)
    return list(ex.run(fn))


def request(usecase, alg, eng, refraction, nt=1, nlat=1, nlon=1, tms=None, lat=None, lon=None, bnds=None):
    """the unique successful path of a valid request; raises Divergence otherwise"""
    m = sw()
    b = bnds if bnds is not None else bounds(nt, nlat, nlon)
    tms = times(nt) if tms is None else tms
    lat = floats('a', nlat) if lat is None else lat
    lon = floats('o', nlon) if lon is None else lon
    ps = explore(lambda: getattr(m, usecase)(tms, lat, lon, algorithm=alg, engine=eng, refraction=refraction), b)
    return ps


class Divergence(Exception):
    """a valid request raised or branched"""

    def __init__(self, msg, paths):
        super().__init__(msg)
        self.paths = paths


def merge(cases):
    """one value for several paths [(condition, value)]: their terms become ite() of the conditions"""
    c0, v0 = cases[0]
    rest = [v for _, v in cases[1:]]
    if all(v is v0 for v in rest):
        return v0
    if not all(type(v) is type(v0) for v in rest):
        raise TypeError('results of different types')
    if isinstance(v0, T.Node):
        r = cases[-1][1]
        for c, v in cases[-2::-1]:
            r = v if v is r else T.ite(c, v, r)
        return r
    if isinstance(v0, SymArray):
        if any(v.shape != v0.shape or v.dtype != v0.dtype for v in rest):
            raise TypeError('results of different shapes')
        o = np.empty(v0.shape, object)
        vs = [(c, to_obj(v)) for c, v in cases]
        for i in np.ndindex(o.shape):
            o[i] = merge([(c, T.lift(v[i])) for c, v in vs])
        return SymArray(o, v0.dtype)
    if isinstance(v0, np.ndarray) and v0.dtype != object and all(v.dtype == v0.dtype and v.shape == v0.shape for v in rest):
        if all(v.tobytes() == v0.tobytes() for v in rest):
            return v0
        return merge([(c, as_sym(v)) for c, v in cases])
    if isinstance(v0, pdshim.SymIndex):
        if any(len(v.ticks) != len(v0.ticks) or (v.unit, v.tz, v.scalar) != (v0.unit, v0.tz, v0.scalar) for v in rest):
            raise TypeError('different times')
        return pdshim.SymIndex([merge([(c, v.ticks[i]) for c, v in cases]) for i in range(len(v0.ticks))], v0.unit, v0.tz, v0.scalar)._as(v0)
    if type(v0).__module__.startswith('xarray'):
        if any(v.dims != v0.dims or set(v.coords) != set(v0.coords) or v.name != v0.name or v.attrs != v0.attrs for v in rest):
            raise TypeError('different labels')
        for k in v0.coords:
            merge_same([nodes(v.coords[k]) for _, v in cases])
        return v0.copy(data=merge([(c, SymArray(nodes(v), v.dtype)) for c, v in cases]))
    if isinstance(v0, dict):
        if any(list(v) != list(v0) for v in rest):
            raise TypeError('different keys')
        return {k: merge([(c, v[k]) for c, v in cases]) for k in v0}
    if isinstance(v0, (list, tuple)):
        if any(len(v) != len(v0) for v in rest):
            raise TypeError('different lengths')
        return type(v0)(merge([(c, v[i]) for c, v in cases]) for i in range(len(v0)))
    if type(v0).__name__ == 'Sunpos':
        r = copy.copy(v0)
        r.__dict__ = merge([(c, v.__dict__) for c, v in cases])
        return r
    if all(v == v0 for v in rest):
        return v0
    raise TypeError(f'cannot merge {type(v0).__name__}')


def merge_same(arrays):
    a = arrays[0]
    for b in arrays[1:]:
        if a.shape != b.shape or not all(x is y for x, y in zip(a.reshape(-1), b.reshape(-1))):
            raise TypeError('different labels')


def single(ps):
    ok = [p for p in ps if p[1] == 'ok']
    if 1 < len(ok) == len(ps):
        # several ways to an answer: the answer is that of whichever way applies
        try:
            cs = []
            for conds, _, v in ok:
                c = T.TRUE
                for x in conds:
                    c = T.band(c, x)
                cs.append((c, v))
            return merge(cs)
        except TypeError as e:
            raise Divergence(f'{len(ps)} paths: {e}', ps)
    if len(ps) != 1 or len(ok) != 1:
        kinds = [(p[1], repr(p[2])[:200] if p[1] == 'raise' else '') for p in ps]
        raise Divergence(f'{len(ps)} paths: {kinds[:4]}', ps)
    return ok[0][2]


def sub1(n, env_names):
    """rename variables of a term: {old: new}"""
    return T.substitute([n], {T.var(a, t): T.var(b, t) for a, b, t in env_names})[0]


def points(P, n=24):
    """single-point candidates of a prover (solver models first) as [t, lat, lon]"""
    e = P.env
    k = P.N
    idx = list(range(max(0, k - len(getattr(P, 'covered', []))), k)) + list(range(min(n, k)))
    z = np.zeros(k)
    return [[int(e.get('t0', z)[i]), float(e.get('a0', z)[i]), float(e.get('o0', z)[i])] for i in idx]


def f32_loss(roots, v, lo, hi, tol, cells=4000):
    """largest effect of single-precision rounding on maximal sub-terms of one variable.
    Taylor-model enclosure of (term with rounding) - (term without) over cells of the variable;
    the verdict is z3's, over the enclosures"""
    nv = T.var(v, 'R')
    only, has32, seen = {}, {}, []
    tp = T.topo(roots)
    for n in tp:
        if not n.args:
            only[n.id] = n is nv or n.op == 'const'
            has32[n.id] = False
        else:
            only[n.id] = all(only[a.id] for a in n.args) and n.typ == 'R'
            has32[n.id] = n.op == 'f32' or any(has32[a.id] for a in n.args)
    inner = {a.id for n in tp if only[n.id] for a in n.args}
    outer = {a.id for n in tp if not only[n.id] for a in n.args} | {r.id for r in roots}
    # read directly by terms of other variables
    tops = [n for n in tp if only[n.id] and has32[n.id] and n.op != 'const' and n.id in outer]
    if not tops:
        return True, 0.
    strip = {}
    for n in T.topo(tops):
        a = [strip[x.id] for x in n.args]
        strip[n.id] = a[0] if n.op == 'f32' else (n if all(x is y for x, y in zip(a, n.args)) else T.rebuild(n, a))
    d = [T.sub(n, strip[n.id]) for n in tops]
    edges = np.linspace(lo, hi, cells + 1)
    worst = 0.
    ok = True
    enc = tm.enclose(d, {v: (edges[:-1], edges[1:])}, v)
    for q, n in zip(d, tops):
        e = enc[q.id]
        scale = 57.3/15 if n.op in ('f32', 'div', 'mul') else 1.
        w = np.maximum(np.abs(e.lo()), np.abs(e.hi()))
        w = np.where(np.isfinite(w), w, 1e9) + np.zeros(cells)
        worst = max(worst, float(w.max()))
    return lra_bound(worst, tol), worst


def lra_bound(worst, tol):
    import z3
    s = z3.Solver()
    x = z3.Real('x')
    s.add(x <= z3.RealVal(repr(float(worst))), x >= -z3.RealVal(repr(float(worst))), z3.Or(x > z3.RealVal(repr(tol)), x < -z3.RealVal(repr(tol))))
    return smt.STATS.check(s, 10) == 'unsat'


RAW = ('ecf', 'eot', 'declination', 'zenith', 'azimuth')
UNITS = ('deg', 'rad', 'tst', 'utc', 'local')
AMS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')
CORR = ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')
DERIVED = (['dec', 'sza', 'saa', 'elevation', 'cosz', 'true_solar_time', 'daylight_length()', 'incidence(30., 20.)']
           + [f'{f}({u!r})' for f in ('sunrise', 'sunset') for u in UNITS]
           + [f'airmass({p!r})' for p in AMS] + [f'eth(am_correction={c!r})' for c in CORR])


def access(sp, name):
    return eval('sp.' + name, {'sp': sp})


def where(dims, idx, uc):
    """(time, latitude, longitude) indices of an element of a labelled result"""
    d = dict(zip(dims, idx))
    i = d.get('time', 0)
    if uc == 'transect':
        return i, i, i
    if uc == 'sites':
        return i, d.get('location', 0), d.get('location', 0)
    return i, d.get('latitude', 0), d.get('longitude', 0)


def rename(n, i, j, k):
    m = {}
    for p, q, t in (('t', i, 'I'), ('a', j, 'R'), ('o', k, 'R')):
        if q:
            m[T.var(f'{p}0', t)] = T.var(f'{p}{q}', t)
    return T.substitute([n], m)[0] if m else n


def same_all(pairs):
    """z3 verdict that all pairs of terms denote the same (identical terms share one variable)"""
    import z3
    s = z3.Solver()
    srt = {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}
    s.add(z3.Or(*[srt[x.typ](f'n{x.id}') != srt[y.typ](f'n{y.id}') if x.typ == y.typ else z3.BoolVal(True) for x, y in pairs] or [z3.BoolVal(False)]))
    return smt.STATS.check(s, 30) == 'unsat'


# -- the check object -----------------------------------------------------------------

FOUND = mp.Value('i', 0)            # violations reported by all workers
ORACLE_TIME = mp.Value('d', 0.)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.obl = []            # (name, verdict)
        self.violations = []
        self.inconclusive = []
        self.functions = set()
        self.bounds = []
        self.assumptions = []
        self.samples = []
        self.validated = 0
        self.paths = 0
        self.nodes = 0
        self.extra = {}
        self.replays = 0
        self.vacuity = 0

    # results
    def proved(self, name, detail=None):
        self.obl.append((name, 'proved'))
        if len(self.samples) < 12:
            self.samples.append({'obligation': name, 'verdict': 'unsat', **({'detail': detail} if detail else {})})

    def unproved(self, name, oracle, params, detail=''):
        """an obligation z3 did not discharge: replay the candidates on the real code"""
        self.obl.append((name, 'not proved'))
        if sum(1 for v in self.violations if v[3] == oracle) >= 2 or FOUND.value >= 6:
            return              # the same failure has been reported often enough
        if ORACLE_TIME.value > (240 if self.tier == 'quick' else 3000)*8:
            self.inconclusive.append((name, 'not replayed (time) ' + detail))
            return
        r = self.replay(oracle, params)
        if r is not None:
            self.violations.append((name, r[0], r[1], oracle))
        else:
            self.inconclusive.append((name, detail))

    def replay(self, oracle, params):
        """run an oracle on the real code; returns (path, message) if it reports a violation"""
        self.replays += 1
        spec = {'property': self.prop, 'oracle': oracle, 'params': params}
        t0 = time.time()
        r = run_oracle(spec, 120 if self.tier == 'quick' else 600)
        with ORACLE_TIME.get_lock():
            ORACLE_TIME.value += time.time() - t0
        if r.get('violated'):
            with FOUND.get_lock():
                FOUND.value += 1
        if r.get('error'):
            self.extra.setdefault('replay_errors', []).append(r['error'][-800:])
            return None
        if not r.get('violated'):
            return None
        spec['params'] = r.get('params', params)
        d = ROOT / 'replays'
        d.mkdir(exist_ok=True)
        txt = json.dumps(spec, indent=1, default=_js)
        p = d / f'{self.prop}_{hashlib.sha1(txt.encode()).hexdigest()[:10]}.json'
        p.write_text(txt)
        return str(p), r.get('message', '')

    def merge(self, other):
        """absorb the result of a worker process"""
        self.obl += other['obl']
        self.violations += other['violations']
        self.inconclusive += other['inconclusive']
        self.validated += other['validated']
        self.paths += other['paths']
        self.nodes += other['nodes']
        self.replays += other['replays']
        self.vacuity += other['vacuity']
        self.functions |= set(other['functions'])
        self.samples += other['samples'][:3]
        for k, v in other['extra'].items():
            if isinstance(v, list):
                self.extra.setdefault(k, []).extend(v)
            elif isinstance(v, dict):
                self.extra.setdefault(k, {}).update(v)
            else:
                self.extra[k] = v
        s = other['stats']
        for k in ('queries', 'unsat', 'sat', 'unknown', 'time', 'merged'):
            setattr(smt.STATS, k, getattr(smt.STATS, k) + s[k])

    def dump(self):
        return dict(obl=self.obl, violations=self.violations, inconclusive=self.inconclusive, validated=self.validated,
                    paths=self.paths, nodes=self.nodes, replays=self.replays, vacuity=self.vacuity,
                    functions=list(self.functions), samples=self.samples, extra=self.extra,
                    stats={k: getattr(smt.STATS, k) for k in ('queries', 'unsat', 'sat', 'unknown', 'time', 'merged')})

    def run_jobs(self, jobs, workers=8):
        """jobs: list of (function(check, *args), args); run in forked processes, results merged"""
        if len(jobs) == 1 or os.environ.get('SYMX_SERIAL'):
            for j in jobs:
                _guard(self, *j)
            return
        sw()
        ctx = mp.get_context('fork')
        with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_worker, [(self.prop, self.tier, j) for j in jobs], 1)
            limit = self.t0 + (float(os.environ.get('SYMX_LIMIT', 720)) if self.tier == 'quick' else 4*3600)
            done = 0
            while done < len(jobs):
                try:
                    self.merge(it.next(max(.1, limit - time.time())))
                    done += 1
                    if self.violations:
                        limit = min(limit, time.time() + 60)
                except mp.TimeoutError:
                    self.inconclusive.append(('time limit', f'{len(jobs) - done} of {len(jobs)} jobs stopped'))
                    pool.terminate()
                    break

    def finish(self):
        known = known_findings(self.prop)
        out = []
        said = set()
        for name, path, msg, _ in self.violations:
            if msg in said:
                continue
            said.add(msg)
            k = next((k for k in known if k['match'] in (name + ' ' + msg)), None)
            if k:
                out.append(('known', k['what'], msg))
            else:
                out.append(('violation', path, f'{name}: {msg}'))
        n_ok = sum(1 for o in self.obl if o[1] == 'proved')
        st = smt.STATS.as_dict()
        cov = dict(states=self.nodes, transitions=st['queries'], traces_validated_against_impl=self.validated,
                   samples=self.samples[:12] or [{'note': 'no obligation discharged'}],
                   obligations=len(self.obl), obligations_discharged=n_ok,
                   meaning='states: symbolic terms of the encoded code; transitions: solver queries; '
                           'traces_validated_against_impl: outputs of the encoding compared with the real code',
                   functions_encoded=sorted(self.functions), bounds=self.bounds, solver=st, solver_name=f'z3 {_z3v()}',
                   paths_explored=self.paths, counterexample_replays=self.replays, vacuity_witnesses=self.vacuity,
                   undecided=[f'{a}: {b}'[:600] for a, b in self.inconclusive][:20], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=sum(1 for o in out if o[0] == 'violation'))
        d = ROOT / 'evidence'
        d.mkdir(exist_ok=True)
        (d / f'{self.prop}.json').write_text(json.dumps(ev, indent=1, default=_js))
        print(f'{self.prop} {self.tier}: {n_ok}/{len(self.obl)} obligations discharged, {st["queries"]} queries '
              f'({st["solver_time_s"]:.1f} s), {self.validated} outputs validated, {time.time()-self.t0:.1f} s')
        seen = set()
        rc = 0
        for o in out:
            if o[0] == 'known':
                if o[1] not in seen:
                    print(f'KNOWN-FINDING: property={self.prop} {o[1]}')
                seen.add(o[1])
            else:
                rc += 1
                if rc <= 6:
                    print(f'VIOLATION property={self.prop} replay={o[1]}')
                    print(f'  {o[2]}'[:600])
        if rc > 6:
            print(f'... and {rc - 6} more')
        rc = min(rc, 1)
        if self.inconclusive:
            # neither proved nor refuted: no counterexample was found on the real code
            for a, b in self.inconclusive[:10]:
                print(f'UNDECIDED {a}: {b}'[:1500])
            for e in self.extra.get('replay_errors', [])[:2]:
                print('  replay error:', e)
        if rc == 0 and not n_ok:
            print('no obligation was discharged')
            rc = 2
        if rc == 0 and os.environ.get('SYMX_STRICT') and self.inconclusive:
            rc = 2
        return rc


def _z3v():
    import z3
    return z3.get_version_string()


def _js(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def _guard(chk, f, a, fallback=None):
    """run one job; if the symbolic phase cannot process the code, its counterexample search
    still runs on the real code and the obligations are reported as undecided"""
    try:
        f(chk, *a)
    except Exception as e:
        name = f'{f.__name__}{tuple(x for x in a if isinstance(x, (str, int, bool, tuple, list)))}'
        txt = ''.join(traceback.format_exception(e))[-1500:]
        if fallback:
            chk.unproved(name, fallback[0], fallback[1], 'not encodable: ' + txt)
        else:
            chk.obl.append((name, 'not proved'))
            chk.inconclusive.append((name, txt))


def _worker(x):
    prop, tier, j = x
    smt.STATS.__init__()
    chk = Check(prop, tier)
    _guard(chk, *j)
    return chk.dump()


def known_findings(prop):
    out = []
    p = ROOT / 'known_findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith('known: property=' + prop + ' '):
                d = dict(x.split('=', 1) for x in line[7:].split(' | ') if '=' in x)
                out.append({'match': d['match'], 'what': d['what']})
    return out


# -- real code ------------------------------------------------------------------------

def real_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('SYMX')}
    e.update(PYTHONPATH=f'{REPO_SRC}:{ROOT}', PYTHONDONTWRITEBYTECODE='1', NUMEXPR_MAX_THREADS='2')
    return e


def run_oracle(spec, timeout=300):
    try:
        p = subprocess.run([PY, str(ROOT/'checks'/'replay.py'), '-'], input=json.dumps(spec, default=_js), text=True,
                           capture_output=True, env=real_env(), timeout=timeout, cwd='/')
    except subprocess.TimeoutExpired:
        return {'error': 'the replay ran out of time'}
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'error': p.stdout[-500:] + p.stderr[-1500:]}


def validate(chk, cases, npts=6, seed=3):
    """translator validation: evaluate the encoding in floating point on concrete points and
    compare with the real code.  cases: list of (usecase, alg, eng, refr, Sunpos symbolic, shape)"""
    rng = np.random.default_rng(seed)
    reqs, exp = [], []
    for uc, alg, eng, ref, sp, (nt, ny, nx) in cases:
        env = sample_env(nt, ny, nx, npts, int(rng.integers(1e6)))
        outs = {}
        for k in ('zenith', 'azimuth', 'declination', 'eot', 'ecf'):
            nn = nodes(getattr(sp, k))
            v = T.evaluate(list(nn.reshape(-1)), env)
            outs[k] = np.stack([np.broadcast_to(np.asarray(x, float), (npts,)) for x in v], -1).reshape((npts,) + nn.shape)
        for i in range(npts):
            reqs.append(dict(uc=uc, alg=alg, eng=eng, ref=ref, t=[int(env[f't{k}'][i]) for k in range(nt)],
                             lat=[float(env[f'a{k}'][i]) for k in range(ny)], lon=[float(env[f'o{k}'][i]) for k in range(nx)]))
            exp.append({k: outs[k][i] for k in outs})
    r = run_oracle({'property': chk.prop, 'oracle': 'outputs', 'params': {'reqs': reqs}})
    if 'outs' not in r:
        chk.inconclusive.append(('translator validation', str(r)[-600:]))
        return
    for q, e, o in zip(reqs, exp, r['outs']):
        for k in e:
            a, b = np.asarray(e[k], float), np.asarray(o[k], float)
            if a.shape != b.shape or not np.all((np.abs(a - b) < 1e-4) | (np.abs(np.abs(a - b) - 360) < 1e-4) & (k == 'azimuth') | (np.isnan(a) & np.isnan(b))):
                chk.inconclusive.append(('translator validation', f'{q} {k}: encoding {a.tolist()} real {b.tolist()}'))
                return
            chk.validated += a.size
