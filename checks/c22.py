"""C22: what the command line prints.

The command is parsed by its own command line library and executed on a symbolic time, place and time zone.
The text it prints holds a mark for every symbolic value it formats; z3 decides, row by row and path by path,
that each mark stands for what the library returns for the instant that the time denotes."""
import contextlib
import datetime
import io
import re
import sys

import numpy as np

from symx import pdshim, smt, terms as T
from . import common as C
from .c19 import cli

ZONES = {'pytz': pdshim.SymTZ('Europe/Madrid', 'pytz'), 'UTC': pdshim.UTC}
MACHINE = pdshim.SymTZ('America/New_York', 'pytz')
TICKS = {'s': 1, 'ms': 10**3, 'us': 10**6, 'ns': 10**9}
MARK = re.compile('\u27e6(\\d+)\u27e7')
TEXT = '<a time>'


class FakeDatetime(datetime.datetime):
    """the machine's clock"""
    @classmethod
    def now(cls, tz=None): return pdshim.now(tz)
    @classmethod
    def utcnow(cls): return pdshim.utcnow()
    @classmethod
    def today(cls): return pdshim.now()
    @classmethod
    def fromisoformat(cls, x): return pdshim.to_datetime(x)


class FakeModule:
    datetime = FakeDatetime

    def __getattr__(self, k): return getattr(datetime, k)


def command(m):
    """the command `at`, as the command line library sees it"""
    import typer
    for c in m.app.registered_commands:
        a = c.callback.__annotations__
        a.update({k: {int: int, float: float, bool: bool, str: str}.get(v, v) if isinstance(v, type) else v for k, v in a.items()})
    x = typer.main.get_command(m.app)
    return getattr(x, 'commands', {}).get('at', x)


def printed(m, args, lat, lon):
    """(exit code, text) of the command, with its coordinates replaced"""
    import typer
    cmd = command(m)
    for k in [k for k in sys.modules if k.startswith('sunwhere._cli')]:
        v = vars(sys.modules[k])
        for n, x in list(v.items()):
            if x is datetime.datetime:
                v[n] = FakeDatetime
            elif x is datetime:
                v[n] = FakeModule()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx = cmd.make_context('at', list(args))
        xs = [(p.name, ctx.params[p.name]) for p in cmd.params if isinstance(ctx.params.get(p.name), float)]
        if [v for _, v in xs] != [40., -3.]:
            return 2, f'parameters {ctx.params}'
        ctx.params.update({xs[0][0]: lat, xs[1][0]: lon})
        try:
            cmd.invoke(ctx)
            code = 0
        except (typer.Exit, SystemExit) as e:
            code = getattr(e, 'exit_code', getattr(e, 'code', 1)) or 0
    return code, out.getvalue()


def table(text):
    out = {}
    for line in text.splitlines():
        cells = [c.strip() for c in re.split('[\u2551\u2502|]', line) if c.strip()]
        if len(cells) == 2:
            out[cells[0]] = cells[1]
    return out


def row(rows, label):
    x = [v for k, v in rows.items() if k == label or label == 'Azimuth' and k.startswith('Azimuth')]
    if not x:
        raise KeyError(f'no row {label}')
    return x[0]


def marks(cell):
    """the cell with every mark replaced by its format, and the values behind the marks"""
    vals = [T.TOKENS[int(k)] for k in MARK.findall(cell)]
    return MARK.sub(lambda m: '\u27e6' + T.TOKENS[int(m.group(1))][1] + '\u27e7', cell), [v for v, _ in vals]


NUMBERS = {'Latitude': '\u00b0', 'Longitude': '\u00b0', 'Declination': '\u00b0', 'Sun-Earth distance': ' AU', 'Zenith': '\u00b0', 'Elevation': '\u00b0', 'Azimuth': '\u00b0'}
ROWS = (*NUMBERS, 'Day of week', 'Date', 'Time', 'Sunrise(UTC)', 'Sunset(UTC)', 'Sunrise(local)', 'Sunset(local)', 'Equation of time')


def expected(m, x, lat, lon, alg, ref):
    sp = m.sites(x, lat, lon, algorithm=alg, refraction=ref)

    def one(v):
        n = C.nodes(v).reshape(-1)
        assert len(n) == 1
        return n[0]
    e = {'Latitude': lat, 'Longitude': lon, 'Declination': one(sp.dec), 'Zenith': one(sp.sza), 'Elevation': one(sp.elevation), 'Azimuth': one(sp.saa),
         'Sun-Earth distance': one(1/sp.ecf**.5), 'Equation of time': one(sp.eot)}
    for f in ('sunrise', 'sunset'):
        for u, z in (('utc', 'UTC'), ('local', 'local')):
            e[f'{f.capitalize()}({z})'] = one(getattr(sp, f)(units=u))
    return e


class Ctx:
    """decides the rows of one path"""

    def __init__(self, conds, bnds, env, zone, w, k, shared):
        self.conds, self.bnds, self.env, self.zone, self.w, self.k = conds, bnds, env, zone, w, k
        self.shared = shared
        self.L = shared.setdefault('L', smt.Prover(bnds, {'_': np.zeros(1)}))
        self.pairs = []

    def settle(self, n):
        """local time of the instant of a local time: the local time"""
        if self.zone is pdshim.UTC or self.w is None:
            return n
        m = {}
        ws = T.dt_convert(self.w, self.k, 's', False)
        loc = T.mk('uf:loc_' + self.zone.name, (ws,), None, 'I')
        for x in T.topo([n]):
            if x.op == 'uf:off_' + self.zone.name and x.args and {v.val for v in T.variables([x])} == {self.w.val} \
                    and len([y for y in T.topo([x]) if y.op.startswith('uf:')]) == 2:
                if x.args[0] is loc or self.L.prove(T.eq(x.args[0], loc), timeout=5.):
                    m[x] = T.sub(ws, loc)
        return T.substitute([n], m)[0] if m else n

    def same(self, u, v):
        if u is not v:
            try:
                key = (u.id, v.id)
                if key not in self.shared:
                    self.shared[key] = self.L.prove(T.eq(u, v), depths=(7,), timeout=5.)
                if self.shared[key]:
                    return True
                P = self.shared.get('P') or self.shared.setdefault('P', smt.Prover(self.bnds, self.env))
                u, v = P.canon(u), P.canon(v)
            except Exception:
                return False
        self.pairs.append((u, v))
        return u is v

    def holds(self, goal, bnds, types, extra=()):
        P = smt.Prover(bnds, {'_': np.zeros(1)})
        P.types = types
        return P.query(goal, set(), timeout=20., want_model=True)


def seconds(n, unit):
    return T.dt_convert(n, unit, 's', False)


def clock(cx, cell, node, unit, fmt, zone):
    """None or what is wrong with a time printed as `fmt`"""
    text, vals = marks(cell)
    want = re.sub('%.', lambda m: f'\u27e6{m.group()}\u27e7', fmt)
    if text != want:
        return f'prints {text}'
    a = cx.settle(seconds(node, unit))
    for n, u, z in vals:
        b = cx.settle(seconds(n, u))
        if not cx.same(b, a):
            return f'prints {T.show(b, 5)[:200]}'
        if zone is not None and z is not zone:
            return f'in zone {z}'
    return None


def missing(cx, node):
    """is the instant missing on this path: True, False or None if either"""
    c = T.isnat(node)
    if c.op == 'const':
        return bool(c.val)
    for d in cx.conds:
        if d is c:
            return True
        if d is T.bnot(c):
            return False
    pc = T.TRUE
    for d in cx.conds:
        pc = T.band(pc, d)
    for v, g in ((True, c), (False, T.bnot(c))):
        if cx.L.prove(T.bor(T.bnot(pc), g), depths=(4, 8), timeout=10.):
            return v
    return None


def minutes(cx, cell, eot):
    """None, or what is wrong with the equation of time"""
    text, vals = marks(cell)
    g = re.fullmatch('(-?)(\u27e6[^\u27e7]*\u27e7|\\d+):(\u27e6[^\u27e7]*\u27e7)(|\\.\u27e6d?\u27e7) min', text)
    if not g:
        return f'prints {text}'
    digit = vals.pop() if g.group(4) else None
    ms = g.group(2)[1:-1] if g.group(2)[0] == '\u27e6' else None
    ss = g.group(3)[1:-1]
    if ms not in (None, '', 'd', '.0f', '02d') or ss not in (('.1f', '04.1f') if digit is None else ('', 'd', '02d')):
        return f'prints {text}'
    E, J, K = T.var('eot', 'R'), T.var('minutes', 'I'), T.var('tenths', 'I')
    S = T.toreal(vals[-1])
    M = T.lift(vals[0]) if ms is not None else T.const(int(g.group(2)))
    pc = T.TRUE
    if digit is not None:
        if digit.typ != 'I' or vals[-1].typ != 'I':
            return f'prints {text}'
        S = T.add(S, T.div(T.toreal(digit), T.const(10.)))
    for d in cx.conds:
        d = T.substitute([d], {eot: E})[0]
        if {v.val for v in T.variables([d])} == {'eot'}:
            pc = T.band(pc, d)
    half = T.const(.5)
    ten = T.mul(S, T.const(10.))
    pc = T.band(pc, T.band(T.le(T.sub(T.toreal(K), ten), half), T.le(T.sub(ten, T.toreal(K)), half)))
    mr = T.toreal(M)
    pc = T.band(pc, T.band(T.le(T.sub(T.toreal(J), mr), half), T.le(T.sub(mr, T.toreal(J)), half)))
    neg = T.const(bool(g.group(1)))
    minus = T.lt(J, T.const(0)) if M.typ == 'I' else T.lt(mr, T.const(0.))
    aj = T.ite(T.lt(J, T.const(0)), T.neg(J), J)
    size = T.add(T.mul(T.toreal(aj), T.const(60.)), T.div(T.toreal(K), T.const(10.)))
    val = T.ite(T.bor(neg, minus), T.neg(size), size)
    d = T.sub(val, T.mul(E, T.const(60.)))
    good = T.band(T.bnot(T.band(neg, minus)), T.band(T.band(T.le(T.const(0), K), T.lt(K, T.const(600))),
                  T.band(T.le(T.const(-.051), d), T.le(d, T.const(.051)))))
    if digit is not None:
        good = T.band(good, T.band(T.le(T.const(0), digit), T.lt(digit, T.const(10))))
    goal = T.bor(T.bnot(pc), good)
    goal = T.substitute([goal], {eot: E})[0]
    P = smt.Prover({'eot': (-25, 25), 'minutes': (-100, 100), 'tenths': (-10**6, 10**6)}, {'_': np.zeros(1)})
    P.types = {'eot': 'R', 'minutes': 'I', 'tenths': 'I'}
    if {v.val for v in T.variables([goal])} - set(P.types):
        return f'depends on {sorted(v.val for v in T.variables([goal]))}'
    goal = T.substitute([goal], {x: y for x in T.topo([goal]) if x.op == 'isnan' for y in [T.FALSE]})[0]
    r = P.query(goal, set(), timeout=30., want_model=True)
    return None if r == 'unsat' else f'{text} is not the equation of time: {r}'


def job(chk, alg, ref, zk, unit, rows=ROWS):
    """unit None: the present"""
    m = cli()
    zone = ZONES[zk]
    k = unit or 'us'
    chk.functions |= {'sunwhere._cli.main.at', 'sunwhere._cli.position.calculate_position', 'sunwhere._base.Sunpos', 'sunwhere._core.evaluate'}
    name = f'at {"now" if unit is None else "a time ["+unit+"]"} {alg} refraction={ref} {zk} zone'
    params = dict(alg=alg, ref=ref, zk=zk, now=unit is None)
    t = T.var('t0', 'I')
    lat, lon = T.var('a0', 'R'), T.var('o0', 'R')
    b = C.bounds(1, 1, 1, t=(C.T0*TICKS[k], C.T1*TICKS[k]))
    env = C.sample_env(1, 1, 1)
    env['t0'] = np.array([int(v)*TICKS[k] + 123 % TICKS[k] for v in env['t0']], object)
    args = [TEXT if unit else 'now', '40N', '3W', '-a', alg, '--refraction' if ref else '--no-refraction', '-z', str(zone)]
    pdshim.TEXTS.clear()
    pdshim.CLOCK[:] = []
    if unit:
        pdshim.TEXTS[TEXT] = pdshim.SymIndex([t], unit, None, True)
    else:
        pdshim.CLOCK[:] = [t, MACHINE]

    def run():
        code, text = printed(m, args, lat, lon)
        if code != 0:
            return code, text, None, None
        x = pdshim.SymIndex([t], unit, None).tz_localize(zone) if unit else pdshim.SymIndex([t], 'us', zone)
        return code, text, expected(C.sw(), x, lat, lon, alg, ref), x.wall()[0]
    try:
        paths = C.explore(run, b, max_paths=300, budget=.5, depths=(8, 4))
    except Exception as e:
        chk.unproved(name, 'c22', params, f'{type(e).__name__}: {e}'[:400])
        return
    finally:
        pdshim.TEXTS.clear()
        pdshim.CLOCK[:] = []
    good = 0
    bad = {}
    pairs, shared = [], {}
    for conds, kind, val in paths:
        chk.paths += 1
        if kind != 'ok':
            bad['the command'] = f'raises {type(val).__name__}: {val}'[:300]
            continue
        code, text, exp, wall = val
        if code != 0:
            if unit and any(c.op == 'uf:amb_' + zone.name and c.args and c.args[0] is T.dt_convert(t, unit, 's', False) for c in conds):
                continue        # no such local time, or two of them
            bad['the command'] = f'fails: {text}'[:300]
            continue
        good += 1
        cx = Ctx(conds, b, env, zone, t if unit else None, k, shared)
        got = table(text)
        for r in rows:
            if r.endswith('(local)') and zone is pdshim.UTC:
                continue
            try:
                cell = row(got, r.replace('(local)', f'({zone})'))
                if r in NUMBERS:
                    txt, vals = marks(cell)
                    e = None
                    if not re.fullmatch('\u27e6[<>^]?\\d*\\.4f\u27e7' + NUMBERS[r], txt):
                        e = f'prints {txt}'
                    elif not cx.same(vals[0], exp[r]):
                        e = f'prints {T.show(vals[0], 5)[:200]}'
                elif r == 'Equation of time':
                    e = minutes(cx, cell, exp[r])
                elif r[:3] == 'Sun':
                    nat = missing(cx, exp[r])
                    if nat:
                        e = f'prints {cell}' if MARK.search(cell) or re.search(r'\d', cell) else None
                    elif nat is None:
                        e = f'prints {cell} whether there is one or not'
                    else:
                        e = clock(cx, cell, exp[r], 'ns', '%H:%M:%S', None)
                        if e and zone is pdshim.UTC:      # its local times are the times in UTC (C12)
                            e = clock(cx, cell, exp[r.replace('UTC', 'local')], 'ns', '%H:%M:%S', None) and e
                else:
                    e = clock(cx, cell, wall, k, {'Day of week': '%A', 'Date': '%d %B %Y', 'Time': '%H:%M:%S(%Z)'}[r], zone if r == 'Time' else None)
            except Exception as ex:
                e = f'{type(ex).__name__}: {ex}'
            if e:
                bad.setdefault(r, e)
        pairs += cx.pairs
    if not good:
        bad.setdefault('the command', 'prints nothing')
    if 'the command' in bad:
        chk.unproved(name, 'c22', params, str(bad['the command'])[:400])
    same = C.same_all(pairs)
    for r in rows:
        if r.endswith('(local)') and zone is pdshim.UTC:
            continue
        if r in bad or not same or not good:
            chk.unproved(f'{name}: {r}', 'c22', dict(params, row=r), str(bad.get(r, ''))[:400])
        else:
            chk.proved(f'{name}: {r}')


def main(chk):
    th = chk.tier == 'thorough'
    chk.bounds = ['times 1950-2099 at second to nanosecond resolution, any latitude and longitude; local times that exist once; UTC offset an arbitrary function of the instant']
    chk.assumptions = ['the text of the time is read by pandas, numbers and dates are written by Python and pandas from the values they are given',
                       'floating-point rounding of the equation of time in the last printed digit is left out']
    jobs = []
    for alg in ('psa', 'nrel', 'iqbal', 'soltrack'):
        for ref in (True, False):
            for zk in ZONES:
                for unit in ('us', None, 's', 'ns'):
                    if not th and (unit in ('s', 'ns') or unit is None and not ref) and alg != 'psa':
                        continue
                    jobs.append((job, (alg, ref, zk, unit), ('c22', dict(alg=alg, ref=ref, zk=zk, now=unit is None))))
    chk.run_jobs(jobs)
