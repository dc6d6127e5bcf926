"""C19: command-line coordinates.

The parsers bound to the coordinates of the command are executed on a text that consists of any number
(or none) and any final Unicode character; z3 decides on every path that it is accepted exactly when the
property says so and that the value is the signed number. The command itself is executed on symbolic coordinates and what it
prints is the position there."""
import inspect
import importlib

import numpy as np

from symx import smt, strs, terms as T
from . import common as C

SIDE = {'latitude': (('n', 'N'), ('s', 'S'), 90., True), 'longitude': (('e', 'E'), ('w', 'W'), 180., False)}
FOLDED = {'latitude': 'ſ', 'longitude': ''}       # other characters equal to the letters under case folding: unspecified


def cli():
    C.sw()
    return importlib.import_module('sunwhere._cli.main')


def parser(m, pos):
    p = list(inspect.signature(m.at).parameters.values())[pos]
    for x in [p.default, *getattr(p.annotation, '__metadata__', ())]:
        if getattr(x, 'parser', None):
            return x.parser
    raise ValueError(f'no parser for {p}')


def expected(kind, code, x):
    """(accepted, value) of a number x followed by the character"""
    plus, minus, lim, closed = SIDE[kind]
    p = strs.member(code, [(ord(c), ord(c)) for c in plus])
    q = strs.member(code, [(ord(c), ord(c)) for c in minus])
    v = T.ite(p, x, T.neg(x))
    return T.band(T.bor(p, q), T.band(T.le(T.const(-lim), v), T.le(v, T.const(lim)) if closed else T.lt(v, T.const(lim)))), v


def job_parse(chk, kind, pos):
    m = cli()
    name = f'the {kind} argument'
    try:
        f = parser(m, pos)
    except Exception as e:
        chk.unproved(name, 'c19', dict(kind=kind), str(e)[:300])
        return
    chk.functions.add(f'sunwhere._cli.main.{getattr(f, "__name__", f)}')
    txt = kind
    code, x = T.var(f'{txt}[-1]', 'I'), T.var(f'{txt}[:-1]', 'R')
    b = {f'{txt}[-1]': (0, strs.CODES - 1), f'{txt}[:-1]': (None, None)}
    special = {k: T.var(f'{txt}[:-1] is {k}', 'B') for k in ('nan', 'inf', '-inf')}
    isnum = T.var(f'{txt}[:-1] is a number', 'B')
    accept, val = expected(kind, code, x)
    fold = [c for ch in FOLDED[kind] for c in [T.bnot(T.eq(code, T.const(ord(ch))))]]
    P = smt.Prover(b, {'_': np.zeros(1)})
    P.types = {f'{txt}[-1]': 'I', f'{txt}[:-1]': 'R'}
    try:
        paths = C.explore(lambda: f(strs.SymText(txt)), b, max_paths=500)
    except Exception as e:
        chk.unproved(name, 'c19', dict(kind=kind), f'{type(e).__name__}: {e}'[:300])
        return
    if sum(p[1] == 'ok' for p in paths) < 2 or not any(p[1] == 'raise' for p in paths):
        chk.unproved(name, 'c19', dict(kind=kind), f'{len(paths)} paths')
        return
    for i, (conds, kd, v) in enumerate(paths):
        chk.paths += 1
        pc = T.TRUE
        for c in list(conds) + fold:
            pc = T.band(pc, c)
        odd = T.bor(special['nan'], T.bor(special['inf'], special['-inf']))
        ok = T.band(isnum, T.band(T.bnot(odd), accept))
        if kd == 'ok':
            try:
                v = T.lift(v)
                good = T.band(ok, T.eq(v, val))
            except Exception as e:
                chk.unproved(f'{name}, path {i}', 'c19', dict(kind=kind), f'returns {v!r}')
                continue
        else:
            good = T.bnot(ok)
        goal = T.bor(T.bnot(pc), good)
        r = P.query(goal, set(), timeout=20., want_model=True)
        if r == 'unsat':
            chk.proved(f'{name}, path {i}: {"accepted" if kd == "ok" else "rejected"}')
        else:
            pts = []
            if isinstance(r, dict):
                pts = [[r.get(x.val), r.get(code.val)]]
            chk.unproved(f'{name}, path {i}: {"accepted" if kd == "ok" else "rejected"}', 'c19', dict(kind=kind, pts=pts), str(r)[:300])


def job_use(chk, zk):
    """the command prints the position at its latitude and longitude"""
    from . import c22
    c22.job(chk, 'psa', True, zk, 'us', ('Latitude', 'Longitude', 'Zenith', 'Azimuth'))


def main(chk):
    chk.bounds = ['texts: any number (a real, an infinity or NaN) or no number, followed by any Unicode character; empty text excluded']
    chk.assumptions = ['which texts are numbers is left to float()', 'the long s, which equals s under case folding, is unspecified',
                       'the command line library passes the text of an argument to its parser']
    chk.run_jobs([(job_parse, ('latitude', 1), ('c19', dict(kind='latitude'))), (job_parse, ('longitude', 2), ('c19', dict(kind='longitude'))),
                  *[(job_use, (zk,), ('c22', dict(zk=zk))) for zk in ('UTC', 'pytz')]])
