"""Symbolic strings: equality with a literal is a boolean solver variable.

A string is either one of the literals it is compared with (the string constants of the sources, when
it is hashed) or different from all of them; operations that look inside raise Unsupported."""
import ast
import pathlib
import re

from . import terms as T
from .explore import decide
from .terms import Unsupported

_vocab = {}


def vocabulary(root):
    root = str(root)
    if root not in _vocab:
        out = set()
        for p in pathlib.Path(root).rglob('*.py'):
            if set(p.relative_to(root).parts) & {'_cli', 'benchmark', 'tests'}:
                continue
            for n in ast.walk(ast.parse(p.read_text())):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r'[A-Za-z]\w{0,39}', n.value):
                    out.add(n.value)
        _vocab[root] = sorted(out)
    return _vocab[root]


class SymStr(str):
    def __new__(cls, name, vocab):
        s = str.__new__(cls, f'<{name}>')
        s.name = name
        s.vocab = vocab
        return s

    def atom(s, lit):
        return T.var(f'{s.name}=={lit!r}', 'B')

    def is_(s, lit):
        """decide equality with a literal, mutually exclusive with the others"""
        from . import explore
        for c in explore._cur.conds:
            if c.op == 'var' and isinstance(c.val, str) and c.val.startswith(s.name + '=='):
                return c is s.atom(lit)
        return decide(s.atom(lit))

    def __eq__(s, o):
        if o is s:
            return True
        if isinstance(o, SymStr):
            raise Unsupported('comparison of two symbolic strings')
        return isinstance(o, str) and s.is_(str(o))

    def __ne__(s, o): return not s == o

    def __hash__(s):
        for v in s.vocab:
            if s.is_(v):
                return hash(v)
        return hash(('other', s.name))

    def __str__(s): return s
    def __repr__(s): return str.__repr__(s)
    def __format__(s, spec): return str.__str__(s)


def _bad(name):
    def f(self, *a, **k):
        raise Unsupported(f'{name} of a symbolic string')
    return f


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'replace', 'split', 'find', 'index', 'count', 'casefold', 'title',
           'capitalize', 'swapcase', 'partition', 'rpartition', 'encode', 'isdigit', 'isalpha', 'islower', 'isupper', '__getitem__', '__len__',
           '__contains__', '__iter__', '__lt__', '__le__', '__gt__', '__ge__', 'removeprefix', 'removesuffix', 'translate', 'rsplit', 'splitlines'):
    setattr(SymStr, _n, _bad(_n))


# -- a text seen as its final character and what precedes it ------------------------------------

CODES = 0x110000
_sets = {}


def _chars():
    return (i for i in range(CODES) if not 0xD800 <= i < 0xE000)


def _codes(ops, pred, key):
    """code points c for which pred(ops(c)) holds, as ranges"""
    k = (ops, key)
    if k not in _sets:
        r = []
        for i in _chars():
            c = chr(i)
            for o in ops:
                c = getattr(c, o)()
            if pred(c):
                if r and r[-1][1] == i - 1:
                    r[-1][1] = i
                else:
                    r.append([i, i])
        _sets[k] = r
    return _sets[k]


def member(c, ranges):
    g = T.FALSE
    for lo, hi in ranges:
        g = T.bor(g, T.eq(c, T.const(lo)) if lo == hi else T.band(T.le(T.const(lo), c), T.le(c, T.const(hi))))
    return g


_CASE = ('lower', 'upper', 'casefold', 'swapcase')


class SymChar(SymStr):
    """a character (any code point) after some case conversions"""
    def __new__(cls, text, ops=()):
        s = str.__new__(cls, f'<last of {text}>')
        s.name, s.ops, s.code = text, ops, T.var(f'{text}[-1]', 'I')
        return s

    def test(s, pred, key): return decide(member(s.code, _codes(s.ops, pred, key)))

    def __eq__(s, o):
        if o is s:
            return True
        if isinstance(o, SymStr):
            raise Unsupported('comparison of two symbolic strings')
        return isinstance(o, str) and s.test(lambda c: c == o, ('==', str(o)))

    def __ne__(s, o): return not s == o

    def __hash__(s):
        for v in 'nsewNSEW':
            if s == v:
                return hash(v)
        return hash(('other', s.name))

    def _case(s, op): return SymChar(s.name, s.ops + (op,))
    def lower(s): return s._case('lower')
    def upper(s): return s._case('upper')
    def casefold(s): return s._case('casefold')
    def swapcase(s): return s._case('swapcase')
    def isalpha(s): return s.test(str.isalpha, 'isalpha')
    def isdigit(s): return s.test(str.isdigit, 'isdigit')
    def isupper(s): return s.test(str.isupper, 'isupper')
    def islower(s): return s.test(str.islower, 'islower')
    def isspace(s): return s.test(str.isspace, 'isspace')
    def __str__(s): return s
    def startswith(s, o): return s.endswith(o)

    def endswith(s, o):
        o = o if isinstance(o, tuple) else (o,)
        if any(len(x) != 1 or isinstance(x, SymStr) for x in o):
            raise Unsupported('endswith')
        return s.test(lambda c: c[-1] in o, ('ends', o))

    def within(s, lits):
        """s in 'literal'"""
        return s.test(lambda c: c in lits, ('in', lits))


class SymNumber(SymStr):
    """a text that is a number, an infinity, NaN, or none of them"""
    def __new__(cls, name):
        s = str.__new__(cls, f'<{name}>')
        s.name = name
        return s

    def __symfloat__(s):
        if not decide(T.var(f'{s.name} is a number', 'B')):
            raise ValueError('could not convert string to float')
        for k in ('nan', 'inf', '-inf'):
            if decide(T.var(f'{s.name} is {k}', 'B')):
                return T.const(float(k))
        return T.var(s.name, 'R')

    def strip(s, *a):
        if a:
            raise Unsupported('strip')
        return s
    lstrip = rstrip = lower = upper = casefold = strip
    def __hash__(s): return hash(('number', s.name))
    def __str__(s): return s


class SymText(SymStr):
    """a number followed by a final character"""
    def __new__(cls, name, ops=()):
        s = str.__new__(cls, f'<{name}>')
        s.name, s.ops = name, ops
        return s

    def _case(s, op):
        if decide(member(T.var(f'{s.name}[-1]', 'I'), _codes(s.ops + (op,), lambda c: len(c) != 1, 'long'))):
            raise ValueError('the final character becomes several: not a number')
        return SymText(s.name, s.ops + (op,))

    def lower(s): return s._case('lower')
    def upper(s): return s._case('upper')
    def casefold(s): return s._case('casefold')
    def swapcase(s): return s._case('swapcase')

    def strip(s, *a):
        if a:
            raise Unsupported('strip')
        if decide(member(T.var(f'{s.name}[-1]', 'I'), _codes((), str.isspace, 'space'))):
            return SymText(s.name + "'", s.ops)
        return s
    rstrip = strip

    def lstrip(s, *a):
        if a:
            raise Unsupported('strip')
        return s

    def __getitem__(s, k):
        if k == -1 or isinstance(k, slice) and k.start == -1 and k.stop is None and k.step in (None, 1):
            return SymChar(s.name, s.ops)
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == -1 and k.step in (None, 1):
            return SymNumber(s.name + '[:-1]')
        raise Unsupported(f'[{k}] of a symbolic text')

    def endswith(s, o, *a):
        if a:
            raise Unsupported('endswith')
        return SymChar(s.name, s.ops).endswith(o)

    def __len__(s): raise Unsupported('length of a symbolic text')
    def __bool__(s): return True
    def __hash__(s): return hash(('text', s.name))
    def __str__(s): return s
    def removesuffix(s, x): raise Unsupported('removesuffix')
