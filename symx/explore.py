"""Path exploration by re-execution: every boolean decision on a symbolic condition forks."""
from . import terms as T


class PathLimit(Exception):
    pass


class _Infeasible(BaseException):
    pass


class Explorer:
    def __init__(self, feasible=None, assumptions=(), max_paths=4096):
        self.feasible = feasible or (lambda conds: True)
        self.assumptions = list(assumptions)
        self.max_paths = max_paths
        self.paths = 0
        self.branches = 0
        self.pruned = 0

    def run(self, f):
        """yield (path condition, kind, value) with kind 'ok' or 'raise'"""
        work = [[]]
        while work:
            prefix = work.pop()
            self.prefix = prefix
            self.trace = []
            self.conds = []
            self.forks = []
            global _cur
            prev, _cur = _cur, self
            try:
                try:
                    r = ('ok', f())
                except _Infeasible:
                    r = None
                except (T.Unsupported, T.SymbolicConcretisation):
                    raise
                except Exception as e:       # an exception of the code under test is a result
                    if getattr(e, 'harness', False):
                        raise
                    r = ('raise', e)
            finally:
                _cur = prev
            work.extend(self.forks)
            if r is None:
                continue
            self.paths += 1
            if self.paths > self.max_paths:
                raise PathLimit(f'more than {self.max_paths} paths')
            yield list(self.conds), r[0], r[1]

    def decide(self, c):
        k = len(self.trace)
        for d in self.conds:
            if d is c:
                return True
            if d is T.bnot(c):
                return False
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            self.branches += 1
            atom = c.op == 'var' and c.typ == 'B'        # a fresh boolean is free
            t = atom or self.feasible(self.assumptions + self.conds + [c])
            f = atom or self.feasible(self.assumptions + self.conds + [T.bnot(c)])
            if t and f:
                self.forks.append(self.trace + [False])
                v = True
            elif t:
                v = True
                self.pruned += 1
            elif f:
                v = False
                self.pruned += 1
            else:
                raise _Infeasible()
        self.trace.append(v)
        self.conds.append(c if v else T.bnot(c))
        return v


_cur = None


def decide(c):
    c = T.tobool(c)
    if c.op == 'const':
        return bool(c.val)
    if _cur is None:
        raise T.SymbolicConcretisation(f'branch on a symbolic condition outside exploration: {T.show(c, 4)}')
    return _cur.decide(c)
