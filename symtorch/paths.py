"""Path exploration: re-execution with a decision prefix, z3 feasibility."""
from . import expr as E
from . import smt


class PathAbort(BaseException):
    """The current path is infeasible or cut."""


class Ctx:
    """State of the symbolic execution of one path."""

    def __init__(self, prefix=(), assume=()):
        self.prefix = list(prefix)
        self.trace = []  # (kind, value, n_alternatives, cond)
        self.pc = list(assume)
        self.pending = []
        self.fresh_random = False
        self.stubs = {}
        self.max_decisions = 200
        self.feas_timeout = 4000

    def decide(self, b):
        """Python truth value of a symbolic boolean; forks when both are feasible."""
        if b is E.TRUE:
            return True
        if b is E.FALSE:
            return False
        for c in self.pc:
            if c is b:
                return True
            if c is E.bnot(b):
                return False
        i = len(self.trace)
        if i >= self.max_decisions:
            raise E.SymbolicError("too many symbolic decisions on one path")
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.pc.append(b if v else E.bnot(b))
            return v
        t = smt.check(self.pc + [b], self.feas_timeout, "feasibility", want_model=False).verdict
        f = (
            smt.check(self.pc + [E.bnot(b)], self.feas_timeout, "feasibility", want_model=False).verdict
            if t != "unsat"
            else "sat"
        )
        if t == "unsat":
            v = False
        elif f == "unsat":
            v = True
        else:
            v = True
            self.pending.append(list(self.trace) + [False])
        self.trace.append(v)
        self.pc.append(b if v else E.bnot(b))
        return v

    def choose(self, n, label=""):
        """Nondeterministic choice in range(n) (explored exhaustively)."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(1, n):
                self.pending.append(list(self.trace) + [k])
        self.trace.append(v)
        return v


CUR = [None]


def ctx():
    if CUR[0] is None:
        raise E.SymbolicError("no symbolic context active")
    return CUR[0]


def explore(run, assume=(), max_paths=64, on_path=None):
    """Run ``run(ctx)`` over all feasible paths; yields (ctx, result)."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise E.SymbolicError(f"more than {max_paths} paths")
        c = Ctx(prefix, assume)
        prev = CUR[0]
        CUR[0] = c
        try:
            try:
                res = run(c)
            except PathAbort:
                res = PathAbort
        finally:
            CUR[0] = prev
        work.extend(reversed(c.pending))
        if res is not PathAbort:
            yield c, res
