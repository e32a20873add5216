"""Helpers for the SciPy-side operators: matrices as LinearOperators."""
from contextlib import contextmanager

import numpy as np
from scipy.sparse.linalg import LinearOperator

from symtorch import expr as E
from symtorch import nd

from .lib import dots, matmul, matvec


class MatLO(LinearOperator):
    """The (symbolic) matrix M as SciPy operator, counting products."""

    def __init__(self, M, dtype=None, matmat=False):
        super().__init__(np.dtype(dtype or M.dtype), M.shape)
        self.M = M
        self.calls = 0

    def _matvec(self, x):
        self.calls += 1
        return self.M @ x.reshape(-1)

    def _rmatvec(self, x):
        self.calls += 1
        return self.M.T @ x.reshape(-1)


def symmetric(env, name, n):
    """Symbolic symmetric matrix; specification in env.sp(name)."""
    k = n * (n + 1) // 2
    v = env.array(name + "tri", (k,))
    s = env.sp(name + "tri")
    M = np.zeros((n, n))
    S = np.empty((n, n), dtype=object)
    t = 0
    for i in range(n):
        for j in range(i, n):
            M[i, j] = v[t]
            M[j, i] = v[t]
            S[i, j] = S[j, i] = s[t]
            t += 1
    env.specs[name] = S
    return M


def select(vals, e):
    """vals[e] for a symbolic integer e."""
    r = vals[-1]
    for k in range(len(vals) - 1):
        r = E.ite(E.eq(e, E.const(k)), vals[k], r)
    return r


def mat_apply(A, v):
    v = np.asarray(v, dtype=object)
    return matvec(A, v) if v.ndim == 1 else matmul(A, v)


@contextmanager
def contracts(env, **fns):
    """Replace numerical kernels by contracts: fn(orig, *args, **kw), in both modes."""
    old = dict(nd.HANDLERS), dict(nd.REAL_HANDLERS)
    for key, fn in fns.items():
        nd.HANDLERS[key] = lambda *a, _f=fn, **kw: _f(None, *a, **kw)
        nd.REAL_HANDLERS[key] = fn
    try:
        yield
    finally:
        nd.HANDLERS.clear()
        nd.HANDLERS.update(old[0])
        nd.REAL_HANDLERS.clear()
        nd.REAL_HANDLERS.update(old[1])


def lift(x):
    return nd.lift_arr(x)


def orthonormal(env, name, n, k, reflections=None):
    """Expressions of an n x k matrix with orthonormal columns, ranging over all rotations
    (rationally parametrised: every rotation of dimension 2 except the half turn, by
    Householder reflections for dimension 3 and above)."""
    Q = np.empty((n, n), dtype=object)
    Q[...] = E.ZERO
    for i in range(n):
        Q[i, i] = E.ONE
    for r in range(n - 1 if reflections is None else reflections):
        env.array(f"{name}h{r}", (n,))
        v = env.sp(f"{name}h{r}")
        vv = E.add(E.ONE, E.esum([E.mul(x, x) for x in v[:-1]]))
        w = list(v[:-1]) + [E.ONE]
        # Q ← Q (I − 2 w wᵀ / wᵀw)
        Qw = [dots(Q[i], w) for i in range(n)]
        R = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                R[i, j] = E.sub(Q[i, j], E.div(E.scale(E.mul(Qw[i], w[j]), 2), vv))
        Q = R
    return Q[:, :k].copy(), Q[:, k:].copy()
