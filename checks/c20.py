"""C20: fast_lanczos runs the three-term Lanczos recurrence and decomposes its tridiagonal."""
import numpy as np

from symtorch import expr as E
from symtorch import nd

from .lib import dots
from .np_lib import MatLO, contracts, symmetric

BOUNDS = {
    "matrices": "all real symmetric matrices of size 1-4 (thorough 5), as LinearOperator and as array; all diagonal "
    "matrices of the same sizes",
    "vectors": "all start vectors whose Krylov space has full dimension (no breakdown within ncv steps)",
    "steps": "1-4 Lanczos steps",
    "decomposition": "eigh and eigh_tridiagonal by contract: their argument must be the recurrence's tridiagonal "
    "matrix, their results are arbitrary and must be returned unchanged",
}
ASSUMPTIONS = [
    "exact real arithmetic",
    "SciPy's eigensolvers return the eigen-decomposition of the matrix they are given",
]


class Recording(MatLO):
    """Remembers the vectors it is applied to."""

    def __init__(self, M):
        super().__init__(M)
        self.inputs = []

    def _matvec(self, x):
        self.inputs.append(nd.lift_arr(x).reshape(-1).copy() if isinstance(x, nd.SymNd) else np.array(x).reshape(-1))
        return super()._matvec(x)


def recurrence(A, v, ncv, variant=0):
    """alphas, betas of the Lanczos recurrence (equal variants of the same numbers)."""
    n = len(v)
    al, be = [], []
    prev = None
    for m in range(ncv):
        w0 = [dots(A[i], v) for i in range(n)]
        w = w0 if prev is None else [E.sub(a, E.mul(be[-1], p)) for a, p in zip(w0, prev)]
        al.append(dots(w0 if variant & 1 else w, v))
        w = [E.sub(a, E.mul(al[-1], b)) for a, b in zip(w, v)]
        if m < ncv - 1:
            be.append(E.sqrt(dots(w, w)))
            prev, v = v, [E.div(a, be[-1]) for a in w]
    return al, be


def pick(actual, variants):
    """The variant that is literally the code's expression, else the first."""
    for v in variants:
        if v is actual:
            return v
    return variants[0]


def scenario(n, ncv, solver="default", how="op", diag=False, calls=1):
    def sc(env):
        from curvlinops.papyan2020traces.spectrum import fast_lanczos

        if diag:
            d = env.array("d", (n,))
            M = np.zeros((n, n))
            S = np.empty((n, n), dtype=object)
            S[...] = E.ZERO
            for i in range(n):
                M[i, i] = d[i]
                S[i, i] = env.sp("d")[i]
        else:
            M = symmetric(env, "A", n)
            S = env.sp("A")
        op = Recording(M) if how == "op" else M
        Ts = []

        def record(T, k):
            Ts.append(T)
            return env.array(f"evals{k}", (ncv,)), env.array(f"evecs{k}", (ncv, ncv))

        def eigh(orig, T, *a, **kw):
            env.true("whole matrix", not a and not {k for k in kw if k not in ("check_finite", "overwrite_a", "lower", "UPLO")})
            T = nd.lift_arr(T) if env.symbolic else np.asarray(T, dtype=float)
            return record(np.asarray(T).reshape(ncv, ncv), len(Ts))

        def eigh_tridiagonal(orig, d, e, *a, **kw):
            env.true("whole matrix", not a and not {k for k in kw if k not in ("check_finite",)})
            d, e = (nd.lift_arr(x) if env.symbolic else np.asarray(x, dtype=float) for x in (d, e))
            env.true("sizes", d.shape == (ncv,) and e.shape == (ncv - 1,))
            T = np.empty((ncv, ncv), dtype=object if env.symbolic else float)
            T[...] = E.ZERO if env.symbolic else 0.0
            for i in range(ncv):
                T[i, i] = d[i]
                if i + 1 < ncv:
                    T[i, i + 1] = T[i + 1, i] = e[i]
            return record(T, len(Ts))

        kw = {} if solver == "default" else {"use_eigh_tridiagonal": solver == "tri"}
        firsts = []
        with contracts(env, eigh=eigh, eigh_tridiagonal=eigh_tridiagonal):
            for c in range(calls):
                if how == "op":
                    op.inputs = []
                ev, Q = fast_lanczos(op, ncv, **kw)
                env.true(f"one decomposition {c}", len(Ts) == c + 1)
                T = Ts[-1]
                env.eq(f"eigenvalues {c}", ev, env.sp(f"evals{c}"))
                env.eq(f"eigenvectors {c}", Q, env.sp(f"evecs{c}"))
                # start vector: the normalised draw
                z = [E.var(f"drawnpn{c}_{i}", "real") for i in range(n)]
                if how == "op":
                    env.true(f"products {c}", len(op.inputs) == ncv)
                    v = op.inputs[0]
                    if env.symbolic:
                        v = [E.lift(x) for x in v]
                        firsts.append({x.a[0] for x in E.free_vars(v) if x.k == "v"})
                    else:
                        v = None
                else:
                    v = None
                if v is None:
                    nz = E.sqrt(dots(z, z))
                    v = [E.div(x, nz) for x in z]
                env.eq(f"unit start {c}", env.array_of(dots(v, v)) if env.symbolic else np.array(1.0), E.ONE)
                vs = [recurrence(S, v, ncv, k) for k in range(2)]
                exp = np.empty((ncv, ncv), dtype=object)
                exp[...] = E.ZERO
                for i in range(ncv):
                    exp[i, i] = pick(T[i, i], [w[0][i] for w in vs])
                    if i + 1 < ncv:
                        b = pick(T[i, i + 1], [w[1][i] for w in vs])
                        exp[i, i + 1] = exp[i + 1, i] = b
                env.eq(f"tridiagonal {c}", env.array_of(T) if env.symbolic else np.array(T, dtype=float), exp)
        if env.symbolic and len(firsts) > 1:
            env.true("fresh start vectors", not (firsts[0] & firsts[1]))
        env.eq("matrix unchanged", M, S)

    return sc


def configs(tier):
    out = []
    for solver in ("default", "tri", "full"):
        for n, ncv in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 4)) + (((4, 3), (5, 2), (5, 4)) if tier == "thorough" else ()):
            if solver == "full" and (n, ncv) != (2, 2):
                continue
            out.append((f"{solver}/n{n}/ncv{ncv}", scenario(n, ncv, solver)))
        out.append((f"{solver}/array", scenario(2, 2, solver, how="array")))
        out.append((f"{solver}/diagonal/n3", scenario(3, 2, solver, diag=True)))
        out.append((f"{solver}/two calls", scenario(2, 2, solver, calls=2)))
    return out
