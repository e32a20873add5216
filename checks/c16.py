"""C16: the Neumann inverse applies the truncated, scaled Neumann series."""
import numpy as np

from symtorch import expr as E
from symtorch import nd

from .lib import dots
from .np_lib import MatLO, mat_apply, symmetric

BOUNDS = {
    "matrices": "all real (also non-symmetric) matrices of size 1-3",
    "terms": "0-5 terms, the default of 100 terms for 1 x 1 (diagonal values symbolic through exact powers up to 8)",
    "scale": "all positive and all real scales (symbolic), and the default 1",
    "vectors": "all real vectors, column vectors and matrices with 1-3 columns",
    "nan": "NaNs appearing after any subset of the operator's products and entries (symbolic)",
    "histories": "up to 3 changes of the hyper-parameters between products",
}
ASSUMPTIONS = [
    "exact real arithmetic; a NaN is an explicit symbolic outcome of the underlying operator",
    "SciPy's LinearOperator dispatch is executed for real",
]


def series(A, x, K, s):
    """s · Σ_{k=0..K} (I − sA)^k x"""
    x = np.asarray(x, dtype=object)
    if x.ndim == 2:
        cols = [series(A, x[:, j], K, s) for j in range(x.shape[1])]
        out = np.empty(x.shape, dtype=object)
        for j, c in enumerate(cols):
            out[:, j] = c
        return out
    v = list(x)
    acc = list(x)
    for _ in range(K):
        Av = [dots(A[i], v) for i in range(len(v))]
        v = [E.sub(a, E.mul(s, b)) for a, b in zip(v, Av)]
        acc = [E.add(a, b) for a, b in zip(acc, v)]
    out = np.empty(len(acc), dtype=object)
    for i, a in enumerate(acc):
        out[i] = E.mul(s, a)
    return out


def claims(env, inv, A, K, s, tag="", kinds=("vec", "col", "mat")):
    n = A.shape[0]
    env.true(tag + "shape", tuple(inv.shape) == (n, n))
    for kind in kinds:
        shape = {"vec": (n,), "col": (n, 1), "mat": (n, 2), "mat3": (n, 3)}[kind]
        x = env.array("x" + tag + kind, shape)
        r = inv @ x
        env.eq(tag + kind, r, series(A, env.sp("x" + tag + kind), K, s))
        env.eq(tag + kind + "/input", x, env.sp("x" + tag + kind))


def basic(n, K, scale="pos", sym=False, how="init", kinds=("vec", "col", "mat"), check_nan=True):
    def sc(env):
        from curvlinops import NeumannInverseLinearOperator

        M = symmetric(env, "A", n) if sym else env.array("A", (n, n))
        A = env.sp("A")
        if scale == "default":
            s, es = None, E.ONE
        else:
            s = env.scalar("s", scale)
            es = env.sp("s")[()]
        kw = dict(num_terms=K, check_nan=check_nan)
        if s is not None:
            kw["scale"] = s
        if how == "init":
            inv = NeumannInverseLinearOperator(MatLO(M), **kw)
        elif how == "positional":
            inv = NeumannInverseLinearOperator(MatLO(M), K, s, check_nan)
        else:
            inv = NeumannInverseLinearOperator(MatLO(M), num_terms=1, scale=0.5)
            inv.set_neumann_hyperparameters(**kw)
        claims(env, inv, A, K, es, kinds=kinds)

    return sc


def history(env):
    """Every change of the hyper-parameters defines the operator from then on."""
    from curvlinops import NeumannInverseLinearOperator

    M = env.array("A", (2, 2))
    A = env.sp("A")
    s1, s2 = env.scalar("s1", "pos"), env.scalar("s2", "pos")
    e1, e2 = env.sp("s1")[()], env.sp("s2")[()]
    lo = MatLO(M)
    inv = NeumannInverseLinearOperator(lo, num_terms=2, scale=s1)
    other = NeumannInverseLinearOperator(lo, num_terms=1, scale=s2)
    claims(env, inv, A, 2, e1, "a/", ("vec",))
    inv.set_neumann_hyperparameters(num_terms=3, scale=s2)
    claims(env, inv, A, 3, e2, "b/", ("vec", "mat"))
    inv.set_neumann_hyperparameters(num_terms=0, scale=s1, check_nan=False)
    claims(env, inv, A, 0, e1, "c/", ("vec",))
    inv.set_neumann_hyperparameters(num_terms=2, scale=s2)
    claims(env, inv, A, 2, e2, "d/", ("vec",))
    claims(env, other, A, 1, e2, "e/", ("vec",))


def defaults(env):
    """100 terms and unit scale: on 1 x 1 matrices, as powers of (1 - a)."""
    from curvlinops import NeumannInverseLinearOperator

    # nilpotent I − A: the series stops by itself, so that all 100 terms are exact
    a = env.scalar("a", "real")
    M = np.eye(3)
    M[0, 1] = a
    M[1, 2] = a
    S = np.empty((3, 3), dtype=object)
    S[...] = E.ZERO
    for i in range(3):
        S[i, i] = E.ONE
    S[0, 1] = S[1, 2] = env.sp("a")[()]
    inv = NeumannInverseLinearOperator(MatLO(M))
    lo = inv
    claims(env, lo, S, 4, E.ONE, "nilpotent/", ("vec", "mat"))
    # A = 0: every term adds x once more, which counts the terms
    Z = np.zeros((2, 2))
    A = MatLO(Z, np.float64)
    inv = NeumannInverseLinearOperator(A)
    x = env.array("x0", (2,))
    env.eq("100 terms", inv @ x, [E.scale(v, 101) for v in env.sp("x0")])
    env.true("100 products", A.calls == 100)
    inv.set_neumann_hyperparameters()
    env.eq("100 terms after reset", inv @ x, [E.scale(v, 101) for v in env.sp("x0")])


class NanLO(MatLO):
    """Operator whose k-th product has NaN in entry j when the bit (k, j) is set."""

    def __init__(self, env, M, K, n):
        super().__init__(M)
        self.bits = env.array("nan", (K, n), "bit")
        self.env = env
        self.k = 0

    def _matvec(self, x):
        r = self.M @ x.reshape(-1)
        b = self.bits[self.k]
        self.k += 1
        if not self.env.symbolic:
            r = np.array(r)
            r[b == 1] = np.nan
            return r
        out = np.empty(len(r), dtype=object)
        bb = nd.lift_arr(b)
        for j, e in enumerate(nd.lift_arr(r)):
            out[j] = E.ite(E.eq(bb[j], E.ONE), E.undef("nan", E.ZERO), e)
        return nd.SymNd(out)


def nan_check(K, n, check):
    def sc(env):
        from curvlinops import NeumannInverseLinearOperator

        M = env.array("A", (n, n))
        A = NanLO(env, M, K, n)
        inv = NeumannInverseLinearOperator(A, num_terms=K, scale=env.scalar("s", "pos"), check_nan=check)
        x = env.array("x", (n,))
        res, exc = env.attempt(lambda: inv @ x)
        bits = list(env.sp("nan").reshape(-1))
        some = E.bor(*[E.eq(b, E.ONE) for b in bits])
        if exc is not None:
            env.true("raises ValueError", check and isinstance(exc, ValueError))
            env.true("a NaN occurred", some)
            return
        env.true("shape", np.shape(res) == (n,))
        if check:
            env.true("no NaN occurred", E.bnot(some))
            env.eq("result", res, series(env.sp("A"), env.sp("x"), K, env.sp("s")[()]))

    return sc


def algebra(env):
    """Inside SciPy's operator algebra, and of an exported curvature operator."""
    from curvlinops import HessianLinearOperator, NeumannInverseLinearOperator

    from .lib import Problem

    P = Problem(env, batches=(1, 1), shapes=((2,),))
    H = HessianLinearOperator(P.model, P.loss, P.params, P.data, check_deterministic=False).to_scipy()
    s = env.scalar("s", "pos")
    inv = NeumannInverseLinearOperator(H, num_terms=2, scale=s)
    claims(env, inv, P.hessian(), 2, env.sp("s")[()], kinds=("vec", "mat"))
    x = env.array("x", (2,))
    y = env.array("y", (2,))
    sx = series(P.hessian(), env.sp("x"), 2, env.sp("s")[()])
    env.eq("scaled", (2.0 * inv) @ x, [E.scale(v, 2) for v in sx])


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    for n in (1, 2, 3):
        for K in (0, 1, 2, 3):
            if n == 3 and K == 3:
                continue
            add(f"n{n}-K{K}", basic(n, K))
    add("n1-K8", basic(1, 8))
    add("n2-K4", basic(2, 4, kinds=("vec",)))
    add("n2-K5-sym", basic(2, 5, sym=True, kinds=("vec",)))
    add("n3-K3-vec", basic(3, 3, kinds=("vec",)))
    add("n2-K2-real-scale", basic(2, 2, "real"))
    add("n2-K2-default-scale", basic(2, 2, "default"))
    add("n2-K2-mat3", basic(2, 2, kinds=("mat3",)))
    add("n2-K2-set", basic(2, 2, how="set"))
    add("n2-K0-set", basic(2, 0, how="set"))
    add("n2-K2-positional", basic(2, 2, how="positional"))
    add("n2-K2-unchecked", basic(2, 2, check_nan=False))
    add("history", history)
    add("defaults", defaults)
    add("algebra", algebra)
    for K, n in ((1, 1), (1, 2), (2, 2), (3, 1)):
        add(f"nan-K{K}-n{n}", nan_check(K, n, True), max_paths=300)
    add("nan-unchecked", nan_check(2, 2, False), max_paths=300)
    if tier == "thorough":
        add("n3-K4", basic(3, 4, kinds=("vec",)))
        add("n4-K2", basic(4, 2))
        add("n2-K6", basic(2, 6, kinds=("vec",)))
        add("n1-K16", basic(1, 16))
        add("nan-K3-n2", nan_check(3, 2, True), max_paths=2000)
    return out
