"""C24: outer-product operator and projector."""
import numpy as np

from symtorch import expr as E

from .lib import dots
from .np_lib import MatLO, mat_apply, orthonormal

BOUNDS = {
    "sizes": "dimension 1-4, 1-4 columns (also more columns than dimensions)",
    "values": "all real coefficients, columns and vectors; orthonormal bases through products of Householder reflections "
    "(dimension 2 and 3)",
    "formats": "vectors, column vectors, matrices with 1-3 columns, float64 and float32, adjoint and transposed products",
}
ASSUMPTIONS = [
    "exact real arithmetic",
    "SciPy's LinearOperator dispatch is executed for real; NumPy's einsum means its defining sum",
]


def outer_spec(c, A):
    D, K = A.shape
    M = np.empty((D, D), dtype=object)
    for i in range(D):
        for j in range(D):
            M[i, j] = E.esum([E.mul(E.mul(c[k], A[i, k]), A[j, k]) for k in range(K)])
    return M


def claims(env, op, M, tag="", dtype=None):
    D = M.shape[0]
    env.true(tag + "shape", tuple(op.shape) == (D, D))
    for side, o in (("", op), ("H/", op.adjoint()), ("HH/", op.adjoint().adjoint())):
        for kd, shape in (("vec", (D,)), ("col", (D, 1)), ("mat", (D, 3)), ("mat1", (D, 1))):
            nm = tag + side + kd
            x = env.array("x" + nm, shape, dtype=dtype)
            r = o.matmat(x) if kd == "mat1" else o @ x
            env.eq(nm, r, mat_apply(M, env.sp("x" + nm)))
            env.eq(nm + "/input", x, env.sp("x" + nm))
    y = env.array("y" + tag, (D,), dtype=dtype)
    env.eq(tag + "rmatvec", op.rmatvec(y), mat_apply(M, env.sp("y" + tag)))
    env.eq(tag + "T", op.T @ y, mat_apply(M, env.sp("y" + tag)))
    Y = env.array("Y" + tag, (D, 2), dtype=dtype)
    env.eq(tag + "rmatmat", op.rmatmat(Y), mat_apply(M, env.sp("Y" + tag)))


def outer(D, K, dtype=None):
    def sc(env):
        from curvlinops.outer import OuterProductLinearOperator

        A = env.array("A", (D, K), dtype=dtype)
        c = env.array("c", (K,), dtype=dtype)
        op = OuterProductLinearOperator(c, A)
        claims(env, op, outer_spec(env.sp("c"), env.sp("A")), dtype=dtype)
        env.eq("columns untouched", A, env.sp("A"))
        env.eq("coefficients untouched", c, env.sp("c"))

    return sc


def two(env):
    """Two operators do not influence each other; sums and products of operators."""
    from curvlinops.outer import OuterProductLinearOperator, Projector

    A, B = env.array("A", (2, 1)), env.array("B", (2, 3))
    c, d = env.array("c", (1,)), env.array("d", (3,))
    o1, o2 = OuterProductLinearOperator(c, A), OuterProductLinearOperator(d, B)
    p = Projector(B)
    M1, M2 = outer_spec(env.sp("c"), env.sp("A")), outer_spec(env.sp("d"), env.sp("B"))
    MP = outer_spec([E.ONE] * 3, env.sp("B"))
    claims(env, o1, M1, "1/")
    claims(env, o2, M2, "2/")
    claims(env, p, MP, "p/")
    x = env.array("x", (2,))
    sx = env.sp("x")
    env.eq("sum", (o1 + o2) @ x, [E.add(a, b) for a, b in zip(mat_apply(M1, sx), mat_apply(M2, sx))])
    env.eq("product", (o1 @ o2) @ x, mat_apply(M1, mat_apply(M2, sx)))
    G = MatLO(env.array("G", (2, 2)))
    G_ = env.sp("G")
    env.eq("deflated", (G - p) @ x, [E.sub(a, b) for a, b in zip(mat_apply(G_, sx), mat_apply(MP, sx))])
    env.eq("p G p", (p @ G @ p) @ x, mat_apply(MP, mat_apply(G_, mat_apply(MP, sx))))


def projector(D, K):
    """On an orthonormal basis: keeps the span, removes its complement, is idempotent."""

    def sc(env):
        from curvlinops.outer import Projector

        Q, R = orthonormal(env, "q", D, K)
        P = Projector(env.array_of(Q))
        x = env.array("x", (D,))
        sx = env.sp("x")
        r = P @ x
        co = [dots(Q[:, k], sx) for k in range(K)]
        env.eq("projection", r, [dots(Q[i], co) for i in range(D)])
        env.eq("idempotent", P @ r, [dots(Q[i], co) for i in range(D)])
        for k in range(K):
            env.eq(f"basis{k}", P @ env.array_of(Q[:, k]), Q[:, k])
        for k in range(D - K):
            env.eq(f"complement{k}", P @ env.array_of(R[:, k]), [E.ZERO] * D)
        if K == D:
            env.eq("whole space", r, sx)

    return sc


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    for D in (1, 2, 3, 4):
        for K in (1, 2, 3, 4):
            add(f"outer-{D}-{K}", outer(D, K))
    add("outer-float32", outer(3, 2, np.float32))
    add("two", two)
    for D, K in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
        add(f"projector-{D}-{K}", projector(D, K))
    return out
