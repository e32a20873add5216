"""C15: the submatrix operator is exactly the selected rows and columns."""
import numpy as np

from symtorch import expr as E

from .lib import dots
from .np_lib import MatLO, mat_apply, select

BOUNDS = {
    "matrices": "all real matrices of size up to 4 x 4 (rectangular included), float64, float32 and integer operators",
    "indices": "lists of up to 3 row and 3 column indices; symbolic (all integers) for up to 2 + 2 indices, otherwise every "
    "listed selection",
    "vectors": "all real vectors, column vectors and matrices with 1-3 columns",
    "histories": "up to 3 changes of the selection, including failing ones",
}
ASSUMPTIONS = [
    "exact real arithmetic",
    "SciPy's LinearOperator dispatch is executed for real",
    "NumPy array operations mean what symtorch/nd.py says (validated on every path)",
]


def sub_spec(M, rows, cols):
    S = np.empty((len(rows), len(cols)), dtype=object)
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            S[i, j] = M[r, c]
    return S


def claims(env, sub, S, tag="", dtype=None, inputs=("vec", "col", "mat", "mat1", "list"), adjoint=True):
    m, n = S.shape
    env.true(tag + "shape", tuple(sub.shape) == (m, n))
    for side, op, T in (("", sub, S),) + ((("H/", sub.adjoint(), S.T.copy()),) if adjoint else ()):
        r, c = T.shape
        for kind in inputs:
            nm = f"{tag}{side}{kind}"
            shape = {"vec": (c,), "list": (c,), "col": (c, 1), "mat": (c, 3), "mat1": (c, 1)}[kind]
            x = env.array("x" + nm, shape, dtype=dtype)
            sx = env.sp("x" + nm)
            if kind in ("vec", "col", "list"):
                res = op.matvec(x) if kind != "list" else op @ x
            else:
                res = op.matmat(x) if kind == "mat" else op @ x
            env.eq(nm, res, mat_apply(T, sx))
    if adjoint:
        y = env.array("y" + tag, (m,))
        env.eq(tag + "rmatvec", sub.rmatvec(y), mat_apply(S.T.copy(), env.sp("y" + tag)))
        Y = env.array("Y" + tag, (m, 2))
        env.eq(tag + "rmatmat", sub.rmatmat(Y), mat_apply(S.T.copy(), env.sp("Y" + tag)))
        env.eq(tag + "HH", sub.adjoint().adjoint() @ env.array("z" + tag, (n,)), mat_apply(S, env.sp("z" + tag)))


def selection(m, n, rows, cols, dtype=None, xdtype=None, tuples=False):
    def sc(env):
        from curvlinops import SubmatrixLinearOperator

        M = env.array("M", (m, n))
        A = MatLO(M, dtype)
        sub = SubmatrixLinearOperator(A, list(rows), list(cols))
        claims(env, sub, sub_spec(env.sp("M"), rows, cols), dtype=xdtype)

    return sc


def integer_operator(env):
    """An operator of integer type times real vectors is not truncated."""
    from curvlinops import SubmatrixLinearOperator

    M = np.array([[1, -2, 3], [4, 5, -6], [7, 8, 10]])
    S = np.array([[E.const(int(v)) for v in r] for r in M], dtype=object)
    sub = SubmatrixLinearOperator(MatLO(M, np.int64), [2, 0], [1, 2])
    claims(env, sub, sub_spec(S, [2, 0], [1, 2]))


def float32_operator(env):
    """A single-precision operator times double-precision vectors is not rounded by the embedding."""
    from curvlinops import SubmatrixLinearOperator

    M = env.array("M", (3, 3))
    sub = SubmatrixLinearOperator(MatLO(M, np.float32), [2, 0], [1, 2])
    claims(env, sub, sub_spec(env.sp("M"), [2, 0], [1, 2]))


def symbolic_indices(m, n, nr, nc):
    def sc(env):
        from curvlinops import SubmatrixLinearOperator

        M = env.array("M", (m, n))
        rows = [env.integer(f"r{i}") for i in range(nr)]
        cols = [env.integer(f"c{i}") for i in range(nc)]
        valid = []
        for pre, k, size in (("r", nr, m), ("c", nc, n)):
            idx = [env.sp(f"{pre}{i}")[()] for i in range(k)]
            for i in range(k):
                valid += [E.ge(idx[i], E.ZERO), E.lt(idx[i], E.const(size))]
                for j in range(i):
                    valid.append(E.bnot(E.eq(idx[i], idx[j])))
        valid = E.band(*valid)
        sub, exc = env.attempt(lambda: SubmatrixLinearOperator(MatLO(M), rows, cols))
        if exc is not None:
            env.true("rejection is a ValueError", isinstance(exc, ValueError))
            env.true("rejected indices are invalid", E.bnot(valid))
            return
        env.true("accepted indices are valid", valid)
        S = np.empty((nr, nc), dtype=object)
        Ms = env.sp("M")
        for i in range(nr):
            for j in range(nc):
                S[i, j] = select(
                    [select(list(Ms[a]), env.sp(f"c{j}")[()]) for a in range(m)], env.sp(f"r{i}")[()]
                )
        claims(env, sub, S, inputs=("vec", "mat"))

    return sc


def history(*steps, m=3, n=3):
    """Sequence of selections; invalid ones must fail and leave the operator as it was."""

    def sc(env):
        from curvlinops import SubmatrixLinearOperator

        M = env.array("M", (m, n))
        (r, c), rest = steps[0], steps[1:]
        sub = SubmatrixLinearOperator(MatLO(M), list(r), list(c))
        claims(env, sub, sub_spec(env.sp("M"), r, c), tag="s0/", inputs=("vec",))
        for k, (r2, c2) in enumerate(rest, 1):
            bad = any(
                any(not isinstance(i, int) for i in l)
                or len(set(map(repr, l))) != len(l)
                or any(not 0 <= i < d for i in l if isinstance(i, int))
                for l, d in ((r2, m), (c2, n))
            )
            if bad:
                env.raises(f"s{k}/rejected", lambda: sub.set_submatrix(list(r2), list(c2)), ValueError)
            else:
                sub.set_submatrix(list(r2), list(c2))
                r, c = r2, c2
            claims(env, sub, sub_spec(env.sp("M"), r, c), tag=f"s{k}/", inputs=("vec", "mat"))

    return sc


def invalid(rows, cols, m=3, n=3):
    def sc(env):
        from curvlinops import SubmatrixLinearOperator

        M = env.array("M", (m, n))
        env.raises("rejected", lambda: SubmatrixLinearOperator(MatLO(M), rows, cols), ValueError)

    return sc


def nested(env):
    """A submatrix of a submatrix."""
    from curvlinops import SubmatrixLinearOperator

    M = env.array("M", (4, 3))
    inner = SubmatrixLinearOperator(MatLO(M), [3, 0, 2], [2, 0])
    outer = SubmatrixLinearOperator(inner, [2, 0], [1])
    claims(env, outer, sub_spec(env.sp("M"), [2, 3], [0]))
    # the adjoint's submatrix, and the operator is not influenced by its adjoint
    adj = SubmatrixLinearOperator(inner.adjoint(), [1], [0, 2])
    claims(env, adj, sub_spec(env.sp("M").T.copy(), [0], [3, 2]), tag="adj/")
    H = inner.adjoint()
    H.set_submatrix([1], [3])
    claims(env, inner, sub_spec(env.sp("M"), [3, 0, 2], [2, 0]), tag="inner/", inputs=("vec",))
    claims(env, H, np.array([[env.sp("M")[3, 1]]], dtype=object), tag="H2/", inputs=("vec",))


def algebra(env):
    """Used inside SciPy's operator algebra."""
    from curvlinops import SubmatrixLinearOperator

    M = env.array("M", (3, 3))
    sub = SubmatrixLinearOperator(MatLO(M), [2, 0], [1, 2])
    S = sub_spec(env.sp("M"), [2, 0], [1, 2])
    x = env.array("x", (2,))
    sx = env.sp("x")
    SS = mat_apply(S, mat_apply(S.T.copy(), sx))
    env.eq("S S^T x", (sub @ sub.adjoint()) @ x, SS)
    env.eq("S.H.T", sub.adjoint() @ (sub @ x), mat_apply(S.T.copy(), mat_apply(S, sx)))
    env.eq("2 S x", (2.0 * sub) @ x, [E.scale(v, 2) for v in mat_apply(S, sx)])
    env.eq("S.T x", sub.T @ x, mat_apply(S.T.copy(), sx))


def torch_operator(env):
    """Submatrix of an exported curvature operator."""
    from curvlinops import GGNLinearOperator, SubmatrixLinearOperator

    from .lib import Problem

    P = Problem(env, order=1, batches=(1, 1))
    G = GGNLinearOperator(P.model, P.loss, P.params, P.data, check_deterministic=False).to_scipy()
    A = P.ggn()
    sub = SubmatrixLinearOperator(G, [2, 0], [1, 2])
    claims(env, sub, sub_spec(A, [2, 0], [1, 2]), inputs=("vec", "mat"))


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    import itertools

    for m, n in ((2, 2), (3, 2), (2, 3)):
        for nr in range(1, min(m, 2) + 1):
            for nc in range(1, min(n, 2) + 1):
                if (nr, nc) == (2, 2) and (m, n) != (2, 2) and tier == "quick":
                    continue
                add(f"symbolic-{m}x{n}-{nr}x{nc}", symbolic_indices(m, n, nr, nc), max_paths=2000)
    add("symbolic-2x2-3x1", symbolic_indices(2, 2, 3, 1), max_paths=2000)
    add("symbolic-1x3-1x3", symbolic_indices(1, 3, 1, 3), max_paths=4000)
    perms = [(0, 1, 2), (2, 1, 0), (1, 0), (2, 0), (1,)]
    for r in perms:
        for c in perms:
            add(f"3x3-{''.join(map(str, r))}-{''.join(map(str, c))}", selection(3, 3, r, c))
    add("4x3", selection(4, 3, (3, 1, 0), (2, 0)))
    add("3x4", selection(3, 4, (2, 0), (3, 0, 1)))
    add("1x1", selection(1, 1, (0,), (0,)))
    add("float32-x", selection(3, 3, (2, 0), (1, 0), np.float32, np.float32))
    add("float32-op", float32_operator)
    add("integer-op", integer_operator)
    add("nested", nested)
    add("algebra", algebra)
    add("torch", torch_operator)
    V, W = ((0, 2), (1,)), ((2, 1), (2, 0, 1))
    bad = {
        "dup-rows": ((1, 1), (0,)),
        "dup-cols": ((1,), (0, 0)),
        "dup-cols-apart": ((1,), (2, 0, 2)),
        "dup-rows-apart": ((0, 2, 0), (1,)),
        "dup-rows-permuted": ((0, 1, 0, 1), (1, 0)),
        "neg-rows": ((-1,), (0,)),
        "neg-cols": ((1, 2), (0, -2)),
        "big-rows": ((0, 3), (0,)),
        "big-cols": ((0,), (3,)),
        "float-rows": ((0, 1.0), (0,)),
        "float-cols": ((0,), (1.0,)),
        "str": (("0",), (0,)),
        "none": ((0,), (None,)),
    }
    for k, b in bad.items():
        add(f"invalid-{k}", invalid(list(b[0]), list(b[1])))
        add(f"history-{k}", history(V, b, W))
    add("invalid-np", invalid([np.float64(1.0)], [0]))
    add("invalid-big-col-of-wide", invalid([2], [0], 2, 4))
    add("history-3", history(V, W, V))
    add("history-4", history(W, V, ((0,), (2, 1)), W))
    add("history-grow", history(((0,), (0,)), W))
    return out
