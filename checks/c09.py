"""C09: the SciPy export computes the same matrix (and adjoint) in NumPy types."""
import numpy as np
import torch

from symtorch import expr as E

from .lib import CURV_ASSUMPTIONS, Problem, linear_net
from .np_lib import mat_apply
from .torch_lib import make_torch_mat

BOUNDS = {
    "operators": "custom operators with every real matrix (square and rectangular, several input and output tensors), Hessian, "
    "GGN, empirical and Monte-Carlo Fisher, Jacobian and its adjoint, activation Hessian",
    "arrays": "float64/float32/float16/integer/boolean arrays; vectors, columns, matrices with 1-3 columns; C- and Fortran order, "
    "strided and read-only arrays",
    "dtypes": "float64, float32 and bfloat16 operators; default and requested exported dtype",
    "values": "all real values (integer arrays: fixed integers)",
}
ASSUMPTIONS = CURV_ASSUMPTIONS


def claims(env, lo, A, tag="", dtype=None, out_dtype=None, kinds=("vec", "col", "mat", "mat1"), algebra=False):
    """lo applied to arrays equals A, its adjoint equals A's transpose."""
    m, n = A.shape
    env.true(tag + "shape", tuple(lo.shape) == (m, n))
    T = A.T.copy()
    dt = np.dtype(dtype or np.float64)

    def arr(nm, k, kd):
        shape = {"vec": (k,), "col": (k, 1), "mat": (k, 3), "mat1": (k, 1), "F": (k, 2), "ro": (k, 2)}.get(kd)
        if kd == "strided":
            x = env.array(nm, (2 * k, 2), dtype=dtype)
            return x[::2], env.sp(nm)[::2]
        if kd == "rev":
            x = env.array(nm, (2, k), dtype=dtype)
            return x.T, env.sp(nm).T
        if dt.kind in "iub":
            vals = ((np.arange(int(np.prod(shape))) * 5) % 7 - 3).reshape(shape).astype(dt)
            s = np.frompyfunc(lambda v: E.const(int(v)), 1, 1)(vals)
            return vals, s
        x = env.array(nm, shape, dtype=dtype)
        if kd == "F":
            x = x.copy(order="F")
        return x, env.sp(nm)

    def check(nm, f, M, k, kd):
        x, sx = arr("x" + tag + nm, k, kd)
        if kd == "ro" and not env.symbolic:
            x.flags.writeable = False
        r = f(x)
        env.eq(f"{tag}{nm}", r, mat_apply(M, sx))
        if dt.kind == "f":
            env.true(f"{tag}{nm}/dtype", np.dtype(r.dtype) == np.dtype(out_dtype or dt), f"{r.dtype} from {dt}")
            env.true(f"{tag}{nm}/alias", not np.shares_memory(r, x))
        else:
            env.true(f"{tag}{nm}/dtype", np.dtype(r.dtype).kind == "f", str(r.dtype))
        env.eq(f"{tag}{nm}/input", x, sx)

    for kd in kinds:
        vec = kd in ("vec", "col")
        check(f"{kd}/@", lambda x: lo @ x, A, n, kd)
        check(f"{kd}/dot", lambda x: lo.dot(x), A, n, kd)
        check(f"{kd}/matvec" if vec else f"{kd}/matmat", lo.matvec if vec else lo.matmat, A, n, kd)
        check(f"{kd}/rmatvec" if vec else f"{kd}/rmatmat", lo.rmatvec if vec else lo.rmatmat, T, m, kd)
        check(f"{kd}/H", lambda x: lo.H @ x, T, m, kd)
        check(f"{kd}/T", lambda x: lo.T @ x, T, m, kd)
    if algebra:
        x = env.array(tag + "alg", (n,))
        sx = env.sp(tag + "alg")
        env.eq(tag + "H lo x", (lo.H @ lo) @ x, mat_apply(T, mat_apply(A, sx)))
        env.eq(tag + "2 lo x", (2.0 * lo) @ x, [E.scale(v, 2) for v in mat_apply(A, sx)])
        env.eq(tag + "sum", (lo + lo) @ x, [E.scale(v, 2) for v in mat_apply(A, sx)])


def exported(env, op, tag=""):
    lo = op.to_scipy()
    env.true(tag + "default dtype", np.dtype(lo.dtype) == np.dtype(None), str(lo.dtype))
    for d in (np.float32, np.float64, "float32"):
        env.true(f"{tag}dtype {d}", np.dtype(op.to_scipy(dtype=d).dtype) == np.dtype(d))
        env.true(f"{tag}dtype {d} positional", np.dtype(op.to_scipy(d).dtype) == np.dtype(d))
    return lo


def matrix(ins, outs, dtype=torch.float64, xdtype=None, kinds=("vec", "col", "mat", "mat1"), req=None, sym=False,
           algebra=False, tol=None):
    def sc(env):
        if tol:
            env.exact_casts(tol)
        op = make_torch_mat(env, "W", ins, outs, dtype)
        A = env.sp("W")
        if sym:
            op.SELF_ADJOINT = False
        lo = exported(env, op) if req is None else op.to_scipy(dtype=req)
        claims(env, lo, A, dtype=xdtype, kinds=kinds, algebra=algebra)
        la = op.adjoint().to_scipy()
        claims(env, la, A.T.copy(), tag="adj/", dtype=xdtype, kinds=kinds[:2])

    return sc


def curvature_op(name, **pk):
    """Exported curvature operators."""

    def sc(env):
        import curvlinops as c

        P = Problem(env, batches=(1, 1), order=2 if name == "Hessian" else 1, **pk)
        A = {"Hessian": P.hessian, "GGN": P.ggn, "EF": P.ef, "Jacobian": P.jacobian, "JacobianT": P.jacobian}[name]()
        cls = {"Hessian": c.HessianLinearOperator, "GGN": c.GGNLinearOperator, "EF": c.EFLinearOperator,
               "Jacobian": c.JacobianLinearOperator, "JacobianT": c.TransposedJacobianLinearOperator}[name]
        if name.startswith("Jac"):
            op = cls(P.model, P.params, P.data, check_deterministic=False)
        else:
            op = cls(P.model, P.loss, P.params, P.data, check_deterministic=False)
        if name == "JacobianT":
            A = A.T.copy()
        dt = pk.get("dtype")
        if dt is not None:
            env.exact_casts()
        lo = exported(env, op)
        claims(env, lo, A, kinds=("vec", "mat"))
        if dt is not None:
            claims(env, lo, A, "32/", np.float32, kinds=("vec",))

    return sc


def mc_fisher(env):
    """The exported Monte-Carlo Fisher is one matrix, the same as the operator's."""
    from curvlinops import FisherMCLinearOperator

    P = Problem(env, batches=(1, 1), order=1, shapes=((2,),))
    F = FisherMCLinearOperator(P.model, P.loss, P.params, P.data, check_deterministic=False, mc_samples=1)
    lo = exported(env, F)
    x = env.array("x", (2,))
    X = env.array("X", (2, 2))
    env.same("vec", lo @ x, F @ torch.as_tensor(x))
    env.same("mat", lo @ X, F @ torch.as_tensor(X))
    env.same("rvec", lo.rmatvec(x), F @ torch.as_tensor(x))
    env.same("again", lo @ x, lo.matvec(x))


def activation(env):
    from torch import nn

    from curvlinops.experimental import ActivationHessianLinearOperator

    net = linear_net(widths=(1, 2, 2))(env, "", torch.float64)
    X = env.tensor("X", (1, 1))
    y = env.tensor("y", (1, 2))
    mods = list(dict(net.module.named_modules()))
    name = [n for n, m in net.module.named_modules() if isinstance(m, nn.Linear)][0]
    op = ActivationHessianLinearOperator(net.module, nn.MSELoss(), (name, "output", 0), [(X, y)])
    lo = exported(env, op)
    x = env.array("x", (2,))
    Y = env.array("Y", (2, 3))
    env.same("vec", lo @ x, op @ torch.as_tensor(x))
    env.same("mat", lo @ Y, op @ torch.as_tensor(Y))
    env.same("rmat", lo.rmatmat(Y), op.adjoint() @ torch.as_tensor(Y))


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    I1, I2, I3 = [(2,)], [(1, 2), (2,)], [(3,)]
    O1, O2 = [(3,)], [(2, 1), (1,), ()]
    ALLK = ("vec", "col", "mat", "mat1", "F", "ro", "strided", "rev")
    add("square", matrix(I1, I1, kinds=ALLK, algebra=True))
    add("wide", matrix(I3, I1, kinds=ALLK, algebra=True))
    add("tall", matrix(I1, O1, kinds=ALLK, algebra=True))
    add("lists", matrix(I2, O2, kinds=("vec", "mat", "F"), algebra=True))
    add("scalar", matrix([()], [()]))
    add("row", matrix(I3, [()]))
    add("column", matrix([(1,)], O1))
    for nm, o, x, tol in (
        ("64-32", torch.float64, np.float32, 1e-4),
        ("32-32", torch.float32, np.float32, 1e-4),
        ("32-64", torch.float32, np.float64, 1e-4),
        ("64-16", torch.float64, np.float16, 2e-2),
        ("16-64", torch.float16, np.float64, 2e-2),
        ("bf16-32", torch.bfloat16, np.float32, 2e-1),
        ("bf16-64", torch.bfloat16, np.float64, 2e-1),
        ("64-int", torch.float64, np.int64, None),
        ("64-int32", torch.float64, np.int32, None),
        ("32-int", torch.float32, np.int64, 1e-4),
        ("64-bool", torch.float64, np.bool_, None),
    ):
        kinds = ("vec", "col", "mat", "mat1")
        add(f"dtype-{nm}", matrix(I1, O1, o, x, kinds, tol=tol))
        if nm in ("64-32", "64-int", "32-64"):
            add(f"dtype-{nm}-square", matrix(I1, I1, o, x, kinds, tol=tol))
    add("request-32", matrix(I1, O1, req=np.float32))
    add("request-64-of-32", matrix(I1, O1, torch.float32, np.float64, req=np.float64, tol=1e-4))
    for nm in ("Hessian", "GGN", "EF", "Jacobian", "JacobianT"):
        add(nm, curvature_op(nm))
        add(nm + "-float32", curvature_op(nm, dtype=torch.float32, shapes=((2,),)))
        add(nm + "-matrix-params", curvature_op(nm, shapes=((1, 2), ())))
    add("mc-fisher", mc_fisher)
    add("activation", activation)
    return out
