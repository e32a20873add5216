"""C05: the Jacobian operator is the Jacobian of the stacked outputs, the transposed
Jacobian its transpose, and each is the adjoint of the other."""
import torch
from torch import nn

from .lib import (
    ALL_MODES,
    CURV_ASSUMPTIONS,
    CURV_BOUNDS,
    DEFAULT_MODES,
    Problem,
    Reiter,
    check_matrix,
    linear_net,
)

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS


class Squeeze(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, X):
        return self.m(X).squeeze(-1)


def scenario(modes=DEFAULT_MODES, squeeze=False, data=None, op_kw=None, func=False, adjoints=True, **pk):
    def sc(env):
        from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

        P = Problem(env, order=1, **pk)
        if squeeze:
            P.model = Squeeze(P.model)
        model = P.model
        if func:
            model = lambda X: P.model(X)
        d = data(P.data) if data else P.data
        kw = P.kwargs(**(op_kw or {}))
        J = JacobianLinearOperator(model, P.params, d, **kw)
        JT = TransposedJacobianLinearOperator(model, P.params, d, **kw)
        A = P.jacobian()
        n = P.N_true
        if squeeze:
            out = [(n,)]
        elif P.lossspec.kind == "ce" and P.extra:
            out = [(n, P.C, *P.extra)]
        else:
            out = [(n, *P.extra, P.C)]
        dt = pk.get("dtype") or torch.float64
        ops = [("J/", J, A, P.pshapes, out), ("JT/", JT, A.T.copy(), out, P.pshapes)]
        if adjoints:
            ops += [
                ("J*/", J.adjoint(), A.T.copy(), out, P.pshapes),
                ("JT*/", JT.adjoint(), A, P.pshapes, out),
                ("J**/", J.adjoint().adjoint(), A, P.pshapes, out),
            ]
        for tag, op, M, i, o in ops:
            check_matrix(env, op, M, i, o, modes=modes, tag=tag, dtype=dt)
        for tag, op in (("J", J), ("JT", JT)):
            env.raises(tag + " has no loss", op.gradient_and_loss, ValueError)

    return sc


def configs(tier):
    out = []

    def add(name, **kw):
        out.append((name, scenario(**kw)))

    add("basic")
    add("modes", modes=ALL_MODES, batches=(1, 1))
    add("one-batch", batches=(3,))
    add("batches121", batches=(1, 2, 1))
    add("batches24", batches=(2, 4), shapes=((2,),))
    add("batches31", batches=(3, 1), C=1)
    add("batches11111", batches=(1,) * 5, shapes=((2,),))
    add("C1", C=1, modes=ALL_MODES)
    add("C3", C=3, shapes=((2,),), batches=(1, 2))
    add("rows2", extra=(2,), batches=(2, 1), modes=ALL_MODES[:4])
    add("rows1x2", extra=(1, 2), batches=(1, 1), shapes=((2,),))
    add("rows2x2", extra=(2, 2), batches=(1, 1), shapes=((1,),))
    add("class-first", extra=(2,), batches=(2, 1), loss="ce")
    add("class-first3", extra=(3,), batches=(1, 1), loss="ce", shapes=((2,),), modes=ALL_MODES)
    add("squeeze", squeeze=True, C=1, batches=(2, 1), modes=ALL_MODES)
    add("squeeze-rows", C=1, batches=(2, 1), extra=(2,), shapes=((2,),))
    add("scalar-param", shapes=((), (2,)), modes=ALL_MODES)
    add("only-scalar-param", shapes=((),), modes=ALL_MODES)
    add("matrix-params", shapes=((2, 2), (1, 1, 1)), batches=(1, 1), modes=ALL_MODES)
    add("many-params", shapes=((1,), (1,), (2,), (1,)), batches=(2,))
    add("reordered", shapes=((1,), (2,), (1, 2)), perm=(2, 0, 1), batches=(1, 1))
    add("partial", shapes=((1,), (2,), (1, 2)), perm=(1,))
    add("partial2", shapes=((1,), (2,), (1, 2)), perm=(2, 1))
    add("frozen", shapes=((1,), (2,), (1, 2)), frozen=(0,))
    add("dict", dict_input="dict")
    add("userdict", dict_input="userdict", batches=(1, 2))
    add("num-data", num_data=3, batches=(2, 1))
    add("dict-num-data", dict_input="dict", num_data=3, batches=(1, 2))
    add("reiter", data=Reiter)
    add("tuple-data", data=tuple)
    add("function", func=True)
    add("progressbar", op_kw=dict(progressbar=True))
    add("checked", op_kw=dict(check_deterministic=True), shapes=((2,),))
    add("checked-rows", op_kw=dict(check_deterministic=True), shapes=((2,),), extra=(2,), batches=(1, 1))
    add("float32", dtype=torch.float32)
    for act in ("tanh", "relu", "sigmoid"):
        add(f"net-{act}", model=linear_net(act=act), batches=(1, 1), adjoints=False)
    add("net-deep", C=1, model=linear_net(widths=(1, 1, 1, 1), bias=(True, False, True)), batches=(1, 1))
    add("net-seq", model=linear_net(widths=(2, 2), bias=(True,)), extra=(2,), batches=(1, 1))
    add("net-seq-ce", loss="ce", model=linear_net(widths=(2, 2), bias=(True,)), extra=(2,), batches=(1, 1))
    return out
