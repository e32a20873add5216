"""C07: the activation Hessian is the Hessian of the batch loss in the activation."""
import numpy as np
import torch
from torch import nn

from symtorch import expr as E

from .lib import (
    ALL_MODES,
    CURV_ASSUMPTIONS,
    DEFAULT_MODES,
    LinearNet,
    LossSpec,
    check_matrix,
    dots,
    frac,
    make as make_layer,
    numel,
    set_param,
)

BOUNDS = {
    "batch": "1-3 data in the single mini-batch, coupled across data in the 2-jet models",
    "features": "1-3 features per datum (ranks 1-2), 1-3 outputs",
    "models": "every tail that is twice differentiable at the activation (2-jets carried by the data); "
    "fully-connected nets with tanh/sigmoid/ReLU; activations taken as output or input of a module, "
    "from single tensors and from tuples",
    "columns": "vectors and matrices with 1-3 columns, single tensor or tensor list",
    "values": "all real values of inputs, targets, parameters and probing vectors",
}
ASSUMPTIONS = CURV_ASSUMPTIONS


class Head(nn.Module):
    def __init__(self, p, k, mode):
        super().__init__()
        self.p = p
        self.k, self.mode = k, mode

    def forward(self, X):
        z = X[..., : self.k].reshape(X.shape[0], *self.p.shape) + self.p
        if self.mode == "tuple0":
            return z, X
        if self.mode == "tuple1":
            return X, z
        if self.mode == "list1":
            return [X * 2, z]
        return z


class Tail(nn.Module):
    """2-jet of the rest of the network at the current activation."""

    def __init__(self, C, k, swap):
        super().__init__()
        self.C, self.k, self.swap = C, k, swap

    def forward(self, a, b):
        z, X = (b, a) if self.swap else (a, b)
        N, C = X.shape[0], self.C
        m = N * self.k
        d = (z - z.detach()).reshape(-1)
        r = X[..., self.k :]
        f = r[:, :C]
        J = r[:, C : C + C * m].reshape(N, C, m)
        H = r[:, C + C * m :].reshape(N, C, m, m)
        return f + J @ d + 0.5 * torch.einsum("ncij,i,j->nc", H, d, d)


class Model(nn.Module):
    def __init__(self, head, tail, mode, swap, key=None):
        super().__init__()
        self.head, self.mid, self.tail = head, nn.Identity(), tail
        self.mode, self.swap, self.key = mode, swap, key

    def forward(self, X):
        if self.key:
            X = X[self.key]
        z = self.head(X)
        if self.mode in ("tuple1", "list1"):
            z = z[1]
        elif self.mode == "tuple0":
            z = z[0]
        z = self.mid(z)
        return self.tail(X, z) if self.swap else self.tail(z, X)


def no_hooks(model):
    return all(not m._forward_hooks and not m._forward_pre_hooks for m in model.modules())


def jet(activation, mode="plain", swap=False, N=2, k=(2,), C=2, loss="mse", reduction="mean", modes=DEFAULT_MODES,
        dtype=torch.float64, check=False, dict_input=False, repeat=False):
    def sc(env):
        from curvlinops.experimental import ActivationHessianLinearOperator

        K = numel(k)
        m = N * K
        ls = LossSpec(loss, C, reduction)
        X = env.tensor("X", (N, K + C + C * m + C * m * m), dtype=dtype)
        ts = ls.target_shape()
        if loss == "ce":
            y = env.tensor("y", (N,), ("class", C), torch.int64)
        else:
            y = env.tensor("y", (N, *ts), "unit" if loss == "bce" else "real", dtype)
        p = env.param("p", k, dtype=dtype)
        model = Model(Head(p, K, mode), Tail(C, K, swap), mode, swap, "x" if dict_input else None)
        data = [({"x": X} if dict_input else X, y)]
        op = ActivationHessianLinearOperator(model, ls.module(), activation, data, check_deterministic=check)
        S, Y = env.sp("X"), env.sp("y")
        w = ls.row_weight(frac(N), ())
        A = np.empty((m, m), dtype=object)
        acc = [[[] for _ in range(m)] for _ in range(m)]
        for n in range(N):
            r = S[n][K:]
            yr = [Y[n]] if isinstance(Y[n], E.Expr) else list(Y[n])
            _, g, L = ls.derivs(list(r[:C]), yr)
            J = r[C : C + C * m].reshape(C, m)
            H = r[C + C * m :].reshape(C, m, m)
            for i, j in np.ndindex(m, m):
                for c in range(C):
                    acc[i][j].append(E.mul(g[c], E.scale(E.add(H[c, i, j], H[c, j, i]), frac(1, 2).a[0])))
                    for d in range(C):
                        acc[i][j].append(E.mul(E.mul(J[c, i], L[c, d]), J[d, j]))
        for i, j in np.ndindex(m, m):
            A[i, j] = E.mul(w, E.esum(acc[i][j]))
        shapes = [(N, *k)]
        check_matrix(env, op, A, shapes, modes=modes, dtype=dtype)
        env.true("no hook left", no_hooks(model))
        if repeat:
            v = env.tensor("rep", (m,), dtype=dtype)
            r1 = op @ v
            r2 = op @ v
            env.same("repeated", r2, r1)
            env.same("adjoint", op.adjoint() @ v, r1)
            env.true("still no hook", no_hooks(model))
            env.true("no .grad", p.grad is None)

    return sc


def net(layer, io, widths=(2, 2, 1), act="tanh", N=1, loss="mse", reduction="mean", change=False, modes=((None, "tensor"),)):
    """Activation of module ``layer`` in a fully-connected net; ``change`` updates the
    parameters and the data in place after the operator was constructed."""

    def sc(env):
        from curvlinops.experimental import ActivationHessianLinearOperator

        net_ = LinearNet(env, "", torch.float64, widths=widths, act=act, bias=(True,) * (len(widths) - 1))
        C = widths[-1]
        ls = LossSpec(loss, C, reduction)
        X = env.tensor("X", (N, widths[0]))
        if loss == "ce":
            y = env.tensor("y", (N,), ("class", C), torch.int64)
        else:
            y = env.tensor("y", (N, C), "unit" if loss == "bce" else "real")
        data = [(X, y)]
        op = ActivationHessianLinearOperator(net_.module, ls.module(), (str(layer), io, 0), data, check_deterministic=False)
        delta = {}
        if change:
            first = op @ torch.ones(op.shape[1], dtype=torch.float64)
            for name, q in zip(net_.names, net_.params):
                d = env.tensor("d" + name, tuple(q.shape))
                with torch.no_grad():
                    q.add_(d)
                for a, b in zip(env.sp(name).reshape(-1), env.sp("d" + name).reshape(-1)):
                    delta[a] = E.add(a, b)
            dX = env.tensor("dX", tuple(X.shape))
            X.add_(dX)
            for a, b in zip(env.sp("X").reshape(-1), env.sp("dX").reshape(-1)):
                delta[a] = E.add(a, b)
        # activations: modules alternate Linear, act
        pos = layer + (1 if io == "output" else 0)  # number of modules applied before it
        f = {"tanh": E.tanh, "sigmoid": E.sigmoid, "relu": lambda u: E.ite(E.gt(u, E.ZERO), u, E.ZERO)}[act]

        def run(h, a, b):
            for q in range(a, b):
                if q % 2 == 0:
                    W, bb = env.sp(f"W{q // 2}"), env.sp(f"b{q // 2}")
                    h = [E.add(dots(W[o], h), bb[o]) for o in range(W.shape[0])]
                else:
                    h = [f(u) for u in h]
            return h

        total = 2 * (len(widths) - 1) - 1
        w = ls.row_weight(frac(N), ())
        Y = env.sp("y")
        blocks = []
        for n in range(N):
            z = run(list(env.sp("X")[n]), 0, pos)
            zs = [E.var(f"z{n}_{i}") for i in range(len(z))]
            out = run(zs, pos, total)
            yr = [Y[n]] if isinstance(Y[n], E.Expr) else list(Y[n])
            val = E.mul(w, ls.fn(out, yr))
            B = np.empty((len(z), len(z)), dtype=object)
            for i, j in np.ndindex(len(z), len(z)):
                B[i, j] = E.subst(E.diff(E.diff(val, zs[i]), zs[j]), dict(zip(zs, z)))
            blocks.append(B)
        K = len(blocks[0])
        A = np.empty((N * K, N * K), dtype=object)
        A[...] = E.ZERO
        for n, B in enumerate(blocks):
            A[n * K : (n + 1) * K, n * K : (n + 1) * K] = B
        if delta:
            A = np.frompyfunc(lambda e: E.subst(e, delta), 1, 1)(A)
        check_matrix(env, op, A, [(N, K)], modes=modes)
        env.true("no hook left", no_hooks(net_.module))

    return sc


def rejected(env):
    from curvlinops.experimental import ActivationHessianLinearOperator as Op

    net_ = LinearNet(env, "", torch.float64, widths=(2, 2, 1))
    X, y = env.tensor("X", (2, 2)), env.tensor("y", (2, 1))
    loss = nn.MSELoss()
    kw = dict(check_deterministic=False)
    env.raises("module", lambda: Op(net_.module, loss, ("7", "output", 0), [(X, y)], **kw), ValueError)
    env.raises("io", lambda: Op(net_.module, loss, ("1", "outputs", 0), [(X, y)], **kw), ValueError)
    env.raises("index", lambda: Op(net_.module, loss, ("1", "output", 1), [(X, y)], **kw), ValueError)
    env.raises("batches", lambda: Op(net_.module, loss, ("1", "output", 0), [(X, y), (X, y)], **kw), ValueError)
    env.true("no hook left", no_hooks(net_.module))


def configs(tier):
    out = []

    def add(name, sc):
        out.append((name, sc))

    for loss in ("mse", "ce", "bce", "jet"):
        for red in ("mean", "sum"):
            add(f"jet/{loss}-{red}", jet(("head", "output", 0), loss=loss, reduction=red, repeat=True))
        add(f"jet/{loss}-C3", jet(("head", "output", 0), loss=loss, C=3, N=1))
    for name, a, kw in (
        ("tail-input", ("tail", "input", 0), {}),
        ("tail-input1", ("tail", "input", 1), dict(swap=True)),
        ("mid-input", ("mid", "input", 0), {}),
        ("mid-output", ("mid", "output", 0), {}),
        ("tuple0", ("head", "output", 0), dict(mode="tuple0")),
        ("tuple1", ("head", "output", 1), dict(mode="tuple1")),
        ("list1", ("head", "output", 1), dict(mode="list1")),
        ("tail-output", None, {}),
    ):
        if a is not None:
            add(f"act/{name}", jet(a, repeat=True, **kw))
    add("jet/modes", jet(("head", "output", 0), modes=ALL_MODES, repeat=True))
    add("jet/modes-2d", jet(("head", "output", 0), k=(1, 2), modes=ALL_MODES, N=1))
    add("jet/2d", jet(("head", "output", 0), k=(2, 2), N=1, C=1))
    add("jet/N1", jet(("mid", "output", 0), N=1, k=(3,)))
    add("jet/N3", jet(("mid", "output", 0), N=3, k=(1,), C=2))
    add("jet/checked", jet(("mid", "input", 0), check=True, N=2, k=(1,)))
    add("jet/float32", jet(("mid", "input", 0), dtype=torch.float32))
    for loss in ("mse", "ce", "bce"):
        C = 2 if loss == "ce" else 1
        for act in ("tanh", "relu", "sigmoid"):
            add(f"net/{act}-{loss}", net(0, "output", widths=(1, 2, C), act=act, N=2, loss=loss))
        add(f"net/act-input-{loss}", net(1, "input", widths=(1, 2, C), loss=loss))
        add(f"net/act-output-{loss}", net(1, "output", widths=(1, 2, C), loss=loss, N=2))
        add(f"net/last-output-{loss}", net(2, "output", widths=(1, 1, C), loss=loss, N=2, modes=DEFAULT_MODES))
        add(f"net/changed-{loss}", net(1, "output", widths=(1, 2, C), loss=loss, N=2, change=True))
        add(f"net/sum-{loss}", net(2, "input", widths=(1, 2, C), loss=loss, N=2, reduction="sum"))
    add("net/deep", net(0, "output", widths=(1, 1, 1, 1), N=1))
    add("net/deep-mid", net(2, "output", widths=(1, 1, 2, 1), N=2))
    add("net/changed-first", net(0, "output", widths=(1, 1, 1), N=1, change=True))
    add("rejected", rejected)
    return out
