"""Problems (model, loss, data, parameters) and their mathematical specification.

The specification side is written against symbolic variables only: the rows'
network values, Jacobians and second derivatives, and the per-row losses.  It never
calls the repository.
"""
import itertools
from collections import UserDict
from fractions import Fraction

import numpy as np
import torch
from torch import nn

from symtorch import expr as E

Z, ONE = E.ZERO, E.ONE


def numel(s):
    n = 1
    for x in s:
        n *= x
    return n


def dots(a, b):
    return E.esum([E.mul(x, y) for x, y in zip(a, b)])


def matvec(A, v):
    return np.array([dots(A[i], v) for i in range(len(A))] + [None], dtype=object)[:-1]


def matmul(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = dots(A[i], B[:, j])
    return out


def kron(A, B):
    n, m = A.shape
    p, q = B.shape
    out = np.empty((n * p, m * q), dtype=object)
    for i, j, k, l in itertools.product(range(n), range(m), range(p), range(q)):
        out[i * p + k, j * q + l] = E.mul(A[i, j], B[k, l])
    return out


def zeros(*shape):
    a = np.empty(shape, dtype=object)
    a[...] = Z
    return a


def eye(n):
    a = zeros(n, n)
    for i in range(n):
        a[i, i] = ONE
    return a


def scale(A, c):
    return np.frompyfunc(lambda e: E.mul(e, E.lift(c)), 1, 1)(np.asarray(A, dtype=object))


def add(A, B):
    return np.frompyfunc(E.add, 2, 1)(np.asarray(A, dtype=object), np.asarray(B, dtype=object))


def frac(a, b=1):
    return E.const(Fraction(a, b))


# --- losses ------------------------------------------------------------------------
def loss_mse(f, y):
    return E.esum([E.power(E.sub(a, b), 2) for a, b in zip(f, y)])


def loss_ce(f, y):
    lse = E.log(E.esum([E.exp(a) for a in f]))
    t = f[-1]
    for c in range(len(f) - 1):
        t = E.ite(E.eq(y[0], frac(c)), f[c], t)
    return E.sub(lse, t)


def loss_bce(f, y):
    return E.esum([E.sub(E.softplus(a), E.mul(b, a)) for a, b in zip(f, y)])


class JetLoss(nn.Module):
    """Arbitrary smooth per-row loss: value, gradient and Hessian come with the target."""

    def __init__(self, C, reduction):
        super().__init__()
        self.C, self.reduction = C, reduction

    def forward(self, f, y):
        C = self.C
        l0, g, S = y[..., 0], y[..., 1 : 1 + C], y[..., 1 + C :].reshape(*y.shape[:-1], C, C)
        d = f - f.detach()
        v = l0 + (g * d).sum(-1) + 0.5 * torch.einsum("...i,...ij,...j->...", d, S, d)
        return v.mean() if self.reduction == "mean" else v.sum()


class LossSpec:
    """Per-row loss with derivatives as expressions."""

    def __init__(self, kind, C, reduction):
        self.kind, self.C, self.reduction = kind, C, reduction

    def module(self):
        return {
            "mse": lambda: nn.MSELoss(reduction=self.reduction),
            "ce": lambda: nn.CrossEntropyLoss(reduction=self.reduction),
            "bce": lambda: nn.BCEWithLogitsLoss(reduction=self.reduction),
            "jet": lambda: JetLoss(self.C, self.reduction),
        }[self.kind]()

    def fn(self, f, y):
        return {"mse": loss_mse, "ce": loss_ce, "bce": loss_bce}[self.kind](f, y)

    def derivs(self, f, y):
        """(value, gradient[C], Hessian[C][C]) at prediction f (Exprs) and target row y."""
        C = self.C
        if self.kind == "jet":
            S = np.array(list(y[1 + C :]) + [None], dtype=object)[:-1].reshape(C, C)
            Sy = np.empty((C, C), dtype=object)
            for i in range(C):
                for j in range(C):
                    Sy[i, j] = E.scale(E.add(S[i, j], S[j, i]), Fraction(1, 2))
            return y[0], list(y[1 : 1 + C]), Sy
        vs = [E.var(f"specf_{c}") for c in range(C)]
        val = self.fn(vs, y)
        m = dict(zip(vs, f))
        g = [E.diff(val, v) for v in vs]
        H = np.empty((C, C), dtype=object)
        for i in range(C):
            for j in range(C):
                H[i, j] = E.subst(E.diff(g[i], vs[j]), m)
        return E.subst(val, m), [E.subst(x, m) for x in g], H

    def row_weight(self, N, extra):
        """Weight of one row in the empirical risk over N data with `extra` rows each."""
        if self.reduction == "sum":
            return ONE
        n = numel(extra) * (1 if self.kind in ("ce", "jet") else self.C)
        return E.div(ONE, E.mul(E.lift(N), frac(n)))

    def target_shape(self):
        return {"mse": (self.C,), "bce": (self.C,), "ce": (), "jet": (1 + self.C + self.C**2,)}[self.kind]


# --- models ------------------------------------------------------------------------
class JetModel(nn.Module):
    """Every smooth model, to second order at the current parameters: each datum brings
    the value, Jacobian and second derivative of its output."""

    def __init__(self, params, C, ce_layout, order=2, key=None):
        super().__init__()
        self.ps = nn.ParameterList(params)
        self.C, self.ce_layout, self.order, self.key = C, ce_layout, order, key

    def forward(self, X):
        if self.key is not None:
            X = X[self.key]
        C = self.C
        th = torch.cat([p.reshape(-1) for p in self.ps])
        D = th.numel()
        d = th - th.detach()
        lead = X.shape[:-1]
        a = X[..., :C]
        J = X[..., C : C + C * D].reshape(*lead, C, D)
        out = a + J @ d
        if self.order > 1:
            H = X[..., C + C * D :].reshape(*lead, C, D, D)
            out = out + 0.5 * torch.einsum("...ij,i,j->...", H, d, d)
        if self.ce_layout and out.ndim > 2:
            out = out.movedim(-1, 1)
        return out


class Row:
    __slots__ = ("b", "n", "f", "J", "H", "y")

    def __init__(self, b, n, f, J, H, y):
        self.b, self.n, self.f, self.J, self.H, self.y = b, n, f, J, H, y


class BatchDict(UserDict):
    pass


class Problem:
    """model, loss, params (in operator order), data and specification rows."""

    def __init__(self, env, *, C=2, shapes=((2,), (1,)), batches=(2, 1), loss="mse",
                 reduction="mean", order=2, extra=(), num_data=None, dict_input=None,
                 perm=None, frozen=(), model="jet", dtype=None, target="default", prefix="", flat=False):
        # flat: the model returns (batch * rows, C) and the targets have batch * rows entries
        self.flat = flat
        self.env, self.C, self.batches, self.extra = env, C, list(batches), tuple(extra)
        self.lossspec = LossSpec(loss, C, reduction)
        self.loss = self.lossspec.module()
        self.order = order
        self.prefix = prefix
        self.dict_input = dict_input
        dt = dtype or torch.float64
        all_params = []
        self.build_model(env, model, shapes, dt, frozen, dict_input)
        all_params = self.all_params
        offs = np.cumsum([0] + [p.numel() for p in all_params])
        idx = [i for i in range(len(all_params)) if i not in frozen]
        if perm is not None:
            idx = list(perm)
        self.params = [all_params[i] for i in idx]
        self.pidx = [list(range(offs[i], offs[i + 1])) for i in idx]
        self.coords = [j for l in self.pidx for j in l]
        self.D = len(self.coords)
        self.Dall = int(offs[-1])
        self.pshapes = [tuple(p.shape) for p in self.params]
        # data
        self.data = []
        self.rows = []
        for b, n in enumerate(self.batches):
            X, rowspecs = self.build_input(env, b, n, dt)
            y, ys = self.build_target(env, b, n, dt, target)
            self.data.append((X, y))
            for (nn_, f, J, H), yr in zip(rowspecs, ys):
                self.rows.append(Row(b, nn_, f, J, H, yr))
        self.N_true = sum(self.batches)
        self.num_data = None
        self.N = E.const(self.N_true)
        if num_data == "symbolic":
            self.num_data = env.scalar(prefix + "Ndata", "nat1")
            self.N = env.sp(prefix + "Ndata")[()]
        elif num_data is not None:
            self.num_data = num_data
            self.N = E.const(num_data)

    # --- construction ---
    def build_model(self, env, model, shapes, dt, frozen, dict_input):
        pf = self.prefix
        key = "x" if dict_input else None
        if model == "jet":
            self.all_params = [env.param(f"{pf}p{i}", s, dtype=dt) for i, s in enumerate(shapes)]
            for i in frozen:
                self.all_params[i].requires_grad_(False)
            self.model = JetModel(self.all_params, self.C, self.lossspec.kind == "ce" and not self.flat, self.order, key)
            self.kind = "jet"
            self.Dj = sum(numel(s) for s in shapes)
        else:
            self.kind = "net"
            self.net = model(env, pf, dt)
            self.model = self.net.module if key is None else KeyModel(self.net.module, key)
            if self.lossspec.kind == "ce" and self.extra and not self.flat:
                self.model = nn.Sequential(self.model, MoveDim())
            self.all_params = [p for p in self.net.params]
            for i in frozen:
                self.all_params[i].requires_grad_(False)
        if self.flat:
            self.model = FlatRows(self.model)

    def build_input(self, env, b, n, dt):
        pf = self.prefix
        C, e = self.C, self.extra
        rows = []
        if self.kind == "jet":
            D = self.Dj
            R = C + C * D + (C * D * D if self.order > 1 else 0)
            X = env.tensor(f"{pf}X{b}", (n, *e, R), dtype=dt)
            S = env.sp(f"{pf}X{b}")
            for i in np.ndindex(n, *e):
                r = S[i]
                f = list(r[:C])
                J = r[C : C + C * D].reshape(C, D)
                if self.order > 1:
                    H0 = r[C + C * D :].reshape(C, D, D)
                    H = np.empty((C, D, D), dtype=object)
                    for c, k, l in np.ndindex(C, D, D):
                        H[c, k, l] = E.scale(E.add(H0[c, k, l], H0[c, l, k]), Fraction(1, 2))
                else:
                    H = None
                rows.append((i[0], f, J, H))
        else:
            X = env.tensor(f"{pf}X{b}", (n, *e, *self.net.in_shape), dtype=dt)
            S = env.sp(f"{pf}X{b}")
            for i in np.ndindex(n, *e):
                f = self.net.spec(S[i])
                th = self.net.theta()
                J = np.empty((len(f), len(th)), dtype=object)
                for c in range(len(f)):
                    memo = None
                    for k, t in enumerate(th):
                        J[c, k] = E.diff(f[c], t)
                H = None
                if self.order > 1:
                    H = np.empty((len(f), len(th), len(th)), dtype=object)
                    for c in range(len(f)):
                        for k in range(len(th)):
                            for l in range(k, len(th)):
                                H[c, k, l] = H[c, l, k] = E.diff(J[c, k], th[l])
                rows.append((i[0], f, J, H))
        if self.dict_input:
            X = (dict if self.dict_input == "dict" else BatchDict)({"x": X})
        return X, rows

    def build_target(self, env, b, n, dt, target):
        pf = self.prefix
        k = self.lossspec.kind
        e = self.extra
        if self.flat:
            n, e = n * numel(e), ()
        ts = self.lossspec.target_shape()
        if k == "ce":
            y = env.tensor(f"{pf}y{b}", (n, *e), ("class", self.C), torch.int64)
        elif target == "const":
            a = (np.arange(n * numel(e) * numel(ts)) + b) % 2
            a = a.reshape((n, *e, *ts))
            y = env.const(a.tolist(), dt)
            ys = []
            for i in np.ndindex(n, *e):
                ys.append([E.const(int(v)) for v in a[i].reshape(-1)])
            return y, ys
        else:
            kind = "bit" if target == "bit" else ("unit" if k == "bce" else "real")
            y = env.tensor(f"{pf}y{b}", (n, *e, *ts), kind, dt)
        S = env.sp(f"{pf}y{b}")
        ys = []
        for i in np.ndindex(n, *e):
            v = S[i]
            ys.append([v] if isinstance(v, E.Expr) else list(v))
        return y, ys

    @property
    def batch_size_fn(self):
        return (lambda X: X["x"].shape[0]) if self.dict_input else None

    def kwargs(self, **kw):
        out = dict(check_deterministic=False)
        if self.num_data is not None:
            out["num_data"] = self.num_data
        if self.dict_input:
            out["batch_size_fn"] = self.batch_size_fn
        out.update(kw)
        return out

    # --- specification ---
    def w(self):
        return self.lossspec.row_weight(self.N, self.extra)

    def Jr(self, r):
        return r.J[:, self.coords]

    def hessian(self, blocks=None):
        D, w = self.D, self.w()
        acc = [[[] for _ in range(D)] for _ in range(D)]
        blk = self.block_of(blocks)
        for r in self.rows:
            _, g, S = self.lossspec.derivs(r.f, r.y)
            J = self.Jr(r)
            for i in range(D):
                for j in range(D):
                    if blk[i] != blk[j]:
                        continue
                    for c in range(self.C):
                        for d in range(self.C):
                            acc[i][j].append(E.mul(E.mul(J[c, i], S[c, d]), J[d, j]))
                        if r.H is not None:
                            acc[i][j].append(E.mul(g[c], r.H[c, self.coords[i], self.coords[j]]))
        return self._mat(acc, w)

    def ggn(self):
        D, w = self.D, self.w()
        acc = [[[] for _ in range(D)] for _ in range(D)]
        for r in self.rows:
            _, g, S = self.lossspec.derivs(r.f, r.y)
            J = self.Jr(r)
            for i in range(D):
                for j in range(D):
                    for c in range(self.C):
                        for d in range(self.C):
                            acc[i][j].append(E.mul(E.mul(J[c, i], S[c, d]), J[d, j]))
        return self._mat(acc, w)

    def gram(self, vecs, w):
        """w · Σ (Jᵀ s)(Jᵀ s)ᵀ over (row, s) pairs."""
        D = self.D
        acc = [[[] for _ in range(D)] for _ in range(D)]
        for r, s in vecs:
            J = self.Jr(r)
            g = [dots(J[:, i], s) for i in range(D)]
            for i in range(D):
                for j in range(D):
                    acc[i][j].append(E.mul(g[i], g[j]))
        return self._mat(acc, w)

    def ef(self):
        return self.gram([(r, self.lossspec.derivs(r.f, r.y)[1]) for r in self.rows], self.w())

    def grad_loss(self):
        w = self.w()
        ls, gs = [], [[] for _ in range(self.D)]
        for r in self.rows:
            v, g, _ = self.lossspec.derivs(r.f, r.y)
            ls.append(v)
            J = self.Jr(r)
            for i in range(self.D):
                gs[i].append(dots(J[:, i], g))
        return [E.mul(w, E.esum(x)) for x in gs], E.mul(w, E.esum(ls))

    def jacobian(self):
        """Rows ordered (datum, *extra, c) — for class-first layouts (datum, c, *extra)."""
        C, e = self.C, self.extra
        m = numel(e)
        out = []
        for b in range(0, len(self.rows), m):
            rs = self.rows[b : b + m]
            if self.lossspec.kind == "ce" and e:
                out += [self.Jr(r)[c] for c in range(C) for r in rs]
            else:
                out += [self.Jr(r)[c] for r in rs for c in range(C)]
        A = np.empty((len(out), self.D), dtype=object)
        for i, x in enumerate(out):
            A[i] = x
        return A

    def block_of(self, blocks):
        if blocks is None:
            return [0] * self.D
        b, left = [], []
        for k, n in enumerate(blocks):
            left += [k] * n
        for k, l in zip(left, self.pidx):
            b += [k] * len(l)
        return b

    def _mat(self, acc, w):
        D = len(acc)
        A = np.empty((D, D), dtype=object)
        for i in range(D):
            for j in range(D):
                A[i, j] = E.mul(w, E.esum(acc[i][j]))
        return A

    # --- probing vectors ---
    def split(self, v, shapes=None):
        """Flat spec vector/matrix [D(, K)] -> list in tensor-list format."""
        shapes = self.pshapes if shapes is None else shapes
        v = np.asarray(v, dtype=object)
        out, o = [], 0
        for s in shapes:
            n = numel(s)
            out.append(v[o : o + n].reshape((*s, *v.shape[1:])))
            o += n
        return out


class KeyModel(nn.Module):
    def __init__(self, m, key):
        super().__init__()
        self.m, self.key = m, key

    def forward(self, X):
        return self.m(X[self.key])


class FlatRows(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, x):
        f = self.m(x)
        return f.reshape(-1, f.shape[-1])


class MoveDim(nn.Module):
    def forward(self, x):
        return x.movedim(-1, 1)


# --- concrete networks ----------------------------------------------------------------
def make(cls, *args, **kw):
    """Layer without the random initialisation of its parameters."""
    old = cls.reset_parameters
    cls.reset_parameters = lambda self: None
    try:
        return cls(*args, **kw)
    finally:
        cls.reset_parameters = old


def set_param(mod, name, p):
    mod._parameters[name] = p


class LinearNet:
    """nn.Sequential of Linear layers and activations with its formula."""

    def __init__(self, env, pf, dt, widths=(2, 2, 2), act="tanh", bias=(True, True)):
        self.widths, self.act = widths, act
        self.in_shape = (widths[0],)
        mods, self.params, self.names = [], [], []
        for l, (i, o) in enumerate(zip(widths, widths[1:])):
            m = make(nn.Linear, i, o, bias=bias[l])
            W = env.param(f"{pf}W{l}", (o, i), dtype=dt)
            set_param(m, "weight", W)
            self.params.append(W)
            self.names.append(f"{pf}W{l}")
            if bias[l]:
                b = env.param(f"{pf}b{l}", (o,), dtype=dt)
                set_param(m, "bias", b)
                self.params.append(b)
                self.names.append(f"{pf}b{l}")
            mods.append(m)
            if l < len(widths) - 2:
                mods.append({"tanh": nn.Tanh, "sigmoid": nn.Sigmoid, "relu": nn.ReLU, "id": nn.Identity}[act]())
        self.bias = bias
        self.env, self.pf = env, pf
        self.module = nn.Sequential(*mods)

    def theta(self):
        return [x for n in self.names for x in self.env.sp(n).reshape(-1)]

    def spec(self, x):
        h = list(x)
        for l in range(len(self.widths) - 1):
            W = self.env.sp(f"{self.pf}W{l}")
            h2 = [dots(W[o], h) for o in range(W.shape[0])]
            if self.bias[l]:
                b = self.env.sp(f"{self.pf}b{l}")
                h2 = [E.add(u, v) for u, v in zip(h2, b)]
            if l < len(self.widths) - 2:
                f = {
                    "tanh": E.tanh,
                    "sigmoid": E.sigmoid,
                    "relu": lambda u: E.ite(E.gt(u, Z), u, Z),
                    "id": lambda u: u,
                }[self.act]
                h2 = [f(u) for u in h2]
            h = h2
        return h


def linear_net(**kw):
    return lambda env, pf, dt: LinearNet(env, pf, dt, **kw)


# --- multiplying --------------------------------------------------------------------
def probe(env, name, shapes, K, fmt, dtype=torch.float64):
    """Symbolic input in tensor/list × vector/matrix format and its flat spec [D(,K)]."""
    n = sum(numel(s) for s in shapes)
    tail = () if K is None else (K,)
    if fmt == "tensor":
        x = env.tensor(name, (n, *tail), dtype=dtype)
        return x, env.sp(name)
    xs, sp = [], []
    for i, s in enumerate(shapes):
        xs.append(env.tensor(f"{name}{i}", (*s, *tail), dtype=dtype))
        sp.append(env.sp(f"{name}{i}").reshape((numel(s), *tail)))
    return xs, np.concatenate(sp)


def apply_spec(A, v):
    v = np.asarray(v, dtype=object)
    return matvec(A, v) if v.ndim == 1 else matmul(A, v)


def claim_product(env, name, result, A, v, out_shapes, fmt, dtype=torch.float64):
    """The result of op @ v equals A v in the documented format."""
    exp = apply_spec(A, v)
    if fmt == "tensor":
        env.true(name + "/type", isinstance(result, torch.Tensor) and result.dtype == dtype)
        env.eq(name, result, exp)
    else:
        env.true(
            name + "/type",
            isinstance(result, list)
            and len(result) == len(out_shapes)
            and all(isinstance(r, torch.Tensor) and r.dtype == dtype for r in result),
        )
        o = 0
        for i, s in enumerate(out_shapes):
            n = numel(s)
            env.eq(f"{name}[{i}]", result[i], exp[o : o + n].reshape((*s, *exp.shape[1:])))
            o += n


DEFAULT_MODES = ((None, "tensor"), (2, "list"))


def check_matrix(env, op, A, in_shapes, out_shapes=None, modes=DEFAULT_MODES, tag="", dtype=torch.float64):
    """op @ v == A v for symbolic v in the given (columns, format) modes."""
    out_shapes = in_shapes if out_shapes is None else out_shapes
    env.true(tag + "shape", tuple(op.shape) == np.shape(A))
    for K, fmt in modes:
        nm = f"{tag}v{fmt[0]}{'' if K is None else K}"
        x, sp = probe(env, nm, in_shapes, K, fmt, dtype)
        claim_product(env, f"{tag}op@{fmt}{'' if K is None else K}", op @ x, A, sp, out_shapes, fmt, dtype)


class Reiter:
    """Re-iterable data source that is neither a list nor a DataLoader."""

    def __init__(self, data):
        self.data = data

    def __iter__(self):
        return iter([d for d in self.data])


ALL_MODES = ((None, "tensor"), (1, "tensor"), (2, "tensor"), (3, "tensor"), (None, "list"), (1, "list"), (3, "list"))


def curvature(make, matrix, modes=DEFAULT_MODES, op_kw=None, blocks=None, twice=False, data=None, params_as=None,
              func=False, **pk):
    """Scenario: operator made by make(P, params, data, kw) has matrix matrix(P, blocks)."""

    def sc(env):
        P = Problem(env, **pk)
        kw = P.kwargs(**(op_kw or {}))
        if blocks is not None:
            kw["block_sizes"] = list(blocks)
        d = data(P.data) if data else P.data
        params = P.params if params_as is None else params_as(P.params)
        if func:
            mod = P.model
            P.model = lambda X: mod(X)
        op = make(P, params, d, kw)
        A = matrix(P, blocks) if blocks is not None else matrix(P)
        dt = pk.get("dtype") or torch.float64
        check_matrix(env, op, A, P.pshapes, modes=modes, dtype=dt)
        if twice:
            # products do not influence each other
            x, sx = probe(env, "first", P.pshapes, 2, "tensor", dt)
            y, sy = probe(env, "second", P.pshapes, None, "list", dt)
            r1 = op @ x
            r2 = op @ y
            r3 = op @ x
            claim_product(env, "after/1", r1, A, sx, P.pshapes, "tensor", dt)
            claim_product(env, "after/2", r2, A, sy, P.pshapes, "list", dt)
            claim_product(env, "after/3", r3, A, sx, P.pshapes, "tensor", dt)
            claim_product(env, "adjoint", op.adjoint() @ x, A, sx, P.pshapes, "tensor", dt)

    return sc


def curvature_variants(make, matrix, losses=("mse", "ce", "bce", "jet"), order=2, extra=True, dims=True):
    """The configurations every parameter-space curvature operator is decided on."""
    out = []

    def add(name, **kw):
        kw.setdefault("order", order)
        out.append((name, curvature(make, matrix, **kw)))

    for loss in losses:
        for red in ("mean", "sum"):
            add(f"jet/{loss}-{red}", loss=loss, reduction=red)
            add(f"jet/{loss}-{red}-N", loss=loss, reduction=red, num_data="symbolic", batches=(1, 2))
            if extra:
                add(f"jet/{loss}-{red}-rows2", loss=loss, reduction=red, extra=(2,), batches=(2, 1),
                    modes=((None, "tensor"),), shapes=((2,),))
        if dims:
            add(f"jet/{loss}-C3", loss=loss, C=3, shapes=((2,),), batches=(1, 1), modes=((None, "tensor"),))
            if loss != "ce":
                add(f"jet/{loss}-C1", loss=loss, C=1)
    if extra:
        for loss in losses:
            add(f"jet/{loss}-rows1x2", loss=loss, extra=(1, 2), batches=(1, 1), shapes=((2,),), modes=((None, "tensor"),))
    add("jet/batches1", batches=(1,))
    add("jet/batches3", batches=(3,))
    add("jet/batches121", batches=(1, 2, 1), twice=True)
    add("jet/batches11111", batches=(1,) * 5, shapes=((2,),))
    add("jet/batches24", batches=(2, 4), shapes=((2,),), loss=losses[-1])
    add("jet/batches31", batches=(3, 1), loss="ce", shapes=((2,),), reduction="mean")
    add("jet/allmodes", modes=ALL_MODES, twice=True)
    add("jet/scalar-param", shapes=((), (2,)), modes=ALL_MODES)
    add("jet/matrix-params", shapes=((2, 2), (1, 1, 1)), batches=(1, 1), modes=ALL_MODES, order=order)
    add("jet/many-params", shapes=((1,), (1,), (2,), (1,)), batches=(2,))
    add("jet/one-param", shapes=((3,),), batches=(2, 1), modes=ALL_MODES)
    add("jet/reordered", shapes=((1,), (2,), (1, 2)), perm=(2, 0, 1), batches=(1, 1), modes=ALL_MODES[:5])
    add("jet/partial", shapes=((1,), (2,), (1, 2)), perm=(1,), batches=(2, 1))
    add("jet/partial2", shapes=((1,), (2,), (1, 2)), perm=(2, 1), batches=(2, 1), loss="ce")
    add("jet/frozen", shapes=((1,), (2,), (1, 2)), frozen=(0,), batches=(2, 1))
    add("jet/dict", dict_input="dict", batches=(2, 1))
    add("jet/userdict", dict_input="userdict", batches=(1, 2), loss="ce")
    add("jet/dict-N", dict_input="dict", batches=(2, 1), num_data=7)
    add("jet/progressbar", op_kw=dict(progressbar=True), batches=(2, 1))
    add("jet/checked", op_kw=dict(check_deterministic=True), batches=(2, 1), shapes=((2,),))
    add("jet/checked-ce", op_kw=dict(check_deterministic=True), batches=(1, 2), loss="ce", shapes=((2,),))
    add("jet/reiter", data=Reiter, batches=(2, 1))
    add("jet/tuple-data", data=tuple, batches=(2, 1))
    add("jet/function", func=True, batches=(2, 1))
    add("jet/float32", dtype=torch.float32, batches=(2, 1), loss="mse", modes=ALL_MODES)
    add("jet/float32-ce", dtype=torch.float32, batches=(2, 1), loss="ce")
    if extra:
        for loss in losses:
            add(f"jet/flat-{loss}", loss=loss, extra=(2,), flat=True, batches=(2, 1), shapes=((2,),), modes=((None, "tensor"),),
                **({"num_data": "symbolic"} if loss == "mse" else {}))
        add("jet/flat-sum", loss="ce", reduction="sum", extra=(2,), flat=True, batches=(2, 1), shapes=((2,),), modes=((None, "tensor"),))
        add("net/flat", loss="ce", model=linear_net(widths=(2, 2), bias=(False,)), batches=(1, 2), extra=(2,), flat=True, modes=((None, "tensor"),))
    add("jet/num-data-5", num_data=5, batches=(2, 1))
    return out


def net_variants(make, matrix, losses=("mse", "ce", "bce"), tier="quick"):
    out = []

    def add(name, **kw):
        out.append((name, curvature(make, matrix, **kw)))

    for loss in losses:
        for act in ("tanh", "relu", "sigmoid"):
            add(f"net/{act}-{loss}", loss=loss, model=linear_net(act=act), batches=(1, 1), modes=((None, "tensor"),))
        add(f"net/linear-{loss}", loss=loss, model=linear_net(widths=(2, 2), bias=(True,)), batches=(2, 1))
    add("net/deep", loss="mse", C=1, model=linear_net(widths=(1, 1, 1, 1), bias=(True, False, True)), batches=(1, 1))
    add("net/seq", loss="mse", model=linear_net(widths=(2, 2), bias=(False,)), batches=(2, 1), extra=(2,))
    add("net/seq-ce", loss="ce", model=linear_net(widths=(2, 2), bias=(True,)), batches=(1, 1), extra=(2,), modes=((None, "tensor"),))
    return out


CURV_BOUNDS = {
    "data": "1-6 data in 1-5 mini-batches, including uneven ones; 1-2 rows per datum; total data number given, inferred or symbolic",
    "outputs": "1-3 outputs per row",
    "parameters": "1-4 parameter tensors, at most 9 entries, ranks 0-3; all, reordered, partial or frozen",
    "columns": "vectors and matrices with 1-3 columns, single tensor or tensor list",
    "models": "every model that is twice differentiable at the current parameters (2-jets carried by the data); "
    "fully-connected nets with tanh/sigmoid/ReLU/linear layers",
    "values": "all real values of inputs, targets (class labels, [0,1] or real), parameters and probing vectors",
    "arithmetic": "real arithmetic (rounding outside); narrowing casts are uninterpreted functions",
}
CURV_ASSUMPTIONS = [
    "floating-point arithmetic is modelled by exact real arithmetic",
    "ATen operators mean what the table in symtorch/ops.py says (validated on every path against the real run)",
    "tensors live on the CPU",
]
