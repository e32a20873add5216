"""Layered networks with their formulas, and the documented Kronecker factors.

Everything here is stated over symbolic variables: a network is a list of layers acting
on one datum; the factors follow from the layers' inputs, the derivative of the network's
output w.r.t. a layer's output, and the loss.  The repository is never called.
"""
import itertools
from fractions import Fraction

import numpy as np
import torch
from torch import nn

from symtorch import expr as E

from .lib import LossSpec, Z, dots, eye, frac, kron, make, numel, scale, set_param, zeros

ONE = E.ONE


def obj(a):
    return np.asarray(a, dtype=object)


def emap(f, a):
    out = np.empty(np.shape(a), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(a[i])
    return out


def pair(x):
    return (x, x) if isinstance(x, (int, str)) else tuple(x)


class Mean(nn.Module):
    """Average over all but the batch and the last axis."""

    def forward(self, x):
        return x.reshape(x.shape[0], -1, x.shape[-1]).mean(1)


class ChannelsLast(nn.Module):
    def forward(self, x):
        return x.movedim(1, -1)


class ClassFirst(nn.Module):
    def forward(self, x):
        return x.movedim(-1, 1)


class Lin:
    kind = "linear"

    def __init__(self, i, o, bias=True):
        self.i, self.o, self.has_bias = i, o, bias

    def build(self):
        return make(nn.Linear, self.i, self.o, bias=self.has_bias)

    def wshape(self):
        return (self.o, self.i)

    def apply(self, x, W, b):
        out = np.empty(x.shape[:-1] + (self.o,), dtype=object)
        for ix in np.ndindex(*x.shape[:-1]):
            for o in range(self.o):
                v = dots(W[o], x[ix])
                out[ix + (o,)] = v if b is None else E.add(v, b[o])
        return out

    def inputs(self, x):
        """[positions, d_in]"""
        return x.reshape(-1, x.shape[-1])

    def outputs(self, z):
        """[positions, d_out]"""
        return z.reshape(-1, z.shape[-1])


class Conv:
    kind = "conv"

    def __init__(self, i, o, k, stride=1, padding=0, dilation=1, groups=1, bias=True):
        self.i, self.o, self.k, self.s, self.d, self.g = i, o, pair(k), pair(stride), pair(dilation), groups
        self.stride, self.dil = stride, dilation
        self.padding, self.has_bias = padding, bias

    def build(self):
        return make(nn.Conv2d, self.i, self.o, self.k, stride=self.stride, padding=self.padding, dilation=self.dil,
                    groups=self.g, bias=self.has_bias)

    def wshape(self):
        return (self.o, self.i // self.g, *self.k)

    def pads(self):
        """Zeros before each spatial axis and the total number of zeros."""
        if self.padding == "valid":
            return (0, 0), (0, 0)
        if self.padding == "same":
            tot = tuple(d * (k - 1) for d, k in zip(self.d, self.k))
            return tuple(t // 2 for t in tot), tot
        p = pair(self.padding)
        return p, tuple(2 * q for q in p)

    def out_size(self, hw):
        left, tot = self.pads()
        return tuple((n + t - d * (k - 1) - 1) // s + 1 for n, t, d, k, s in zip(hw, tot, self.d, self.k, self.s))

    def patches(self, x):
        """[o1, o2, C_in, k1, k2] entries of the padded image."""
        c, H, Wd = x.shape
        left, _ = self.pads()
        O = self.out_size((H, Wd))
        out = np.empty((*O, c, *self.k), dtype=object)
        for o1, o2, ch, a, b in np.ndindex(*out.shape):
            i = o1 * self.s[0] + a * self.d[0] - left[0]
            j = o2 * self.s[1] + b * self.d[1] - left[1]
            out[o1, o2, ch, a, b] = x[ch, i, j] if 0 <= i < H and 0 <= j < Wd else Z
        return out

    def apply(self, x, W, b):
        P = self.patches(x)
        out = np.empty((self.o, *P.shape[:2]), dtype=object)
        cg, og = self.i // self.g, self.o // self.g
        for o, o1, o2 in np.ndindex(*out.shape):
            g = o // og
            v = dots(P[o1, o2, g * cg : (g + 1) * cg].reshape(-1), W[o].reshape(-1))
            out[o, o1, o2] = v if b is None else E.add(v, b[o])
        return out

    def inputs(self, x):
        """Patches averaged over the channel groups."""
        P = self.patches(x)
        o1, o2 = P.shape[:2]
        cg = self.i // self.g
        P = P.reshape(o1 * o2, self.g, cg * self.k[0] * self.k[1])
        out = np.empty((P.shape[0], P.shape[2]), dtype=object)
        for p, q in np.ndindex(*out.shape):
            out[p, q] = E.scale(E.esum(list(P[p, :, q])), Fraction(1, self.g))
        return out

    def outputs(self, z):
        return np.moveaxis(z, 0, -1).reshape(-1, z.shape[0])


ELEMENTWISE = {
    "tanh": (nn.Tanh, E.tanh),
    "sigmoid": (nn.Sigmoid, E.sigmoid),
    "relu": (nn.ReLU, lambda u: E.ite(E.gt(u, Z), u, Z)),
    "relu_": (lambda: nn.ReLU(inplace=True), lambda u: E.ite(E.gt(u, Z), u, Z)),
    "id": (nn.Identity, lambda u: u),
}


class KNet:
    """Layers: Lin, Conv, an activation, 'flatten', 'mean' (over positions), 'last' (channels
    last), ('seq', [...]) for a nested nn.Sequential."""

    def __init__(self, env, layers, in_shape, pf="", dtype=torch.float64):
        self.env, self.in_shape, self.pf = env, tuple(in_shape), pf
        self.flat = []  # [(layer, name)] in forward order
        self.names = {}
        self.params = {}  # (module name, 'weight'/'bias') -> Parameter
        self.module = self._build(env, layers, "", dtype)

    def _build(self, env, layers, prefix, dtype):
        mods = []
        for k, L in enumerate(layers):
            name = f"{prefix}{k}"
            if isinstance(L, tuple) and L[0] == "seq":
                mods.append(self._build(env, L[1], name + ".", dtype))
                continue
            if isinstance(L, str):
                mod = {"flatten": nn.Flatten, "mean": Mean, "last": ChannelsLast, "first": ClassFirst}.get(L)
                mods.append(mod() if mod else ELEMENTWISE[L][0]())
                self.flat.append((L, name))
                continue
            m = L.build()
            tag = name.replace(".", "_")
            W = env.param(f"{self.pf}W{tag}", L.wshape(), dtype=dtype)
            set_param(m, "weight", W)
            self.params[name, "weight"] = W
            if L.has_bias:
                b = env.param(f"{self.pf}b{tag}", (L.o,), dtype=dtype)
                set_param(m, "bias", b)
                self.params[name, "bias"] = b
            self.flat.append((L, name))
            mods.append(m)
        return nn.Sequential(*mods)

    def weights(self, name, L):
        t = name.replace(".", "_")
        sp = self.env.sp
        return sp(f"{self.pf}W{t}"), (sp(f"{self.pf}b{t}") if L.has_bias else None)

    def step(self, idx, h):
        L, name = self.flat[idx]
        if isinstance(L, str):
            if L == "flatten":
                return h.reshape(-1)
            if L == "mean":
                r = h.reshape(-1, h.shape[-1])
                return obj([E.scale(E.esum(list(r[:, j])), Fraction(1, r.shape[0])) for j in range(r.shape[1])] + [None])[:-1]
            if L == "last":
                return np.moveaxis(h, 0, -1)
            if L == "first":
                return np.moveaxis(h, -1, 0)
            return emap(ELEMENTWISE[L][1], h)
        return L.apply(h, *self.weights(name, L))

    def forward(self, x):
        """(output, {index: (input, output)})"""
        h, rec = x, {}
        for k in range(len(self.flat)):
            h2 = self.step(k, h)
            rec[k] = (h, h2)
            h = h2
        return h, rec

    def jacobian(self, k, rec):
        """d output / d (output of layer k) at the datum: array output.shape + z.shape."""
        z0 = rec[k][1]
        zv = np.empty(z0.shape, dtype=object)
        for i in np.ndindex(*z0.shape):
            zv[i] = E.var("specz_" + "_".join(map(str, i)))
        h = zv
        for j in range(k + 1, len(self.flat)):
            h = self.step(j, h)
        m = dict(zip(zv.reshape(-1), z0.reshape(-1)))
        J = np.empty(h.shape + z0.shape, dtype=object)
        for o in np.ndindex(*h.shape):
            for i in np.ndindex(*z0.shape):
                J[o + i] = E.subst(E.diff(h[o], zv[i]), m)
        return J


class KProblem:
    """Network, loss, data and parameter selection with the documented KFAC matrix."""

    def __init__(self, env, layers, in_shape, *, batches=(2, 1), loss="mse", reduction="mean", target="default",
                 select=None, dict_input=False, dtype=None, frozen=(), num_data=None, pf="", data_pf=""):
        dt = dtype or torch.float64
        self.env = env
        self.net = KNet(env, layers, in_shape, pf=pf, dtype=dt)
        self.loss_kind, self.reduction = loss, reduction
        self.batches = list(batches)
        self.data, self.samples = [], []
        self.model = self.net.module
        self.num_data = num_data
        keys = list(self.net.params)
        self.select = keys if select is None else [keys[i] for i in select]
        for i in frozen:
            self.net.params[keys[i]].requires_grad_(False)
        self.params = [self.net.params[k] for k in self.select]
        self.pshapes = [tuple(p.shape) for p in self.params]
        self.D = sum(numel(s) for s in self.pshapes)
        probe_x = np.empty(self.net.in_shape, dtype=object)
        probe_x[...] = Z
        fshape = self.net.forward(probe_x)[0].shape
        if loss == "ce":
            self.C, self.rows_shape = fshape[0], fshape[1:]
        else:
            self.C, self.rows_shape = fshape[-1], fshape[:-1]
        self.T = numel(self.rows_shape)
        self.spec = LossSpec(loss, self.C, reduction)
        self.loss = self.spec.module()
        for b, n in enumerate(self.batches):
            X = env.tensor(f"{data_pf}X{b}", (n, *self.net.in_shape), dtype=dt)
            if loss == "ce":
                y = env.tensor(f"{data_pf}y{b}", (n, *self.rows_shape), ("class", self.C), torch.int64)
                Y = env.sp(f"{data_pf}y{b}")
            elif target == "const":
                a = (np.arange(n * self.T * self.C) + b).reshape(n, *self.rows_shape, self.C) % 2
                y = env.const(a.tolist(), dt)
                Y = emap(lambda v: E.const(int(v)), a)
            else:
                y = env.tensor(f"{data_pf}y{b}", (n, *self.rows_shape, self.C), "bit" if loss == "bce" else "real", dt)
                Y = env.sp(f"{data_pf}y{b}")
            XS = env.sp(f"{data_pf}X{b}")
            self.data.append(({"x": X} if dict_input else X, y))
            for i in range(n):
                y_i = Y[i]
                if isinstance(y_i, E.Expr):
                    y_i = np.array([y_i, None], dtype=object)[:1].reshape(())
                self.samples.append((XS[i], y_i))
        if dict_input:
            self.model = Keyed(self.net.module)
        self.N = sum(self.batches) if num_data is None else num_data

    def kwargs(self, **kw):
        out = dict(check_deterministic=False)
        if self.num_data is not None:
            out["num_data"] = self.num_data
        if isinstance(self.data[0][0], dict):
            out["batch_size_fn"] = lambda X: X["x"].shape[0]
        out.update(kw)
        return out

    def op(self, **kw):
        from curvlinops import KFACLinearOperator

        return KFACLinearOperator(self.model, self.loss, self.params, self.data, **self.kwargs(**kw))

    def prefix(self, name):
        return name

    # --- factors ---
    def rows(self, f, y):
        """Per loss term: (index of its outputs, target)."""
        out = []
        for t in np.ndindex(*self.rows_shape):
            ix = [((c,) + t) if self.loss_kind == "ce" else (t + (c,)) for c in range(self.C)]
            yy = [y[t]] if self.loss_kind == "ce" else list(y[t])
            out.append((ix, yy))
        return out

    def _unit(self):
        """Scale of one loss term with outputs averaged as the loss does."""
        return Fraction(1, self.C) if self.reduction == "mean" and self.loss_kind != "ce" else Fraction(1)

    def layers(self):
        """[(module name, {'weight': position, 'bias': position})]"""
        out = {}
        for pos, (name, p) in enumerate(self.select):
            out.setdefault(name, {})[p] = pos
        order = [n for _, n in self.net.flat if n in out]
        return [(n, out[n]) for n in order]

    def index(self, name):
        return [k for k, (_, n) in enumerate(self.net.flat) if n == name][0]

    def input_factor(self, name, approx, joint):
        k = self.index(name)
        L = self.net.flat[k][0]
        acc, count = None, None
        vecs = []
        for x, _ in self.samples:
            _, rec = self.net.forward(x)
            a = L.inputs(rec[k][0])
            if approx == "reduce":
                a = obj([[E.scale(E.esum(list(a[:, j])), Fraction(1, a.shape[0])) for j in range(a.shape[1])]])
            count = a.shape[0]
            vecs += [list(r) + ([ONE] if joint else []) for r in a]
        d = len(vecs[0])
        A = np.empty((d, d), dtype=object)
        for i, j in np.ndindex(d, d):
            A[i, j] = E.scale(E.esum([E.mul(v[i], v[j]) for v in vecs]), Fraction(1, self.N * count))
        return A

    def gradient_factor(self, name, approx, fisher):
        k = self.index(name)
        L = self.net.flat[k][0]
        kappa = Fraction(1, self.N * self.T) if self.reduction == "mean" else Fraction(1)
        u = self._unit()
        pairs = []  # (weight, vector)
        d = L.o
        if fisher == "forward-only":
            return eye(d)
        G = zeros(d, d)
        for x, y in self.samples:
            f, rec = self.net.forward(x)
            J = self.net.jacobian(k, rec)
            zshape = rec[k][1].shape
            jac = {}  # output index -> [positions, d]
            for o in np.ndindex(*f.shape):
                r = L.outputs(J[o].reshape(zshape))
                if approx == "reduce":
                    r = obj([[E.esum(list(r[:, j])) for j in range(d)]])
                jac[o] = r
            P = next(iter(jac.values())).shape[0]
            rows = self.rows(f, y)
            if fisher in ("type-2", "mc"):
                # sum over loss terms of J' H J, for the matrix square root of MSE also
                # the cross terms between loss terms (its columns are shared)
                cross = fisher == "type-2" and self.T > 1
                if cross and self.loss_kind != "mse":
                    # no common square root of the terms' Hessians: only layers acting on each
                    # loss term separately are specified
                    cross = None
                for t, (ix, yy) in enumerate(rows):
                    _, _, H = self.spec_derivs(f, ix, yy)
                    for p in range(P):
                        for c, e in np.ndindex(self.C, self.C):
                            if H[c, e] is Z:
                                continue
                            a, b = jac[ix[c]][p], jac[ix[e]][p]
                            for i, j in np.ndindex(d, d):
                                G[i, j] = E.add(G[i, j], E.mul(E.mul(a[i], H[c, e]), b[j]))
                if cross:
                    h = E.const(2 * u)
                    for t, (ix, _) in enumerate(rows):
                        for s, (iy, _) in enumerate(rows):
                            if s == t:
                                continue
                            for p in range(P):
                                for c in range(self.C):
                                    a, b = jac[ix[c]][p], jac[iy[c]][p]
                                    for i, j in np.ndindex(d, d):
                                        G[i, j] = E.add(G[i, j], E.mul(E.mul(a[i], h), b[j]))
                if cross is None:
                    for p in range(P):
                        used = [t for t, (ix, _) in enumerate(rows) if any(jac[o][p][i] is not Z for o in ix for i in range(d))]
                        if len(used) > 1:
                            raise E.SymbolicError("not specified: type-2 factors of a layer mixing loss terms")
            elif fisher == "empirical":
                g = np.empty((P, d), dtype=object)
                g[...] = Z
                for ix, yy in rows:
                    _, gr, _ = self.spec_derivs(f, ix, yy)
                    # gradient of the loss term as the likelihood defines it: averaging over outputs
                    # by the loss only enters once in the product of two gradients
                    for c in range(self.C):
                        for p in range(P):
                            for i in range(d):
                                g[p, i] = E.add(g[p, i], E.mul(jac[ix[c]][p][i], gr[c]))
                for p in range(P):
                    for i, j in np.ndindex(d, d):
                        G[i, j] = E.add(G[i, j], E.scale(E.mul(g[p, i], g[p, j]), 1 / u))
            else:
                raise ValueError(fisher)
        return scale(G, kappa)

    def spec_derivs(self, f, ix, yy):
        """Value, gradient, Hessian of a loss term, averaged over outputs as the loss does."""
        v, g, H = self.spec.derivs([f[i] for i in ix], yy)
        u = self._unit()
        return v, [E.scale(x, u) for x in g], scale(H, u)

    def factors(self, approx="expand", fisher="type-2", separate=True):
        """{module name: (A or None, G)}"""
        out = {}
        for name, pos in self.layers():
            joint = not separate and "weight" in pos and "bias" in pos
            A = self.input_factor(name, approx, joint) if "weight" in pos else None
            out[name] = (A, self.gradient_factor(name, approx, fisher))
        return out

    def assemble(self, factors, separate=True):
        """The D x D matrix with the documented blocks, rows in parameter order."""
        return assemble(self.layers(), factors, self.pshapes, separate)


class Keyed(nn.Sequential):
    """Same submodules and names; the input is a dictionary."""

    def __init__(self, seq):
        super().__init__(*list(seq))

    def forward(self, X):
        return super().forward(X["x"])


def offsets(pshapes):
    o, out = 0, []
    for s in pshapes:
        out.append(o)
        o += numel(s)
    return out, o


def assemble(layers, factors, pshapes, separate, entry=None):
    """entry(module, i, j, k, l): entry of a block for outputs i, j and inputs k, l (None for
    a bias); default: that of the Kronecker product."""
    off, D = offsets(pshapes)
    K = zeros(D, D)
    if entry is None:
        entry = lambda name, i, j, k, l: factors[name][1][i, j] if k is None else E.mul(factors[name][1][i, j], factors[name][0][k, l])
    for name, pos in layers:
        A, G = factors[name]
        m = len(G)
        if not separate and "weight" in pos and "bias" in pos:
            w, b = pos["weight"], pos["bias"]
            d_in = numel(pshapes[w][1:])
            # entry (i, k) of [W b] -> position in the flattened parameters
            place = lambda i, k: off[w] + i * d_in + k if k < d_in else off[b] + i
            n = d_in + 1
            for i, k, j, l in itertools.product(range(m), range(n), range(m), range(n)):
                K[place(i, k), place(j, l)] = entry(name, i, j, k, l)
            continue
        if "weight" in pos:
            n, o = len(A), off[pos["weight"]]
            for i, k, j, l in itertools.product(range(m), range(n), range(m), range(n)):
                K[o + i * n + k, o + j * n + l] = entry(name, i, j, k, l)
        if "bias" in pos:
            o = off[pos["bias"]]
            for i, j in np.ndindex(m, m):
                K[o + i, o + j] = entry(name, i, j, None, None)
    return K


# --- operators with given factors ---------------------------------------------------
def symmetric(env, name, n, kind="any"):
    """Entries of a symmetric factor: any values, or L L' for any lower-triangular L (which
    covers exactly the positive semi-definite matrices; positive definite with a positive
    diagonal of L)."""
    M = np.empty((n, n), dtype=object)
    if kind == "definite":
        if n > 2:
            kind = "pd"
        else:
            for i in range(n):
                for j in range(i + 1):
                    env.scalar(f"{name}_{i}{j}", "real" if i != j else "pos")
                    M[i, j] = M[j, i] = env.sp(f"{name}_{i}{j}")[()]
            if n == 2:
                env.assume(E.gt(E.sub(E.mul(M[0, 0], M[1, 1]), E.mul(M[0, 1], M[0, 1])), Z))
            return M
    if kind == "any":
        for i in range(n):
            for j in range(i + 1):
                env.scalar(f"{name}_{i}{j}", "real")
                M[i, j] = M[j, i] = env.sp(f"{name}_{i}{j}")[()]
        return M
    L = zeros(n, n)
    for i in range(n):
        for j in range(i + 1):
            env.scalar(f"{name}_{i}{j}", "real" if i != j or kind == "psd" else "pos")
            L[i, j] = env.sp(f"{name}_{i}{j}")[()]
    for i, j in np.ndindex(n, n):
        M[i, j] = E.esum([E.mul(L[i, k], L[j, k]) for k in range(min(i, j) + 1)])
    return M


def spectral(env, name, n, kind="nonneg"):
    """(matrix, ascending eigenvalues, eigenvectors): V diag(w) V' for a rotation V and any signs of the
    eigenvectors; the engine's eigendecomposition returns exactly these."""
    from symtorch import linalg

    w = []
    for i in range(n):
        env.scalar(f"{name}_w{i}", kind)
        w.append(env.sp(f"{name}_w{i}")[()])
    for a, b in zip(w, w[1:]):
        env.assume(E.lt(a, b))
    if n == 1:
        Q = eye(1)
    elif n == 2:
        env.scalar(f"{name}_t", "real")
        t = env.sp(f"{name}_t")[()]
        q = E.power(E.add(ONE, E.mul(t, t)), -1)
        c, s = E.mul(E.sub(ONE, E.mul(t, t)), q), E.mul(E.const(2), E.mul(t, q))
        Q = obj([[c, E.neg(s)], [s, c]])
    else:
        raise ValueError(n)
    M = np.empty((n, n), dtype=object)
    for i, j in np.ndindex(n, n):
        M[i, j] = E.esum([E.mul(E.mul(Q[i, k], w[k]), Q[j, k]) for k in range(n)])
    V = np.array(Q, dtype=object)
    for k in range(n):
        env.scalar(f"{name}_s{k}", "sign")
        sg = env.sp(f"{name}_s{k}")[()]
        for i in range(n):
            V[i, k] = E.mul(V[i, k], sg)
    linalg.register_eigh(M, w, V)
    return M, w, Q


def dims(P, separate):
    """{module name: (size of the input factor or None, size of the gradient factor)}"""
    out = {}
    for name, pos in P.layers():
        L = P.net.flat[P.index(name)][0]
        n = None
        if "weight" in pos:
            n = numel(L.wshape()[1:]) + (1 if "bias" in pos and not separate else 0)
        out[name] = (n, L.o)
    return out


def install(op, factors, tensor):
    """Give an operator its Kronecker factors through its public state."""
    sd = dict(op.state_dict())
    sd["input_covariances"] = {k: tensor(a) for k, (a, _) in factors.items() if a is not None}
    sd["gradient_covariances"] = {k: tensor(g) for k, (_, g) in factors.items()}
    for k in ("trace", "det", "logdet", "frobenius_norm"):
        sd[k] = None
    op.load_state_dict(sd)


def fabricated(env, layers, in_shape, separate=True, kind="any", select=None, dtype=torch.float64, prefix="", make=None,
               frozen=(), **op_kw):
    """(problem, operator, factors) with symbolic Kronecker factors."""
    P = KProblem(env, layers, in_shape, batches=(1,), loss="mse", target="const", select=select, dtype=dtype, frozen=frozen)
    op = P.op(separate_weight_and_bias=separate, **op_kw)
    make = make or (lambda name, n: symmetric(env, name, n, kind))
    factors = {}
    for name, (n, m) in dims(P, separate).items():
        t = prefix + name.replace(".", "_")
        factors[name] = (None if n is None else make(f"A{t}", n), make(f"G{t}", m))
    install(op, factors, lambda a: env.tensor_of(a, dtype))
    return P, op, factors
