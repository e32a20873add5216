"""C14: the determinism check accepts agreeing passes and rejects disagreeing ones.

The data source (or the model) changes by a symbolic amount from one pass over the data
to the next, in a chosen quantity: the loss value, the gradient, the curvature, single
mini-batches, their order or their number.  The number of the passes is not fixed by the
specification: "must be rejected" is stated for the smallest difference any two distinct
passes can have and "must be accepted" for the largest one among the first 12 passes.
"""
from fractions import Fraction

import torch
from torch import nn

from symtorch import expr as E

from .lib import JetLoss, frac, make, set_param

BOUNDS = {
    "data": "1-3 mini-batches of 1-2 data, at most 12 passes over the data",
    "differences": "loss, gradient, curvature, inputs, targets, predictions, single mini-batches with equal totals, order and "
    "number of mini-batches; every real amount of change between passes",
    "operators": "Hessian, GGN, empirical Fisher, MC-Fisher, (transposed) Jacobian, KFAC",
    "values": "all real values",
}
ASSUMPTIONS = [
    "exact real arithmetic; the documented tolerance is relative 5e-5 and absolute 1e-6",
    "the text printed for entries that differ is not specified",
    "the sampled probing vector of the matrix-vector check lies in [1/8, 1] where a difference in the product must be seen",
]
RTOL, ATOL, PASSES = Fraction(5, 100000), Fraction(1, 1000000), 12

OPS = {
    "H": "HessianLinearOperator",
    "G": "GGNLinearOperator",
    "EF": "EFLinearOperator",
    "MC": "FisherMCLinearOperator",
    "J": "JacobianLinearOperator",
    "JT": "TransposedJacobianLinearOperator",
    "K": "KFACLinearOperator",
}
ORDERED = ("MC", "J", "JT")


class Passes:
    """Data source; pass(p) gives the batches of pass p."""

    def __init__(self, batches):
        self.batches, self.count = batches, 0

    def __iter__(self):
        p = self.count
        self.count += 1
        if p >= PASSES:
            raise E.SymbolicError("more passes than the specification covers")
        return iter(self.batches(p))


class Theta(nn.Module):
    """f(X; theta)_n = theta + 0 X_n (so loss, gradient and curvature are what the targets say)."""

    def __init__(self, p):
        super().__init__()
        self.p = p

    def forward(self, X):
        return self.p + 0.0 * X[..., : self.p.shape[0]]


class Split(nn.Module):
    """Like Theta with one parameter tensor per output."""

    def __init__(self, ps):
        super().__init__()
        self.ps = nn.ParameterList(ps)

    def forward(self, X):
        return torch.cat([p.reshape(-1) for p in self.ps]) + 0.0 * X


class Drifting(nn.Module):
    """The forward pass changes by `step` from call to call."""

    def __init__(self, p, step):
        super().__init__()
        self.p, self.step, self.calls = p, step, 0

    def forward(self, X):
        k = self.calls
        self.calls += 1
        return self.p + k * self.step + 0.0 * X


class ThetaLayer(nn.Module):
    """Theta (or Drifting) with theta as bias of a linear layer of zero weight."""

    def __init__(self, p, step=None):
        super().__init__()
        m = make(nn.Linear, 1, 1)
        set_param(m, "weight", nn.Parameter(torch.zeros(1, 1, dtype=torch.float64), requires_grad=False))
        set_param(m, "bias", p)
        self.m, self.step, self.calls = m, step, 0

    def forward(self, X):
        k = self.calls
        self.calls += 1
        f = self.m(X)
        return f if self.step is None else f + k * self.step


def theta(op, p, step=None):
    if op == "K":
        return ThetaLayer(p, step)
    return Theta(p) if step is None else Drifting(p, step)


def build(name, model, loss, params, data, **kw):
    import curvlinops

    cls = getattr(curvlinops, OPS[name])
    args = (model, params, data) if name in ("J", "JT") else (model, loss, params, data)
    return cls(*args, check_deterministic=True, **kw)


def verdict(env, fn, must_reject, must_accept):
    """fn() is accepted unless must_reject, rejected by a RuntimeError unless must_accept."""
    sides = dict(E.SIDE)
    op, exc = env.attempt(fn)
    if env.symbolic:  # divisions in the printed report are not part of the behaviour
        E.SIDE.clear()
        E.SIDE.update(sides)
    if exc is None:
        env.true("accepted passes agree", E.bnot(must_reject))
    else:
        env.true("rejected by a RuntimeError", isinstance(exc, RuntimeError) and not isinstance(exc, NotImplementedError), f"{type(exc).__name__}: {exc}")
        env.true("rejected passes disagree", E.bnot(must_accept))


def bounds(base, step, coeff=1):
    """(certainly different, certainly close) for values base + step * (number of the pass)."""
    d, b = E.absolute(E.scale(step, coeff)), E.absolute(base)
    far = E.scale(d, PASSES)
    differ = E.gt(d, E.add(E.const(ATOL), E.scale(E.add(b, far), RTOL)))
    close = E.le(far, E.add(E.const(ATOL), E.scale(E.sub(b, far), RTOL)))
    return differ, close


def all_close(base, step, coeff=1):
    return bounds(base, step, coeff)[1]


def totals(op, quantity, red="mean", sizes=(1,), where=0, D=1, split=False, order=None):
    """Loss, gradient or curvature of batch `where` drifts by the same amount in each pass."""

    def sc(env):
        C = D
        th = env.param("p", (D,)) if not split else [env.param(f"p{i}", (1,) if i % 2 else ()) for i in range(D)]
        model = Split(th) if split else Theta(th)
        params = [th] if not split else [th[i] for i in (order or range(D))]
        R = 1 + C + C * C
        Xs = [env.const([[0.0] * C] * n) for n in sizes]
        ys = [env.tensor(f"y{b}", (n, R)) for b, n in enumerate(sizes)]
        step = env.scalar("step", "real")
        pos = {"loss": 0, "grad": 1 + (C - 1), "curv": R - 1}[quantity]
        N = sum(sizes)

        def batches(p):
            out = []
            for b, (X, y) in enumerate(zip(Xs, ys)):
                if b == where:
                    delta = torch.zeros(sizes[b], R, dtype=torch.float64)
                    delta[0, pos] = 1.0
                    y = y + delta * (p * step)
                out.append((X, y))
            return out

        loss = JetLoss(C, red)
        w = Fraction(1, N) if red == "mean" else Fraction(1)
        st = env.sp("step")[()]
        rows = [r for b in range(len(sizes)) for r in env.sp(f"y{b}")]
        if quantity in ("loss", "grad"):
            base = E.scale(E.esum([r[pos] for r in rows]), w)
            rej, acc = bounds(base, st, w)
        else:
            base = [E.scale(E.esum([E.scale(E.add(r[1 + C + i * C + C - 1], r[1 + C + (C - 1) * C + i]), Fraction(1, 2)) for r in rows]), w) for i in range(C)]
            v = None
            # S v differs by step * v_last; v in [0, 1)
            _, acc = E.TRUE, E.le(E.scale(E.absolute(st), w * PASSES), E.const(ATOL))
            d = E.scale(E.absolute(st), w)
            size = E.esum([E.absolute(x) for x in base])
            rej = E.gt(E.scale(d, Fraction(1, 8)), E.add(E.const(ATOL), E.scale(E.add(size, E.scale(d, PASSES)), RTOL)))
            with probe_at_least(env, 0.125):
                return verdict(env, lambda: build(op, model, loss, params, Passes(batches)), rej, acc)
        verdict(env, lambda: build(op, model, loss, params, Passes(batches)), rej, acc)

    return sc


class probe_at_least:
    """The probing vector drawn by torch.rand is assumed to lie in [low, 1]."""

    def __init__(self, env, low):
        self.env, self.low = env, low

    def __enter__(self):
        import curvlinops._torch_base as tb

        env, low, k = self.env, self.low, [0]
        self.old = tb.rand

        def rand(*size, **kw):
            size = size[0] if len(size) == 1 and isinstance(size[0], (tuple, list)) else size
            k[0] += 1
            u = env.tensor(f"probe{k[0]}", tuple(size), "unit")
            return low + (1 - low) * u

        tb.rand = rand

    def __exit__(self, *a):
        import curvlinops._torch_base as tb

        tb.rand = self.old
        return False


def targets(op, sizes=(1,), where=0):
    """Targets under a squared-error loss drift."""

    def sc(env):
        th = env.param("p", (1,))
        step = env.scalar("step", "real")
        xs = [env.const([[0.0]] * n) for n in sizes]
        ys = [env.tensor(f"y{b}", (n, 1)) for b, n in enumerate(sizes)]
        st, f0 = env.sp("step")[()], env.sp("p")[0]
        w = Fraction(2, sum(sizes))
        base = E.scale(E.esum([E.sub(f0, r[0]) for b in range(len(sizes)) for r in env.sp(f"y{b}")]), w)
        rej, _ = bounds(base, st, w)
        data = Passes(lambda p: [(X, y + p * step if b == where else y) for b, (X, y) in enumerate(zip(xs, ys))])
        verdict(env, lambda: build(op, theta(op, th), nn.MSELoss(), [th], data), rej, E.eq(st, E.ZERO))

    return sc


def order(op, sizes=(1, 1, 1), same=False, equal=False, kfac_kw=None):
    """The mini-batches come in another order in each pass."""

    def sc(env):
        C, D = 1, 1
        th = env.param("p", (D,))
        B = len(sizes)
        R = 3 if op in ("H", "G") else C
        bs = []
        for b, n in enumerate(sizes):
            if same or equal:
                b = 0
            X = env.const([[0.5 * b]] * n) if op not in ("J", "JT") else env.const([[0.25 * b]] * n)
            if (same and bs) or op == "MC" or equal:
                y = bs[0][1] if same and bs else env.const([[float(b)]] * n)
            else:
                y = env.tensor(f"y{b}", (n, R))
            bs.append((X, y))
        loss = JetLoss(C, "mean") if R == 3 else nn.MSELoss()
        rot = lambda p: [bs[(b + p) % B] for b in range(B)]
        rej = E.TRUE if op in ORDERED and not same else E.FALSE
        verdict(env, lambda: build(op, theta(op, th), loss, [th], Passes(rot), **(kfac_kw or {})), rej, E.bnot(rej))

    return sc


def opposite(op, quantity):
    """Two mini-batches change by opposite amounts: the totals agree, the mini-batches do not."""

    def sc(env):
        C = 1
        th = env.param("p", (1,))
        step = env.scalar("step", "real")
        jet = op in ("H", "G")
        ys = [env.tensor(f"y{b}", (1, 3 if jet else 1)) for b in range(2)]
        xs = [env.tensor(f"x{b}", (1, 1)) for b in range(2)]
        st = env.sp("step")[()]

        def batches(p):
            out = []
            for b, s in enumerate((1, -1)):
                X, y = xs[b], ys[b]
                if quantity == "X":
                    X = X + s * p * step
                else:
                    d = torch.zeros(1, y.shape[1], dtype=torch.float64)
                    d[0, 0] = 1.0
                    y = y + d * (s * p * step)
                out.append((X, y))
            return out

        if op in ORDERED:
            base = env.sp(("x" if quantity == "X" else "y") + "0").reshape(-1)[0]
            other = env.sp(("x" if quantity == "X" else "y") + "1").reshape(-1)[0]
            d0, c0 = bounds(base, st)
            d1, c1 = bounds(other, st)
            rej, acc = E.bor(d0, d1), E.FALSE
            if op in ("J", "JT"):
                acc = E.band(c0, c1)
        else:
            rej, acc = E.FALSE, E.TRUE
        loss = JetLoss(C, "mean") if jet else nn.MSELoss()
        verdict(env, lambda: build(op, theta(op, th), loss, [th], Passes(batches)), rej, acc)

    return sc


def mse_row(env):
    d = E.sub(env.sp("p")[0], env.sp("y")[0, 0])
    return [E.power(d, 2), E.scale(d, 2), E.const(2)]


def number(op, num_data=2):
    """Each pass has one mini-batch more than the one before."""

    def sc(env):
        th = env.param("p", (1,))
        jet = op in ("H", "G")
        y = env.tensor("y", (1, 3 if jet else 1))
        X = env.const([[0.0]])
        loss = JetLoss(1, "mean") if jet else nn.MSELoss()
        if op in ORDERED:
            rej, acc = E.TRUE, E.FALSE
        else:
            r = env.sp("y")[0] if jet else mse_row(env)
            ds = [bounds(E.scale(r[i], Fraction(1, num_data)), E.scale(r[i], Fraction(1, num_data))) for i in (0, 1)]
            rej, acc = E.bor(*[d for d, _ in ds]), E.band(*[c for _, c in ds], E.eq(r[2], E.ZERO))
            if op in ("EF", "K"):
                acc = E.band(E.eq(r[0], E.ZERO))
        verdict(env, lambda: build(op, theta(op, th), loss, [th], Passes(lambda p: [(X, y)] * (p + 1)), num_data=num_data), rej, acc)

    return sc


def fewer(op, num_data=2):
    """Each pass has one mini-batch less than the one before."""

    def sc(env):
        th = env.param("p", (1,))
        jet = op in ("H", "G")
        y = env.tensor("y", (1, 3 if jet else 1))
        X = env.const([[0.0]])
        loss = JetLoss(1, "mean") if jet else nn.MSELoss()
        if op in ORDERED:
            rej = E.TRUE
        else:
            r = env.sp("y")[0] if jet else mse_row(env)
            w = Fraction(1, num_data)
            rej = E.bor(*[bounds(E.scale(r[i], w * PASSES), E.scale(r[i], w))[0] for i in (0, 1)])
        verdict(env, lambda: build(op, theta(op, th), loss, [th], Passes(lambda p: [(X, y)] * (PASSES + 1 - p)), num_data=num_data), rej, E.FALSE)

    return sc


def regrouped(op):
    """The same data in other mini-batches in each pass."""

    def sc(env):
        th = env.param("p", (1,))
        jet = op not in ("EF", "K")
        y = env.tensor("y", (3, 3 if jet else 1))
        X = env.const([[0.0]] * 3)
        cuts = [((0, 3),), ((0, 1), (1, 3)), ((0, 2), (2, 3)), ((0, 1), (1, 2), (2, 3))]
        data = Passes(lambda p: [(X[a:b], y[a:b]) for a, b in cuts[p % 4]])
        verdict(env, lambda: build(op, theta(op, th), JetLoss(1, "mean") if jet else nn.MSELoss(), [th], data), E.FALSE, E.TRUE)

    return sc


def forward(op, loss="mse"):
    """The model's prediction changes from one forward pass to the next."""

    def sc(env):
        th = env.param("p", (1,))
        step = env.scalar("step", "real")
        y = env.tensor("y", (1, 1))
        X = env.const([[0.0]])
        st = env.sp("step")[()]
        f0, y0 = env.sp("p")[0], env.sp("y")[0, 0]
        if op in ORDERED:
            base = f0
            rej, acc = bounds(base, st)
            if op == "MC":
                acc = E.FALSE
        else:
            rej, acc = bounds(E.scale(E.sub(f0, y0), 2), st, 2)
            acc = E.FALSE  # the loss varies quadratically
        acc = E.bor(acc, E.eq(st, E.ZERO))
        verdict(env, lambda: build(op, theta(op, th, step), nn.MSELoss(), [th], [(X, y)]), rej, acc)

    return sc


def deterministic(op, sizes=(2, 1), loss="mse", red="mean", **kw):
    def sc(env):
        m = make(nn.Linear, 2, 2)
        W, b = env.param("W", (2, 2)), env.param("b", (2,))
        set_param(m, "weight", W)
        set_param(m, "bias", b)
        data = []
        for i, n in enumerate(sizes):
            y = env.tensor(f"y{i}", (n,), ("class", 2), torch.int64) if loss == "ce" else env.tensor(f"y{i}", (n, 2))
            data.append((env.tensor(f"X{i}", (n, 2)), y))
        L = nn.CrossEntropyLoss(reduction=red) if loss == "ce" else nn.MSELoss(reduction=red)
        verdict(env, lambda: build(op, m, L, [b, W], data, **kw), E.FALSE, E.TRUE)

    return sc


def dict_batches(op):
    """Dictionary batches whose input drifts from pass to pass."""

    def sc(env):
        class M(nn.Module):
            def __init__(self, p):
                super().__init__()
                self.p = p

            def forward(self, X):
                return self.p + 0.0 * X["b"]

        class K(ThetaLayer):
            def forward(self, X):
                return super().forward(X["b"])

        th = env.param("p", (1,))
        step = env.scalar("step", "real")
        x, y = env.tensor("x", (1, 1)), env.tensor("y", (1, 1))
        data = Passes(lambda p: [({"a": "text", "b": x + p * step}, y)])
        if op in ORDERED:
            rej, acc = bounds(env.sp("x")[0, 0], env.sp("step")[()])
            if op == "MC":
                acc = E.band(acc, E.TRUE)
        else:
            rej, acc = E.FALSE, E.TRUE
        verdict(env, lambda: build(op, (K if op == "K" else M)(th), nn.MSELoss(), [th], data, batch_size_fn=lambda X: X["b"].shape[0]), rej, acc)

    return sc


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, dict(dict(max_paths=4000), **kw)))

    for op in ("H", "G", "EF", "K"):
        add(f"targets/{op}", targets(op))
        add(f"targets/{op}-second", targets(op, sizes=(1, 1), where=1))
        if op in ("EF", "K"):
            add(f"regrouped/{op}", regrouped(op))
            continue
        for q in ("loss", "grad", "curv"):
            add(f"{q}/{op}", totals(op, q))
            add(f"{q}/{op}-sum", totals(op, q, red="sum"))
            add(f"{q}/{op}-second", totals(op, q, sizes=(1, 1), where=1))
            add(f"{q}/{op}-uneven", totals(op, q, sizes=(2, 1), where=0))
            if q != "curv":
                add(f"{q}/{op}-2d", totals(op, q, D=2))
            add(f"{q}/{op}-params2", totals(op, q, D=2, split=True))
            add(f"{q}/{op}-params2-first", totals(op, q, D=2, split=True, order=(1, 0)))
        add(f"regrouped/{op}", regrouped(op))
    for op in OPS:
        add(f"order/{op}", order(op))
        add(f"order-2/{op}", order(op, sizes=(1, 1)))
        add(f"order-uneven/{op}", order(op, sizes=(2, 1)))
        add(f"order-same/{op}", order(op, same=True))
        if op in ORDERED:
            add(f"order-uneven-equal/{op}", order(op, sizes=(2, 1), equal=True))
        add(f"number/{op}", number(op))
        add(f"fewer/{op}", fewer(op))
        add(f"forward/{op}", forward(op))
        add(f"dict/{op}", dict_batches(op))
        if op not in ("EF", "K"):
            for q in ("X", "y"):
                add(f"opposite-{q}/{op}", opposite(op, q))
        for loss in ("mse", "ce"):
            for red in ("mean", "sum"):
                if op in ("J", "JT") and (loss, red) != ("mse", "mean"):
                    continue
                add(f"ok/{op}-{loss}-{red}", deterministic(op, loss=loss, red=red))
        add(f"ok/{op}-N", deterministic(op, sizes=(1, 1, 1), num_data=3))
    add("ok/H-blocks", deterministic("H", block_sizes=[1, 1]))
    for ft in ("empirical", "forward-only", "mc"):
        add(f"ok/K-{ft}", deterministic("K", fisher_type=ft))
        add(f"order/K-{ft}", order("K", sizes=(1, 1), kfac_kw=dict(fisher_type=ft)))
    add("ok/K-joint", deterministic("K", separate_weight_and_bias=False))
    add("ok/K-reduce", deterministic("K", kfac_approx="reduce"))
    add("ok/MC-samples", deterministic("MC", mc_samples=2, seed=7))
    return out
