"""C04: the Monte-Carlo Fisher is unbiased for the GGN, has the second moments of the
documented sampling scheme, and is one deterministic matrix per seed."""
import itertools

import numpy as np
import torch
from torch.utils._mode_utils import no_dispatch

from symtorch import expr as E
from symtorch import rng

from .lib import (
    CURV_ASSUMPTIONS,
    CURV_BOUNDS,
    Problem,
    dots,
    frac,
    linear_net,
    probe,
    claim_product,
    zeros,
)

BOUNDS = dict(
    CURV_BOUNDS,
    samples="1-3 Monte-Carlo samples per datum",
    draws="all values of all draws; expectations and second moments are exact integrals over the draws",
)
ASSUMPTIONS = CURV_ASSUMPTIONS + [
    "torch's generators produce independent draws of the documented distributions, a function of the seed alone",
]


def make(P, **kw):
    from curvlinops import FisherMCLinearOperator

    return FisherMCLinearOperator(P.model, P.loss, P.params, P.data, **P.kwargs(**kw))


def outcomes(P, r):
    """List of (probability, would-be gradient) or None for Gaussian."""
    k = P.lossspec.kind
    f = r.f
    if k == "ce":
        z = E.esum([E.exp(a) for a in f])
        p = [E.div(E.exp(a), z) for a in f]
        return [(p[c], [E.sub(p[i], E.ONE if i == c else E.ZERO) for i in range(P.C)]) for c in range(P.C)]
    if k == "bce":
        s = [E.sigmoid(a) for a in f]
        out = []
        for bits in itertools.product((0, 1), repeat=P.C):
            pr = E.ONE
            for b, x in zip(bits, s):
                pr = E.mul(pr, x if b else E.sub(E.ONE, x))
            out.append((pr, [E.sub(x, E.const(b)) for b, x in zip(bits, s)]))
        return out
    return None


def moments(P, r):
    """E[s_a s_b] and E[s_a s_b s_c s_d] of the would-be gradient of a row."""
    C = P.C
    M2 = zeros(C, C)
    M4 = zeros(C, C, C, C)
    oc = outcomes(P, r)
    if oc is None:
        for a in range(C):
            M2[a, a] = frac(2)
        d = lambda i, j: 1 if i == j else 0
        for a, b, c, e in np.ndindex(C, C, C, C):
            M4[a, b, c, e] = frac(4 * (d(a, b) * d(c, e) + d(a, c) * d(b, e) + d(a, e) * d(b, c)))
        return M2, M4
    for p, s in oc:
        for a, b in np.ndindex(C, C):
            M2[a, b] = E.add(M2[a, b], E.mul(p, E.mul(s[a], s[b])))
        for a, b, c, e in np.ndindex(C, C, C, C):
            M4[a, b, c, e] = E.add(M4[a, b, c, e], E.mul(p, E.mul(E.mul(s[a], s[b]), E.mul(s[c], s[e]))))
    return M2, M4


def unbiased(samples=1, dtype=torch.float64, **pk):
    def sc(env):
        P = Problem(env, order=1, **pk)
        env.tol = 1e-6  # the code rounds the standard deviation to single precision
        op = make(P, mc_samples=samples)
        A = P.ggn()
        I = torch.eye(P.D, dtype=dtype)
        env.eq("mean", env.expectation(lambda: op @ I), A.reshape(-1))

    return sc


def second(samples=1, **pk):
    """E[M_ij M_kl]: draws of different rows and samples are independent, and each has
    the distribution the loss implies."""

    def sc(env):
        P = Problem(env, order=1, **pk)
        env.tol = 1e-6
        op = make(P, mc_samples=samples)
        D, C = P.D, P.C
        w = E.mul(P.w(), frac(1, samples))
        # per row: E[g_i g_j], E[g_i g_j g_k g_l]
        rows = []
        for r in P.rows:
            M2, M4 = moments(P, r)
            J = P.Jr(r)
            G2 = zeros(D, D)
            for i, j in np.ndindex(D, D):
                G2[i, j] = E.esum(
                    [E.mul(M2[a, b], E.mul(J[a, i], J[b, j])) for a, b in np.ndindex(C, C)]
                )
            G4 = {}
            for i, j, k, l in np.ndindex(D, D, D, D):
                G4[i, j, k, l] = E.esum(
                    [
                        E.mul(M4[a, b, c, d], E.mul(E.mul(J[a, i], J[b, j]), E.mul(J[c, k], J[d, l])))
                        for a, b, c, d in np.ndindex(C, C, C, C)
                    ]
                )
            rows.append((G2, G4))
        flat = [(i, j) for i in range(D) for j in range(D)]
        mean = [E.mul(E.mul(w, frac(samples)), E.esum([G2[i, j] for G2, _ in rows])) for i, j in flat]
        exp = list(mean)
        for x, (i, j) in enumerate(flat):
            for k, l in flat[x:]:
                tot = []
                for n, (G2, G4) in enumerate(rows):
                    tot.append(E.scale(G4[i, j, k, l], samples))
                    tot.append(E.scale(E.mul(G2[i, j], G2[k, l]), samples * (samples - 1)))
                    for m, (H2, _) in enumerate(rows):
                        if m != n:
                            tot.append(E.scale(E.mul(G2[i, j], H2[k, l]), samples * samples))
                exp.append(E.mul(E.mul(w, w), E.esum(tot)))
        I = torch.eye(D, dtype=torch.float64)
        env.eq("moments", env.expectation(lambda: op @ I, products=True), exp)

    return sc


def draws_of(env, x):
    from symtorch.harness import flat, snapshot, stackify

    return {v.a[0] for e in flat(stackify(snapshot(x))) for v in E.free_vars(E.lift(e)) if v.a[0] in rng.DRAWS}


def rng_state():
    with no_dispatch():
        return torch.get_rng_state().numpy().tobytes(), str(np.random.get_state())


def deterministic(samples=2, **pk):
    """One matrix: every product and column sees the same draws, given by the seed."""

    def sc(env):
        P = Problem(env, order=1, **pk)
        st = rng_state()
        op = make(P, mc_samples=samples, seed=11)
        x, sx = probe(env, "a", P.pshapes, 3, "tensor")
        y, sy = probe(env, "b", P.pshapes, None, "list")
        r1 = op @ x
        env.true("global random state untouched", rng_state() == st)
        torch.manual_seed(5)
        np.random.rand(2)
        r2 = op @ y
        op.gradient_and_loss()
        r3 = op @ x
        env.same("repeated", r3, r1)
        cols = torch.stack([op @ x[:, k].clone() for k in range(3)], dim=1)
        env.same("columns", cols, r1)
        flat = torch.cat([t.reshape(-1) for t in y])
        env.same("formats", torch.cat([t.reshape(-1) for t in r2]), op @ flat)
        other = make(P, mc_samples=samples, seed=11)
        env.same("same seed", other @ x, r1)
        env.same("adjoint", op.adjoint() @ x, r1)
        I = torch.eye(P.D, dtype=torch.float64)
        M = op @ I
        env.same("symmetric", M.T.clone(), M)
        env.same("linear", M @ x, r1)
        third = make(P, mc_samples=samples, seed=12)
        r4 = third @ x
        if env.symbolic:
            env.true("different seed, other draws", bool(draws_of(env, r1)) and not (draws_of(env, r1) & draws_of(env, r4)))
        else:
            env.true("different seed, other draws", True)

    return sc


def rejected(env):
    P = Problem(env, order=1, loss="bce", batches=(1,), shapes=((2,),))
    # a target strictly inside (0, 1)
    y = P.data[0][1]
    X = P.data[0][0]
    half = torch.full_like(y, 0.5)
    P.data = [(X, half)]
    op = make(P)
    env.raises("non-binary", lambda: op @ torch.ones(P.D, dtype=torch.float64), NotImplementedError)
    mixed = torch.ones_like(y)
    mixed[0, 0] = 0.25
    P.data = [(X, mixed)]
    op2 = make(P)
    env.raises("one non-binary", lambda: op2 @ torch.ones(P.D, dtype=torch.float64), NotImplementedError)


def rejected_loss(env):
    P = Problem(env, order=1, loss="jet", batches=(1,), shapes=((2,),))

    def go():
        op = make(P)
        return op @ torch.ones(P.D, dtype=torch.float64)

    env.raises("unsupported loss", go, NotImplementedError)


def configs(tier):
    out = []
    for loss in ("mse", "ce", "bce"):
        t = dict(target="const") if loss == "bce" else {}
        if loss == "bce":
            out.append(("mean/bce-targets", unbiased(1, loss=loss, batches=(1,), shapes=((2,),), target="bit")))
            out.append(("mean/bce-targets2", unbiased(1, loss=loss, batches=(1, 1), C=1, shapes=((2,),), target="bit")))
        for red in ("mean", "sum"):
            for S in (1, 2):
                out.append((f"mean/{loss}-{red}-S{S}", unbiased(S, loss=loss, reduction=red, batches=(1, 1), shapes=((2,),), **t)))
            out.append((f"mean/{loss}-{red}-uneven", unbiased(1, loss=loss, reduction=red, batches=(2, 1), shapes=((1,), (1,)), **t)))
            out.append((f"mean/{loss}-{red}-N", unbiased(1, loss=loss, reduction=red, batches=(1,), num_data="symbolic", shapes=((2,),), **t)))
            out.append((f"mean/{loss}-{red}-rows", unbiased(1, loss=loss, reduction=red, extra=(2,), batches=(1,), shapes=((2,),), **t)))
        out.append((f"mean/{loss}-S3", unbiased(3, loss=loss, batches=(1,), shapes=((2,),), **t)))
        out.append((f"mean/{loss}-C3", unbiased(1, loss=loss, C=3, batches=(1,), shapes=((2,),), **t)))
        if loss != "ce":
            out.append((f"mean/{loss}-C1", unbiased(2, loss=loss, C=1, batches=(1, 1), **t)))
        out.append((f"mean/{loss}-net", unbiased(1, loss=loss, model=linear_net(widths=(1, 2), bias=(True,)), batches=(1, 1), **t)))
        out.append((f"mean/{loss}-reordered", unbiased(1, loss=loss, shapes=((1,), (2,)), perm=(1, 0), batches=(1,), **t)))
        out.append((f"mean/{loss}-dict", unbiased(1, loss=loss, dict_input="dict", shapes=((2,),), batches=(1, 1), **t)))
        # second moments
        out.append((f"second/{loss}-S1", second(1, loss=loss, batches=(1,), shapes=((1,),), **t)))
        out.append((f"second/{loss}-S2", second(2, loss=loss, batches=(1,), shapes=((1,),), **t)))
        out.append((f"second/{loss}-data", second(1, loss=loss, batches=(2,), shapes=((1,),), **t)))
        out.append((f"second/{loss}-batches", second(1, loss=loss, batches=(1, 1), shapes=((1,),), **t)))
        out.append((f"second/{loss}-2x2", second(2, loss=loss, batches=(1, 1), shapes=((1,),), C=1 if loss != "ce" else 2, **t)))
        out.append((f"second/{loss}-D2", second(1, loss=loss, batches=(1,), shapes=((2,),), **t)))
        out.append((f"deterministic/{loss}", deterministic(2, loss=loss, batches=(2, 1), **t)))
        out.append((f"deterministic/{loss}-1", deterministic(1, loss=loss, batches=(1,), reduction="sum", **t)))
    out.append(("rejected/targets", rejected))
    out.append(("rejected/loss", rejected_loss))
    return out
