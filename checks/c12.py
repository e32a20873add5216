"""C12: the inverse KFAC operator multiplies with the inverse of the damped factors."""
import warnings
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from symtorch import expr as E
from symtorch.linalg import det as dense_det

from .kfac_lib import Conv, KProblem, Lin, assemble, dims, eye, fabricated, install, spectral, symmetric, zeros
from .lib import CURV_ASSUMPTIONS, add, claim_product, numel, probe, scale

BOUNDS = {
    "layers": "1-3 Linear / Conv2d layers, factors of size up to 3 x 3 (2 x 2 for exact damping), with or without bias, weight or bias "
    "only, joint or separate treatment, any parameter order",
    "factors": "all positive (semi-)definite values; all symmetric values for failures; every rotation, spectrum and eigenvector sign "
    "(exact damping)",
    "damping": "none, a symbolic scalar, a symbolic pair, trace-balanced with symbolic minimum, exact",
    "histories": "two products; new factors loaded in between without caching; factors computed from data; failing Cholesky in single precision",
}
ASSUMPTIONS = CURV_ASSUMPTIONS + [
    "Cholesky, triangular inverses and eigendecompositions are exact and defined by their textbook recurrences (ascending eigenvalues, any "
    "sign of the eigenvectors)"
]


def inverts(env, inv, M, shapes, modes, tag="", dtype=torch.float64):
    """M (inv @ x) == x, for the damped matrix M."""
    Mt = env.tensor_of(M, dtype)
    for m in modes:
        if m == "eye":
            I = torch.eye(len(M), dtype=dtype)
            env.eq(tag + "eye", Mt @ (inv @ I), eye(len(M)))
            continue
        K, fmt = m
        x, sx = probe(env, f"{tag}v{fmt[0]}{K}", shapes, K, fmt, dtype)
        r = inv @ x
        parts = [r] if fmt == "tensor" else r
        given = [x] if fmt == "tensor" else x
        env.true(f"{tag}{fmt}{K}/type", type(r) is type(x) or isinstance(r, torch.Tensor) == isinstance(x, torch.Tensor))
        env.true(f"{tag}{fmt}{K}/shapes", len(parts) == len(given) and all(a.shape == b.shape and a.dtype == dtype for a, b in zip(parts, given)))
        tail = () if K is None else (K,)
        fl = torch.cat([p.reshape(-1, *tail) for p in parts])
        env.eq(f"{tag}{fmt}{K}", Mt @ fl, sx)
        # the vector is left alone
        env.same(f"{tag}{fmt}{K}/input", torch.cat([g.reshape(-1, *tail) for g in given]), env.tensor_of(sx, dtype))


def damped(f, rule):
    """Factors plus damping; rule: (A, G) -> (damping of A, damping of G)."""
    out = {}
    for k, (A, G) in f.items():
        a, g = rule(A, G)
        out[k] = (None if A is None else add(A, scale(eye(len(A)), a)), add(G, scale(eye(len(G)), g)))
    return out


def mean_trace(M):
    return E.scale(E.esum([M[i, i] for i in range(len(M))]), Fraction(1, len(M)))


DAMP = {
    "none": lambda env: (0.0, lambda A, G: (E.ZERO, E.ZERO)),
    "scalar": lambda env: (env.scalar("delta", "pos"), lambda A, G: (env.sp("delta")[()],) * 2),
    "pair": lambda env: (
        (env.scalar("delta", "pos"), env.scalar("epsilon", "pos")),
        lambda A, G: (env.sp("delta")[()], env.sp("epsilon")[()]),
    ),
}


def make_inverse(op, **kw):
    from curvlinops import KFACInverseLinearOperator

    return KFACInverseLinearOperator(op, **kw)


def plain(damp, separate=True, modes=("eye",), kind="psd", again=False, inv_kw=None, **kw):
    def sc(env):
        d, rule = DAMP[damp](env)
        P, op, f = fabricated(env, separate=separate, kind="pd" if damp == "none" else kind, **kw)
        inv = make_inverse(op, damping=d, **(inv_kw or {}))
        env.true("shape", tuple(inv.shape) == (P.D, P.D))
        M = assemble(P.layers(), damped(f, rule), P.pshapes, separate)
        inverts(env, inv, M, P.pshapes, modes, dtype=kw.get("dtype", torch.float64))
        if again:
            inverts(env, inv, M, P.pshapes, ((None, "tensor"),), "again/")
            inverts(env, inv.adjoint(), M, P.pshapes, ("eye",), "adjoint/")

    return sc


def heuristic(separate=True, modes=("eye",), zero=None, minimum="sym", kind="definite", **kw):
    """Trace-balanced split: pi = sqrt(mean eigenvalue of A / that of G)."""

    def sc(env):
        d = env.scalar("delta", "pos")
        lo = env.scalar("least", "pos") if minimum == "sym" else 1e-8
        least = env.sp("least")[()] if minimum == "sym" else E.const(Fraction(1, 10**8))

        def make(name, k):
            if zero and name.startswith(zero):
                return zeros(k, k)
            return symmetric(env, name, k, kind)

        P, op, f = fabricated(env, separate=separate, make=make, **kw)
        inv = make_inverse(op, damping=d, use_heuristic_damping=True, **({"min_damping": lo} if minimum == "sym" else {}))

        def rule(A, G):
            dl = env.sp("delta")[()]
            if A is None:
                return dl, dl
            a, g = mean_trace(A), mean_trace(G)
            if a is E.ZERO or g is E.ZERO:
                return dl, dl
            if not env.decide(E.band(E.gt(a, E.ZERO), E.gt(g, E.ZERO))):
                return dl, dl
            root = E.sqrt(dl)
            pi = E.sqrt(E.div(a, g))
            larger = lambda u: u if env.decide(E.ge(u, least)) else least
            return larger(E.mul(root, pi)), larger(E.div(root, pi))

        M = assemble(P.layers(), damped(f, rule), P.pshapes, separate)
        inverts(env, inv, M, P.pshapes, modes)

    return sc


def exact(separate=True, modes=("eye",), direct=True, again=False, inv_kw=None, **kw):
    """Damping of the whole Kronecker product: (G x A + delta) R = X.  When both factors are
    2 x 2 (not direct), R is compared with the sum over pairs of eigenvectors
    (u_p x v_q) (u_p x v_q)' / (g_p a_q + delta), the inverse in terms of the eigenbasis."""

    def sc(env):
        d = env.scalar("delta", "pos")
        eig = {}

        def make(name, n):
            M, w, V = spectral(env, name, n)
            eig[id(M)] = (w, V)
            return M

        P, op, f = fabricated(env, separate=separate, make=make, **kw)
        inv = make_inverse(op, damping=d, use_exact_damping=True, **(inv_kw or {}))
        dl = env.sp("delta")[()]
        if direct:
            M = add(assemble(P.layers(), f, P.pshapes, separate), scale(eye(P.D), dl))
            inverts(env, inv, M, P.pshapes, modes)
            return

        def entry(name, i, j, k, l):
            A, G = f[name]
            g, U = eig[id(G)]
            a, V = eig[id(A)] if k is not None else ([E.ONE], None)
            terms = []
            for p in range(len(g)):
                for q in range(len(a)):
                    t = E.mul(U[i, p], U[j, p])
                    if k is not None:
                        t = E.mul(t, E.mul(V[k, q], V[l, q]))
                    terms.append(E.div(t, E.add(E.mul(g[p], a[q]), dl)))
            return E.esum(terms)

        R = assemble(P.layers(), f, P.pshapes, separate, entry)
        for m in modes:
            if m == "eye":
                for r in range(2 if again else 1):
                    env.eq(f"inverse{r}", inv @ torch.eye(P.D, dtype=torch.float64), R)
                if again:
                    env.eq("adjoint", inv.adjoint() @ torch.eye(P.D, dtype=torch.float64), R)
            else:
                x, sx = probe(env, f"v{m[1][0]}{m[0]}", P.pshapes, *m)
                claim_product(env, f"inv@{m[1]}{m[0]}", inv @ x, R, sx, P.pshapes, m[1])

    return sc


def definite(M):
    return E.band(*[E.gt(dense_det(M[: k + 1, : k + 1]), E.ZERO) for k in range(len(M))])


def fails(damp, separate=True, **kw):
    """Products succeed exactly for positive definite damped factors."""

    def sc(env):
        d, rule = DAMP[damp](env)
        P, op, f = fabricated(env, separate=separate, kind="any", **kw)
        inv = make_inverse(op, damping=d)
        f = damped(f, rule)
        M = assemble(P.layers(), f, P.pshapes, separate)
        pd = E.band(*[definite(F) for pr in f.values() for F in pr if F is not None])
        x = env.tensor("x", (P.D,))
        r, err = env.attempt(lambda: inv @ x)
        if err is not None:
            env.true("failure", E.bnot(pd))
            env.true("RuntimeError", isinstance(err, RuntimeError))
        else:
            env.true("success", pd)
            env.eq("product", env.tensor_of(M) @ r, env.sp("x"))
        # a repeated product behaves the same
        r2, err2 = env.attempt(lambda: inv @ x)
        env.true("repeated", (err is None) == (err2 is None))
        if err is None and err2 is None:
            env.same("repeated product", r2, r)

    return sc


class SinglePrecisionFails(TorchDispatchMode):
    """The Cholesky decomposition of the named single-precision matrices fails."""

    def __init__(self, which):
        self.which, self.n, self.doubles = which, 0, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if "linalg_cholesky_ex" in func.name():
            if args[0].dtype == torch.float32:
                k, self.n = self.n, self.n + 1
                if k in self.which:
                    return out[0], torch.ones_like(out[1])
            else:
                self.doubles += 1
        return out


def retries(which, retry=True, separate=True, damp="scalar", **kw):
    def sc(env):
        env.exact_casts()
        d, rule = DAMP[damp](env)
        P, op, f = fabricated(env, separate=separate, dtype=torch.float32, kind="psd", **kw)
        inv = make_inverse(op, damping=d, retry_double_precision=retry)
        M = assemble(P.layers(), damped(f, rule), P.pshapes, separate)
        I = torch.eye(P.D, dtype=torch.float32)
        with warnings.catch_warnings(record=True) as w, SinglePrecisionFails(which) as mode:
            warnings.simplefilter("always")
            r, err = env.attempt(lambda: inv @ I)
        if not retry:
            env.true("fails", isinstance(err, RuntimeError))
            return
        env.true("no failure", err is None)
        env.true("retried", mode.doubles == len(which))
        env.true("warned", len([x for x in w if "precision" in str(x.message)]) == len(which))
        env.true("dtype", r.dtype == torch.float32)
        env.eq("product", env.tensor_of(M, torch.float32) @ r, eye(P.D))

    return sc


def reloaded(damp="scalar", cache=False, separate=True, **kw):
    """Without caching, products use the factors the operator has at that time."""

    def sc(env):
        d, rule = DAMP[damp](env)
        P, op, f = fabricated(env, separate=separate, kind="psd", **kw)
        inv = make_inverse(op, damping=d, cache=False)
        inverts(env, inv, assemble(P.layers(), damped(f, rule), P.pshapes, separate), P.pshapes, ("eye",), "old/")
        f2 = {k: (None if a is None else symmetric(env, "B" + k, len(a), "psd"), symmetric(env, "H" + k, len(g), "psd")) for k, (a, g) in f.items()}
        install(op, f2, lambda a: env.tensor_of(a))
        inverts(env, inv, assemble(P.layers(), damped(f2, rule), P.pshapes, separate), P.pshapes, ("eye",), "new/")

    return sc


def two_inverses(separate=True, **kw):
    """Inverses of one operator with different damping do not influence each other or it."""

    def sc(env):
        d, e = env.scalar("delta", "pos"), env.scalar("epsilon", "pos")
        P, op, f = fabricated(env, separate=separate, kind="psd", **kw)
        K = assemble(P.layers(), f, P.pshapes, separate)
        one, two = make_inverse(op, damping=d), make_inverse(op, damping=(e, d))
        s = lambda a, b: assemble(P.layers(), damped(f, lambda A, G: (env.sp(a)[()], env.sp(b)[()])), P.pshapes, separate)
        inverts(env, one, s("delta", "delta"), P.pshapes, ("eye",), "first/")
        inverts(env, two, s("epsilon", "delta"), P.pshapes, ("eye",), "second/")
        inverts(env, one, s("delta", "delta"), P.pshapes, ((None, "tensor"),), "first again/")
        env.eq("operator", op @ torch.eye(P.D, dtype=torch.float64), K)

    return sc


def computed(damp="scalar", product_first=False, approx="expand", fisher="empirical", separate=True, **pk):
    """Factors computed from data by the first product."""

    def sc(env):
        d, rule = DAMP[damp](env)
        P = KProblem(env, **pk)
        op = P.op(fisher_type=fisher, kfac_approx=approx, separate_weight_and_bias=separate)
        f = P.factors(approx, fisher, separate)
        inv = make_inverse(op, damping=d)
        if product_first:
            env.eq("op@eye", op @ torch.eye(P.D, dtype=torch.float64), P.assemble(f, separate))
        inverts(env, inv, assemble(P.layers(), damped(f, rule), P.pshapes, separate), P.pshapes, ("eye",))
        env.eq("op@eye after", op @ torch.eye(P.D, dtype=torch.float64), P.assemble(f, separate))

    return sc


def rejected(env):
    from curvlinops import EFLinearOperator, KFACInverseLinearOperator

    P, op, f = fabricated(env, [Lin(1, 2)], (1,))
    pair = (env.scalar("delta", "pos"), env.scalar("epsilon", "pos"))
    one = pair[0]
    env.raises("both", lambda: KFACInverseLinearOperator(op, damping=one, use_heuristic_damping=True, use_exact_damping=True), ValueError)
    env.raises("heuristic pair", lambda: KFACInverseLinearOperator(op, damping=pair, use_heuristic_damping=True), ValueError)
    env.raises("exact pair", lambda: KFACInverseLinearOperator(op, damping=pair, use_exact_damping=True), ValueError)
    ef = EFLinearOperator(P.model, P.loss, P.params, P.data, check_deterministic=False)
    env.raises("not KFAC", lambda: KFACInverseLinearOperator(ef, damping=one), ValueError)
    env.raises("inverse of an inverse", lambda: KFACInverseLinearOperator(KFACInverseLinearOperator(op), damping=one), ValueError)


NETS = {
    "1x1": ([Lin(1, 1)], (1,)),
    "1x2": ([Lin(1, 2)], (1,)),
    "2x1": ([Lin(2, 1)], (2,)),
    "2x2": ([Lin(2, 2)], (2,)),
    "nobias": ([Lin(2, 2, bias=False)], (2,)),
    "mixed": ([Lin(1, 2, bias=False), "tanh", Lin(2, 1)], (1,)),
    "deep": ([Lin(1, 1), "tanh", Lin(1, 2, bias=False), "relu", Lin(2, 1)], (1,)),
    "conv": ([Conv(1, 1, (1, 2)), "last", "mean"], (1, 1, 3)),
    "conv2": ([Conv(2, 2, 1), "last", "mean"], (2, 1, 1)),
    "conv-lin": ([Conv(1, 2, (2, 1)), "tanh", "last", "mean", Lin(2, 1)], (1, 2, 1)),
    "nested": ([("seq", [Lin(2, 1), "tanh"]), ("seq", [Lin(1, 2)])], (2,)),
}


def joint_size(layers):
    n = 0
    for L in layers:
        if isinstance(L, tuple):
            n = max(n, joint_size(L[1]))
        elif hasattr(L, "o"):
            n = max(n, int(np.prod(L.wshape()[1:])) + int(L.has_bias))
    return n


def configs(tier):
    out = []
    sepn = {True: "sep", False: "joint"}
    formats = ((None, "tensor"), (2, "tensor"), (None, "list"), (2, "list"))
    for name, (layers, sh) in NETS.items():
        for sep in (True, False):
            kw = dict(layers=layers, in_shape=sh, separate=sep)
            for damp in DAMP:
                out.append((f"{name}/{damp}-{sepn[sep]}", plain(damp, **kw)))
            if name in ("1x1", "1x2", "2x1", "2x2", "nobias", "conv") and joint_size(layers) <= (3 if sep else 2) or sep and name == "mixed":
                out.append((f"{name}/heuristic-{sepn[sep]}", heuristic(**kw), dict(max_paths=64)))
            if joint_size(layers) <= 2 or sep:
                out.append((f"{name}/exact-{sepn[sep]}", exact(direct=name == "1x1" or name == "1x2" and sep, **kw)))
    two = dict(layers=[Lin(1, 1), "tanh", Lin(1, 2)], in_shape=(1,))
    for sep in (True, False):
        for sel in ((1, 0), (2, 3), (0,), (1,), (2,), (3,), (0, 3), (1, 2), (3, 2, 1, 0), (1, 0, 3)):
            t = f"params/{''.join(map(str, sel))}-{sepn[sep]}"
            out.append((t + "-pair", plain("pair", sep, select=sel, modes=("eye",), **two)))
            out.append((t + "-exact", exact(sep, select=sel, direct=False, **two)))
            if sep or sel != (3, 2, 1, 0):
                out.append((t + "-heuristic", heuristic(sep, select=sel, **two), dict(max_paths=64)))
        for nm, (layers, sh) in {"lin": ([Lin(1, 2)], (1,)), "conv": ([Conv(1, 2, (1, 1)), "last", "mean"], (1, 1, 2))}.items():
            kw = dict(layers=layers, in_shape=sh)
            for m in formats:
                t = f"formats/{nm}-{m[1]}{m[0] or ''}-{sepn[sep]}"
                out.append((t + "-scalar", plain("scalar", sep, (m,), **kw)))
                out.append((t + "-exact", exact(sep, (m,), direct=False, **kw)))
            for cache in (True, False):
                out.append((f"again/{nm}-exact-{'cached' if cache else 'uncached'}-{sepn[sep]}", exact(sep, direct=False, again=True, inv_kw=dict(cache=cache), **kw)))
            out.append((f"again/{nm}-{sepn[sep]}", plain("pair", sep, again=True, **kw)))
            out.append((f"again/{nm}-uncached-{sepn[sep]}", plain("pair", sep, again=True, inv_kw=dict(cache=False), **kw)))
        for nm, (layers, sh) in {"1x1": ([Lin(1, 1)], (1,)), "1x2": ([Lin(1, 2)], (1,)), "2x1-nobias": ([Lin(2, 1, bias=False)], (2,)),
                                 "two": ([Lin(1, 1, bias=False), "tanh", Lin(1, 1)], (1,))}.items():
            for damp in DAMP:
                out.append((f"fails/{nm}-{damp}-{sepn[sep]}", fails(damp, sep, layers=layers, in_shape=sh), dict(max_paths=200)))
        for zero in ("A", "G", ("A", "G")):
            out.append((f"heuristic/zero-{''.join(zero)}-{sepn[sep]}", heuristic(sep, zero=zero, layers=[Lin(1, 2)], in_shape=(1,)), dict(max_paths=64)))
        out.append((f"heuristic/semi-{sepn[sep]}", heuristic(sep, kind="psd", layers=[Lin(1, 1)], in_shape=(1,)), dict(max_paths=64)))
        out.append((f"heuristic/default-minimum-{sepn[sep]}", heuristic(sep, minimum="default", layers=[Lin(1, 2)], in_shape=(1,)), dict(max_paths=64)))
        for which in ((0,), (1,), (0, 1), (2,), (0, 3)):
            out.append((f"retry/{which}-{sepn[sep]}", retries(which, separate=sep, **two)))
        out.append((f"retry/pair-{sepn[sep]}", retries((0, 1), separate=sep, damp="pair", **two)))
        out.append((f"retry/off-{sepn[sep]}", retries((0,), retry=False, separate=sep, **two)))
        out.append((f"retry/off2-{sepn[sep]}", retries((1,), retry=False, separate=sep, **two)))
        out.append((f"float32/{sepn[sep]}", plain("pair", sep, dtype=torch.float32, layers=[Lin(1, 2)], in_shape=(1,))))
        out.append((f"reloaded/{sepn[sep]}", reloaded(separate=sep, layers=[Lin(1, 2)], in_shape=(1,))))
        out.append((f"two/{sepn[sep]}", two_inverses(separate=sep, layers=[Lin(1, 2)], in_shape=(1,))))
        for first in (False, True):
            out.append((f"computed/{'product-first' if first else 'inverse-first'}-{sepn[sep]}",
                        computed(product_first=first, separate=sep, layers=[Lin(1, 1)], in_shape=(1,), batches=(1, 1))))
    out.append(("computed/forward-only", computed("pair", fisher="forward-only", layers=[Lin(1, 2)], in_shape=(1,), batches=(1, 1))))
    out.append(("rejected", rejected))
    return out
