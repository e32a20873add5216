"""C11: trace, determinant, log-determinant and Frobenius norm are those of the matrix."""
import itertools

import numpy as np
import torch

from symtorch import expr as E
from symtorch.linalg import det as dense_det

from .kfac_lib import Conv, KProblem, Lin, fabricated, install, symmetric
from .lib import CURV_ASSUMPTIONS, numel

BOUNDS = {
    "layers": "1-3 Linear / Conv2d layers, factors of size up to 4 x 4 (blocks of up to 5 x 5 for determinants), with or without bias, "
    "weight or bias only, joint or separate treatment",
    "factors": "all symmetric values (trace, determinant, norm); all positive definite values (log-determinant)",
    "histories": "every order of three queries or products; a product before or after; new factors loaded in between; factors computed from data",
}
ASSUMPTIONS = CURV_ASSUMPTIONS + ["determinants and logarithms are exact real functions"]

QUERIES = ("trace", "det", "logdet", "frobenius_norm")


def blocks(P, K, separate):
    """Index sets of the diagonal blocks of the matrix."""
    off = np.cumsum([0] + [numel(s) for s in P.pshapes])
    out = []
    for _, pos in P.layers():
        sets = [list(range(off[p], off[p + 1])) for p in pos.values()]
        out += [sum(sets, [])] if not separate and len(sets) == 2 else sets
    return out


def block_det(P, K, separate):
    d = E.ONE
    for ix in blocks(P, K, separate):
        d = E.mul(d, dense_det(K[np.ix_(ix, ix)]))
    return d


def claim(env, op, P, K, separate, what, tag=""):
    if what == "product":
        env.eq(tag + "op@eye", op @ torch.eye(P.D, dtype=torch.float64), K)
        return
    v = getattr(op, what)
    env.true(tag + what + "/scalar", isinstance(v, torch.Tensor) and v.ndim == 0)
    if what == "trace":
        env.eq(tag + "trace", v, E.esum([K[i, i] for i in range(P.D)]))
    elif what == "det":
        env.eq(tag + "det", v, block_det(P, K, separate))
    elif what == "logdet":
        # the logarithm of the determinant, compared through its exponential
        env.eq(tag + "exp(logdet)", v.clone().exp(), block_det(P, K, separate))
    else:
        env.eq(tag + "norm^2", v.clone().square(), E.esum([E.mul(x, x) for x in K.reshape(-1)]))
        env.same(tag + "norm", v.clone().abs(), v)


def single(what, kind="any", separate=True, again=True, **kw):
    def sc(env):
        P, op, f = fabricated(env, separate=separate, kind=kind, **kw)
        K = P.assemble(f, separate)
        for r in range(2 if again else 1):
            claim(env, op, P, K, separate, what, f"{r}/" if r else "")

    return sc


def orders(first, kind="pd", separate=True, **kw):
    """Every order of queries and products."""

    def sc(env):
        P, op, f = fabricated(env, separate=separate, kind=kind, **kw)
        K = P.assemble(f, separate)
        acts = ("product",) + QUERIES
        seq = [acts[first], acts[env.choose(len(acts))], acts[env.choose(len(acts))]]
        for n, a in enumerate(seq):
            claim(env, op, P, K, separate, a, f"{n}:")

    return sc


def reloaded(what, separate=True, **kw):
    """After new factors are loaded, the answers are those of the new matrix."""

    def sc(env):
        P, op, f = fabricated(env, separate=separate, kind="pd", **kw)
        claim(env, op, P, P.assemble(f, separate), separate, what, "old/")
        f2 = {k: (None if a is None else symmetric(env, "B" + k, len(a), "pd"), symmetric(env, "H" + k, len(g), "pd"))
              for k, (a, g) in f.items()}
        install(op, f2, lambda a: env.tensor_of(a))
        claim(env, op, P, P.assemble(f2, separate), separate, what, "new/")
        claim(env, op, P, P.assemble(f2, separate), separate, "product", "new/")

    return sc


def computed(what, first, approx="expand", fisher="empirical", separate=True, **pk):
    """Factors computed from data by the query itself."""

    def sc(env):
        P = KProblem(env, **pk)
        op = P.op(fisher_type=fisher, kfac_approx=approx, separate_weight_and_bias=separate)
        K = P.assemble(P.factors(approx, fisher, separate), separate)
        if first:
            claim(env, op, P, K, separate, "product")
        claim(env, op, P, K, separate, what)
        if not first:
            claim(env, op, P, K, separate, "product")
        claim(env, op, P, K, separate, what, "again/")

    return sc


NETS = {
    # name: (layers, input shape, determinants within bounds)
    "1x1": ([Lin(1, 1)], (1,)),
    "1x2": ([Lin(1, 2)], (1,)),
    "2x1": ([Lin(2, 1)], (2,)),
    "2x2": ([Lin(2, 2)], (2,)),
    "1x3": ([Lin(1, 3)], (1,)),
    "3x1": ([Lin(3, 1)], (3,)),
    "2x1-1x2": ([Lin(2, 1), "tanh", Lin(1, 2)], (2,)),
    "nobias": ([Lin(2, 2, bias=False)], (2,)),
    "mixed": ([Lin(1, 2, bias=False), "tanh", Lin(2, 1)], (1,)),
    "deep": ([Lin(1, 1), "tanh", Lin(1, 2, bias=False), "relu", Lin(2, 1)], (1,)),
    "conv": ([Conv(1, 1, (1, 2)), "last", "mean"], (1, 1, 3)),
    "conv2": ([Conv(2, 2, 1), "last", "mean"], (2, 1, 1)),
    "conv-lin": ([Conv(1, 2, (2, 1)), "tanh", "last", "mean", Lin(2, 1)], (1, 2, 1)),
    "nested": ([("seq", [Lin(2, 1), "tanh"]), ("seq", [Lin(1, 2)])], (2,)),
}


def configs(tier):
    out = []
    sepn = {True: "sep", False: "joint"}
    for name, (layers, sh) in NETS.items():
        for sep in (True, False):
            for q in QUERIES:
                big = max((1 if L.has_bias and not sep else 0) + int(np.prod(L.wshape()[1:])) for L in layers if hasattr(L, "o"))                     if not any(isinstance(L, tuple) for L in layers) else 3
                o = max([L.o for L in layers if hasattr(L, "o")] + [2 if name == "nested" else 0])
                if q in ("det", "logdet") and (big * o > (6 if tier == "thorough" else 4) and not (big * o <= 4)):
                    continue
                out.append((f"{name}/{q}-{sepn[sep]}", single(q, "pd" if q == "logdet" else "any", sep, layers=layers, in_shape=sh)))
    two = dict(layers=[Lin(1, 1), "tanh", Lin(1, 2)], in_shape=(1,))
    for sep in (True, False):
        for sel in ((0, 1), (1, 0), (2, 3), (0,), (1,), (3,), (0, 3), (1, 2), (3, 1), (3, 2, 1, 0), (2, 0), (1, 0, 3)):
            for q in QUERIES:
                out.append((f"params/{''.join(map(str, sel))}-{q}-{sepn[sep]}", single(q, "pd" if q == "logdet" else "any", sep, select=sel, **two)))
        for first in range(5):
            out.append((f"orders/{first}-{sepn[sep]}", orders(first, separate=sep, layers=[Lin(1, 2)], in_shape=(1,)), dict(max_paths=64)))
        for q in QUERIES:
            out.append((f"reloaded/{q}-{sepn[sep]}", reloaded(q, sep, layers=[Lin(1, 2)], in_shape=(1,))))
    for q in ("trace", "det", "frobenius_norm"):
        for first in (False, True):
            out.append((f"computed/{q}-{'product-first' if first else 'query-first'}",
                        computed(q, first, layers=[Lin(1, 1)], in_shape=(1,), batches=(1, 1), separate=first)))
    out.append(("computed/forward-only", computed("det", False, fisher="forward-only", layers=[Lin(1, 2)], in_shape=(1,), batches=(1, 1))))
    out.append(("computed/conv", computed("trace", False, approx="reduce", layers=[Conv(1, 1, (1, 2)), "last", "mean"], in_shape=(1, 1, 3), batches=(1,))))
    return out
