"""C13: saved KFAC and inverse-KFAC state restores the same operator."""
import numpy as np
import torch
from torch import nn

from symtorch import expr as E

from . import c12
from .c11 import QUERIES, claim
from .kfac_lib import Conv, KProblem, Lin, assemble, dims, fabricated, install, symmetric
from .lib import CURV_ASSUMPTIONS, LossSpec

BOUNDS = {
    "layers": "1-3 Linear / Conv2d layers, factors of size up to 3 x 3, with or without bias, weight or bias only, joint or separate treatment",
    "factors": "all symmetric values (positive semi-definite for inverses), or computed from up to 2 data",
    "histories": "saving before or after a product or query; loading into a fresh, a used or a differently configured operator, or creating "
    "from the state; by reference or from a copy; products of source and target in either order afterwards",
    "mismatches": "loss, reduction, model, layers, parameters, factors of one layer missing or superfluous, any entry missing",
}
ASSUMPTIONS = CURV_ASSUMPTIONS

ONE = dict(layers=[Lin(1, 2)], in_shape=(1,))
TWO = dict(layers=[Lin(1, 1), "tanh", Lin(1, 2)], in_shape=(1,))


def copied(x):
    """What a round trip through a file yields."""
    if isinstance(x, torch.Tensor):
        return x.detach().clone()
    if isinstance(x, dict):
        return type(x)((k, copied(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)) and not isinstance(x, torch.Size):
        return type(x)(copied(v) for v in x)
    return x


def create(P, how, sd, **kw):
    """Operator with the state."""
    from curvlinops import KFACLinearOperator

    if how == "from":
        return KFACLinearOperator.from_state_dict(sd, P.model, P.params, P.data, check_deterministic=False)
    op = P.op(**kw)
    if how == "used":
        op @ torch.eye(P.D, dtype=torch.float64)
        op.trace
    op.load_state_dict(sd)
    return op


def matrix(env, tag, op, K):
    env.true(tag + "shape", tuple(op.shape) == K.shape)
    env.eq(tag + "matrix", op @ torch.eye(len(K), dtype=torch.float64), K)


def saved(how, when, copy=True, approx="expand", fisher="empirical", separate=True, other_model=True, settings=None, use=None, other_data=False,
          problem=None, op_kw=None):
    """A problem, its operator, saved before or after its factors were computed, restored
    for a model with other parameter values (which the state overwrites)."""
    problem = problem or dict(ONE, batches=(1, 1))

    def sc(env):
        P = KProblem(env, **problem)
        cfg = dict(fisher_type=fisher, kfac_approx=approx, separate_weight_and_bias=separate, **(op_kw or {}))
        op = P.op(**cfg)
        K = None if fisher == "mc" else P.assemble(P.factors(approx, fisher, separate), separate)
        I = torch.eye(P.D, dtype=torch.float64)
        if when == "product":
            op @ I
        elif when == "queries":
            op.trace, op.frobenius_norm, op.det
        elif when:
            getattr(op, when)
        if fisher == "mc":
            # defined by its draws: compare the operators
            ref = P.op(**cfg) @ I
        sd = op.state_dict()
        sd = copied(sd) if copy else sd
        Q = KProblem(env, **problem, pf="q" if other_model else "", data_pf="z" if other_data else "")
        new = create(Q, how, sd, **{**cfg, **(settings or {})})
        if other_data and not when:
            # the restored operator computes the factors of its own data
            Kq = np.array(Q.assemble(Q.factors(approx, fisher, separate), separate))
            Kq[...] = [[E.subst(x, _renamed(env, P, Q)) for x in r] for r in Kq]
            matrix(env, "restored/", new, Kq)
            matrix(env, "source/", op, K)
            matrix(env, "restored again/", new, Kq)
            return
        if fisher == "mc":
            env.same("restored", new @ I, ref)
            env.same("source", op @ I, ref)
            return
        if use == "source first":
            matrix(env, "source before/", op, K)
        matrix(env, "restored/", new, K)
        for q in ("trace", "frobenius_norm", "det"):
            claim(env, new, P, K, separate, q, "restored/")
        matrix(env, "source/", op, K)
        for q in ("trace", "det"):
            claim(env, op, P, K, separate, q, "source/")
        for p, q in zip(P.params, Q.params):
            env.same("parameter", q, p)

    return sc


def _renamed(env, P, Q):
    """Parameters of the second model take the values of the first."""
    m = {}
    for (name, kind), _ in P.net.params.items():
        t = ("W" if kind == "weight" else "b") + name.replace(".", "_")
        for a, b in zip(env.sp("q" + t).reshape(-1), env.sp(t).reshape(-1)):
            m[a] = b
    return m


def given(how, separate=True, queries=(), copy=True, select=None, layers=None, in_shape=None, twice=False):
    """Operators with arbitrary factors."""

    def sc(env):
        P, op, f = fabricated(env, layers, in_shape, separate=separate, kind="pd", select=select)
        K = assemble(P.layers(), f, P.pshapes, separate)
        for q in queries:
            claim(env, op, P, K, separate, q, "before/")
        sd = op.state_dict()
        sd = copied(sd) if copy else sd
        Q = KProblem(env, layers, in_shape, batches=(1,), target="const", select=select, pf="q")
        new = create(Q, how, sd, separate_weight_and_bias=separate)
        if twice:
            sd2 = copied(new.state_dict())
            new = create(KProblem(env, layers, in_shape, batches=(1,), target="const", select=select, pf="r"), "load", sd2, separate_weight_and_bias=separate)
        matrix(env, "restored/", new, K)
        for q in QUERIES:
            claim(env, new, P, K, separate, q, "restored/")
        # new factors in the restored operator stay there
        f2 = {k: (None if a is None else symmetric(env, "B" + k, len(a), "pd"), symmetric(env, "H" + k, len(g), "pd")) for k, (a, g) in f.items()}
        install(new, f2, lambda a: env.tensor_of(a))
        matrix(env, "changed/", new, assemble(P.layers(), f2, P.pshapes, separate))
        matrix(env, "source/", op, K)
        for q in ("trace", "frobenius_norm"):
            claim(env, op, P, K, separate, q, "source/")
        # and the saved state is as it was
        third = create(Q, "load", sd, separate_weight_and_bias=separate)
        matrix(env, "restored later/", third, K)

    return sc


def rejected(kind, computed, separate=True):
    """Loading into something else raises an error."""

    def sc(env):
        from curvlinops import KFACLinearOperator

        P = KProblem(env, **TWO, batches=(1,))
        op = P.op(separate_weight_and_bias=separate, fisher_type="forward-only")
        if computed:
            op @ torch.eye(P.D, dtype=torch.float64)
        sd = copied(op.state_dict())
        kw = dict(separate_weight_and_bias=separate, fisher_type="forward-only", check_deterministic=False)
        make = lambda Q, loss=None: KFACLinearOperator(Q.model, loss or Q.loss, Q.params, Q.data, **kw)
        errors = (ValueError, RuntimeError, KeyError)

        def no(name, Q, state=sd, loss=None):
            env.raises(name, lambda: make(Q, loss).load_state_dict(state), errors)
            if loss is None:
                env.raises(name + "/from", lambda: KFACLinearOperator.from_state_dict(state, Q.model, Q.params, Q.data, check_deterministic=False), errors)

        if kind == "loss":
            no("reduction", P, loss=nn.MSELoss(reduction="sum"))
            no("cross-entropy", P, loss=nn.CrossEntropyLoss())
            no("binary cross-entropy", P, loss=nn.BCEWithLogitsLoss())
            no("both", P, loss=nn.CrossEntropyLoss(reduction="sum"))
        elif kind == "model":
            no("wider", KProblem(env, [Lin(1, 2), "tanh", Lin(2, 2)], (1,), batches=(1,), pf="a"))
            no("shallower", KProblem(env, [Lin(1, 2)], (1,), batches=(1,), pf="b"))
            no("no bias", KProblem(env, [Lin(1, 1, bias=False), "tanh", Lin(1, 2)], (1,), batches=(1,), pf="c"))
        elif kind == "parameters":
            for sel in ((0, 1), (2, 3), (0, 2), (0, 1, 2), (1, 2, 3), (3,), (0, 1, 3)):
                no(f"{sel}", KProblem(env, **TWO, batches=(1,), select=sel))
        elif kind == "factors":
            for k in ("input_covariances", "gradient_covariances"):
                for drop in list(sd[k]):
                    no(f"{k} of {drop}", P, {**sd, k: {n: v for n, v in sd[k].items() if n != drop}})
                extra = dict(sd[k])
                extra["other"] = next(iter(sd[k].values()))
                no(f"{k} of another", P, {**sd, k: extra})
        elif kind == "entries":
            for k in ("model_func_state_dict", "loss_type", "loss_reduction", "seed", "fisher_type", "mc_samples", "kfac_approx",
                      "num_per_example_loss_terms", "separate_weight_and_bias", "num_data", "input_covariances", "gradient_covariances"):
                no(k, P, {n: v for n, v in sd.items() if n != k})
        # the source still works
        if computed:
            for q in P.params:
                pass
        env.eq("source", op @ torch.eye(P.D, dtype=torch.float64), P.assemble(P.factors("expand", "forward-only", separate), separate))

    return sc


INVERSE = {
    "scalar": dict(),
    "pair": dict(),
    "heuristic": dict(use_heuristic_damping=True),
    "exact": dict(use_exact_damping=True),
}


def inverse(damp, how, when, cache=True, separate=True, copy=True, two=False):
    """The inverse operator is restored, with its factors and settings."""

    def sc(env):
        from curvlinops import KFACInverseLinearOperator

        d = c12.DAMP["pair" if damp == "pair" else "scalar"](env)[0]
        lo = env.scalar("least", "pos")
        kw = dict(TWO if two else dict(layers=[Lin(1, 1)] if damp == "heuristic" else [Lin(1, 2)], in_shape=(1,)))
        P, op, f = fabricated(env, separate=separate, kind="psd",
                              make=(lambda name, n: c12.spectral(env, name, n)[0]) if damp == "exact" else (lambda name, n: symmetric(env, name, n, "psd")), **kw)
        inv = KFACInverseLinearOperator(op, damping=d, min_damping=lo, cache=cache, **INVERSE[damp])
        ref = KFACInverseLinearOperator(op, damping=d, min_damping=lo, cache=False, **INVERSE[damp])
        I = torch.eye(P.D, dtype=torch.float64)
        if when:
            inv @ I
        expected = ref @ I
        sd = inv.state_dict()
        sd = copied(sd) if copy else sd
        Q = KProblem(env, kw["layers"], kw["in_shape"], batches=(1,), target="const", pf="q")
        A = Q.op(separate_weight_and_bias=separate)
        if how == "from":
            new = KFACInverseLinearOperator.from_state_dict(sd, A)
        else:
            new = KFACInverseLinearOperator(A, **(dict(damping=1.0, cache=not cache) if how == "other" else
                                                  dict(damping=d, min_damping=lo, cache=cache, **INVERSE[damp])))
            new.load_state_dict(sd)
        env.same("restored", new @ I, expected)
        env.same("restored again", new @ I, expected)
        env.same("source", inv @ I, expected)
        env.eq("restored operator", A @ I, assemble(P.layers(), f, P.pshapes, separate))
        # other factors in the restored operator do not reach the source
        f2 = {k: (None if a is None else symmetric(env, "B" + k, len(a), "psd"), symmetric(env, "H" + k, len(g), "psd")) for k, (a, g) in f.items()}
        if damp in ("scalar", "pair"):
            install(A, f2, lambda a: env.tensor_of(a))
            fresh = KFACInverseLinearOperator(A, damping=d)
            rule = c12.DAMP[damp](env)[1]
            M = assemble(P.layers(), c12.damped(f2, rule), P.pshapes, separate)
            c12.inverts(env, fresh, M, P.pshapes, ("eye",), "other factors/")
            env.same("source later", inv @ I, expected)

    return sc


def inverse_rejected(env):
    from curvlinops import KFACInverseLinearOperator

    P, op, f = fabricated(env, separate=True, kind="psd", **TWO)
    inv = KFACInverseLinearOperator(op, damping=env.scalar("delta", "pos"))
    I = torch.eye(P.D, dtype=torch.float64)
    expected = inv @ I
    sd = copied(inv.state_dict())
    errors = (ValueError, RuntimeError, KeyError)
    for sel in ((0, 1), (2, 3), (0, 1, 2)):
        Q = KProblem(env, **TWO, batches=(1,), target="const", select=sel)
        env.raises(f"parameters {sel}", lambda: KFACInverseLinearOperator(Q.op()).load_state_dict(sd), errors)
        env.raises(f"parameters {sel}/from", lambda: KFACInverseLinearOperator.from_state_dict(sd, Q.op()), errors)
    for k in ("A", "damping", "use_heuristic_damping", "min_damping", "use_exact_damping", "cache", "retry_double_precision",
              "inverse_input_covariances", "inverse_gradient_covariances"):
        bad = {n: v for n, v in sd.items() if n != k}
        env.raises(f"without {k}", lambda: KFACInverseLinearOperator(P.op()).load_state_dict(bad), errors)
    env.same("source", inv @ I, expected)


def configs(tier):
    out = []
    sepn = {True: "sep", False: "joint"}
    hows = ("load", "from", "used")
    for sep in (True, False):
        for how in hows:
            for when in (None, "product", "trace", "det", "queries"):
                for copy in (True, False):
                    out.append((f"computed/{how}-{when}-{'copy' if copy else 'reference'}-{sepn[sep]}", saved(how, when, copy, separate=sep)))
        for how in ("load", "from"):
            out.append((f"other-data/{how}-{sepn[sep]}", saved(how, None, False, separate=sep, other_data=True)))
            out.append((f"source-first/{how}-{sepn[sep]}", saved(how, None, False, separate=sep, use="source first")))
            for fisher in ("type-2", "forward-only", "mc"):
                for when in (None, "product"):
                    out.append((f"fisher/{fisher}-{how}-{when}-{sepn[sep]}", saved(
                        how, when, fisher=fisher, separate=sep, problem=dict(layers=[Lin(1, 1)], in_shape=(1,), batches=(1, 1)),
                        op_kw=dict(mc_samples=2) if fisher == "mc" else None)))
            for red in ("mean", "sum"):
                for loss in ("mse", "ce", "bce"):
                    out.append((f"loss/{loss}-{red}-{how}-{sepn[sep]}", saved(
                        how, None, fisher="type-2", separate=sep,
                        problem=dict(layers=[Lin(1, 2)], in_shape=(1,), batches=(1,), loss=loss, reduction=red, **(dict(target="const") if loss == "bce" else {})))))
            rows = dict(layers=[Lin(1, 1)], in_shape=(2, 1), batches=(1, 1))
            for when in (None, "product"):
                out.append((f"settings/approx-{how}-{when}-{sepn[sep]}", saved(how, when, approx="reduce", separate=sep, problem=rows, settings=dict(kfac_approx="expand"))))
                out.append((f"settings/terms-{how}-{when}-{sepn[sep]}", saved(how, when, separate=sep, problem=rows, op_kw=dict(num_per_example_loss_terms=2),
                                                                            settings=dict(num_per_example_loss_terms=1))))
                out.append((f"settings/fisher-{how}-{when}-{sepn[sep]}", saved(how, when, separate=sep, settings=dict(fisher_type="type-2"))))
                out.append((f"settings/separate-{how}-{when}-{sepn[sep]}", saved(how, when, separate=sep, settings=dict(separate_weight_and_bias=not sep))))
                small = dict(layers=[Lin(1, 1)], in_shape=(1,), batches=(1,))
                out.append((f"settings/data-{how}-{when}-{sepn[sep]}", saved(how, when, separate=sep, problem=dict(small, num_data=5), op_kw=dict(num_per_example_loss_terms=1), settings=dict(num_data=3))))
                out.append((f"settings/seed-{how}-{when}-{sepn[sep]}", saved(how, when, fisher="mc", separate=sep, problem=small, op_kw=dict(seed=7, mc_samples=1),
                                                                           settings=dict(seed=8))))
                out.append((f"settings/samples-{how}-{when}-{sepn[sep]}", saved(how, when, fisher="mc", separate=sep, problem=small, op_kw=dict(mc_samples=2),
                                                                              settings=dict(mc_samples=1))))
        nets = {"one": ONE, "two": TWO, "nobias": dict(layers=[Lin(2, 2, bias=False)], in_shape=(2,)),
                "conv": dict(layers=[Conv(1, 2, 1), "last", "mean"], in_shape=(1, 1, 2)),
                "nested": dict(layers=[("seq", [Lin(1, 1), "tanh"]), ("seq", [Lin(1, 1)])], in_shape=(1,))}
        for nm, kw in nets.items():
            for how in ("load", "from"):
                for copy in (True, False):
                    out.append((f"given/{nm}-{how}-{'copy' if copy else 'reference'}-{sepn[sep]}", given(how, sep, copy=copy, **kw)))
        for sel in ((1, 0, 3, 2), (0,), (1,), (3, 0), (1, 3), (2, 3)):
            out.append((f"given/select-{''.join(map(str, sel))}-{sepn[sep]}", given("load", sep, select=sel, **TWO)))
            out.append((f"given/select-from-{''.join(map(str, sel))}-{sepn[sep]}", given("from", sep, select=sel, **TWO)))
        for q in QUERIES:
            out.append((f"given/after-{q}-{sepn[sep]}", given("load", sep, queries=(q,), **ONE)))
        out.append((f"given/after-all-{sepn[sep]}", given("from", sep, queries=QUERIES, copy=False, **ONE)))
        out.append((f"given/twice-{sepn[sep]}", given("from", sep, queries=QUERIES, twice=True, **ONE)))
        for comp in (True, False):
            for kind in ("loss", "model", "parameters", "factors", "entries"):
                if kind == "factors" and not comp:
                    continue
                out.append((f"rejected/{kind}-{'computed' if comp else 'fresh'}-{sepn[sep]}", rejected(kind, comp, sep)))
        for damp in INVERSE:
            for how in ("load", "from", "other"):
                for when in (False, True):
                    for cache in (True, False):
                        t = f"inverse/{damp}-{how}-{'after' if when else 'before'}-{'cached' if cache else 'uncached'}-{sepn[sep]}"
                        if damp == "heuristic" and not sep and (how != "from" or not cache):
                            continue
                        out.append((t, inverse(damp, how, when, cache, sep)))
                        if damp == "scalar" and cache:
                            out.append((t + "-reference", inverse(damp, how, when, cache, sep, copy=False)))
                            out.append((t + "-two", inverse(damp, how, when, cache, sep, two=True)))
    out.append(("inverse/rejected", inverse_rejected))
    return out
