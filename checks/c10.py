"""C10: KFAC's Kronecker factors are the documented ones."""
import numpy as np
import torch

from symtorch import expr as E

from .kfac_lib import Conv, KProblem, Lin
from .lib import CURV_ASSUMPTIONS, apply_spec, claim_product, probe

BOUNDS = {
    "layers": "1-3 Linear / Conv2d layers of width <= 3 (kernels up to 2 x 2 on images up to 3 x 4; stride, padding incl. "
    "'same'/'valid', dilation, groups), tanh/sigmoid/ReLU (in-place too)/identity, flatten, mean over positions, nested modules",
    "data": "1-4 data in 1-4 mini-batches, 1-3 positions, 1-2 loss terms per datum",
    "options": "all Fisher types, expand/reduce, joint/separate bias, all reductions of MSE/CE/BCE, parameter order and subset, "
    "dict inputs, given numbers of data and loss terms; MC-Fisher type in expectation with 1-2 samples",
    "values": "all real values of inputs, parameters, targets and vectors",
}
ASSUMPTIONS = CURV_ASSUMPTIONS


def product(approx="expand", fisher="type-2", separate=True, modes=("eye",), op_kw=None, again=False, **pk):
    def sc(env):
        layers, shape = pk["layers"], pk["in_shape"]
        P = KProblem(env, **pk)
        kw = dict(fisher_type=fisher, kfac_approx=approx, separate_weight_and_bias=separate)
        kw.update(op_kw or {})
        op = P.op(**kw)
        K = P.assemble(P.factors(approx, fisher, separate), separate)
        dt = pk.get("dtype") or torch.float64
        env.true("shape", tuple(op.shape) == (P.D, P.D))
        I = torch.eye(P.D, dtype=dt)
        if fisher == "mc":
            env.tol = 1e-6
            env.eq("mean", env.expectation(lambda: P.op(**kw) @ I), K.reshape(-1))
            return
        for m in modes:
            if m == "eye":
                env.eq("op@eye", op @ I, K)
            else:
                cols, fmt = m
                x, sx = probe(env, f"v{fmt[0]}{cols}", P.pshapes, cols, fmt, dt)
                claim_product(env, f"op@{fmt}{cols}", op @ x, K, sx, P.pshapes, fmt, dt)
        if again:
            x, sx = probe(env, "again", P.pshapes, None, "tensor", dt)
            claim_product(env, "again", op @ x, K, sx, P.pshapes, "tensor", dt)
            claim_product(env, "adjoint", op.adjoint() @ x, K, sx, P.pshapes, "tensor", dt)

    return sc


def configs(tier):
    out = []

    def add(name, sc=None, **kw):
        out.append((name, sc or product(**kw)))

    one = [Lin(2, 2)]
    sepn = {True: "sep", False: "joint"}
    for loss in ("mse", "ce", "bce"):
        t = dict(target="const") if loss == "bce" else {}
        for red in ("mean", "sum"):
            for fisher in ("type-2", "empirical", "forward-only"):
                for sep in (True, False):
                    add(f"lin/{loss}-{red}-{fisher}-{sepn[sep]}", layers=one, in_shape=(2,), loss=loss, reduction=red,
                        fisher=fisher, separate=sep, **t)
            add(f"lin/{loss}-{red}-mc", layers=[Lin(1, 2)], in_shape=(1,), batches=(1, 1), loss=loss, reduction=red, fisher="mc", **t)
            add(f"lin/{loss}-{red}-mc2", layers=[Lin(1, 2)], in_shape=(1,), batches=(1,), loss=loss, reduction=red, fisher="mc",
                op_kw=dict(mc_samples=2), separate=False, **t)
            # several positions / loss terms per datum
            last = [Lin(2, 2), "first"] if loss == "ce" else [Lin(2, 2)]
            for approx in ("expand", "reduce"):
                for fisher in ("type-2", "empirical", "mc"):
                    if loss != "mse" and approx == "reduce" and fisher == "type-2":
                        continue
                    if fisher == "mc":
                        lay, sh, ba = ([Lin(1, 2)] + (["first"] if loss == "ce" else [])), (2, 1), (1,)
                    elif approx == "reduce" and fisher == "empirical" and loss != "ce":
                        lay, sh, ba = [Lin(1, 2)], (2, 1), (1, 1)
                    else:
                        lay, sh, ba = last, (2, 2), (1, 1)
                    add(f"rows/{loss}-{red}-{approx}-{fisher}", layers=lay, in_shape=sh, batches=ba, loss=loss, reduction=red,
                        approx=approx, fisher=fisher, separate=loss != "mse", **t)
        # positions are averaged before the loss
        for approx in ("expand", "reduce"):
            for fisher in ("type-2", "empirical"):
                add(f"pool/{loss}-{approx}-{fisher}", layers=[Lin(2, 2), "mean"], in_shape=(2, 2), batches=(1, 1), loss=loss, approx=approx,
                    fisher=fisher, separate=approx == "reduce", **t)
        add(f"pool-act/{loss}", layers=[Lin(2, 2), "tanh", "mean"], in_shape=(2, 2), batches=(1,), loss=loss, approx="reduce", **t)
        add(f"C1/{loss}", layers=[Lin(2, 1)], in_shape=(2,), loss=loss, fisher="empirical", **t)
        add(f"C1/{loss}-2", layers=[Lin(2, 1)], in_shape=(2,), loss=loss, fisher="type-2", reduction="sum", **t)
        add(f"C3/{loss}", layers=[Lin(1, 3)], in_shape=(1,), loss=loss, fisher="type-2", **t)
    # nets
    for act in ("tanh", "relu", "sigmoid", "relu_", "id"):
        for loss in ("mse", "ce"):
            for fisher in ("type-2", "empirical"):
                small = fisher == "empirical" and loss == "mse"
                add(f"net/{act}-{loss}-{fisher}", layers=[Lin(1, 2), act, Lin(2, 1)] if small else [Lin(2, 2), act, Lin(2, 2)], in_shape=(1,) if small else (2,), batches=(1, 1), loss=loss, fisher=fisher,
                    separate=fisher == "empirical")
    add("net/deep", layers=[Lin(1, 1), "tanh", Lin(1, 1, bias=False), "sigmoid", Lin(1, 1)], in_shape=(1,), batches=(1, 2))
    add("net/deep-joint", layers=[Lin(1, 2), "tanh", Lin(2, 1, bias=False), "sigmoid", Lin(1, 1)], in_shape=(1,), batches=(1, 1), separate=False,
        fisher="empirical")
    add("net/nested", layers=[("seq", [Lin(2, 1), "tanh"]), ("seq", [("seq", [Lin(1, 2)])])], in_shape=(2,), batches=(1, 1), separate=False)
    add("net/forward-only", layers=[Lin(2, 2), "tanh", Lin(2, 1)], in_shape=(2,), batches=(2, 1), fisher="forward-only", separate=False)
    add("net/mc", layers=[Lin(1, 1), "tanh", Lin(1, 2)], in_shape=(1,), batches=(1, 1), fisher="mc", op_kw=dict(mc_samples=2))
    add("net/mc-ce", layers=[Lin(1, 1), "tanh", Lin(1, 2)], in_shape=(1,), batches=(1,), fisher="mc", loss="ce", separate=False)
    # convolutions
    convs = {
        "1x1": (Conv(2, 2, 1), (2, 2, 1)),
        "2x2": (Conv(1, 2, 2), (1, 2, 2)),
        "2x1-3x2": (Conv(1, 1, (2, 1)), (1, 3, 2)),
        "stride": (Conv(1, 1, (1, 2), stride=(1, 2)), (1, 2, 4)),
        "pad": (Conv(1, 1, (2, 1), padding=(1, 0)), (1, 2, 2)),
        "pad-int": (Conv(1, 1, 2, padding=1, bias=False), (1, 1, 2)),
        "dil": (Conv(1, 1, (2, 1), dilation=(2, 1)), (1, 4, 1)),
        "groups": (Conv(2, 2, 1, groups=2), (2, 1, 2)),
        "groups2": (Conv(2, 4, (1, 2), groups=2, bias=False), (2, 1, 2)),
        "valid": (Conv(1, 1, (2, 1), padding="valid"), (1, 3, 1)),
        "same": (Conv(1, 1, (3, 1), padding="same"), (1, 2, 1)),
        "same-dil": (Conv(1, 1, (1, 3), padding="same", dilation=(1, 2)), (1, 1, 3)),
        "all": (Conv(2, 2, (1, 2), stride=(1, 2), padding=(0, 1), dilation=(1, 2), groups=2), (2, 1, 3)),
    }
    for k, (L, sh) in convs.items():
        for approx in ("expand", "reduce"):
            add(f"conv/{k}-{approx}", layers=[L, "last"], in_shape=sh, batches=(1, 1), approx=approx, separate=approx == "expand")
        add(f"conv/{k}-pool", layers=[L, "last", "mean"], in_shape=sh, batches=(1, 1), approx="expand", fisher="empirical", separate=False, reduction="sum")
    for approx in ("expand", "reduce"):
        add(f"conv/net-{approx}", layers=[Conv(1, 2, (1, 2)), "tanh", "last", "mean", Lin(2, 1)], in_shape=(1, 1, 3), batches=(1, 1), approx=approx)
        add(f"conv/flat-{approx}", layers=[Conv(1, 1, (1, 2)), "tanh", "flatten", Lin(2, 2)], in_shape=(1, 1, 3), batches=(1, 1), approx=approx, loss="ce",
            fisher="empirical", separate=False)
        add(f"conv/two-{approx}", layers=[Conv(1, 1, (1, 2)), "relu", Conv(1, 1, 1), "flatten"], in_shape=(1, 1, 3), batches=(1, 1), approx=approx, fisher="type-2")
        add(f"conv/seg-{approx}", layers=[Conv(1, 2, 1)], in_shape=(1, 1, 2), batches=(1, 1), approx=approx, fisher="empirical", loss="ce")
        add(f"conv/mc-{approx}", layers=[Conv(1, 1, (1, 2)), "last", "mean"], in_shape=(1, 1, 3), batches=(1, 1), approx=approx, fisher="mc")
    # data
    for sep in (True, False):
        for fisher in ("type-2", "empirical"):
            for ba in ((1,), (3,), (1, 2), (2, 1, 1), (1, 1, 1, 1)):
                add(f"data/{ba}-{fisher}-{sepn[sep]}", layers=[Lin(1, 2)], in_shape=(1,), batches=ba, separate=sep, fisher=fisher)
            add(f"data/rows-uneven-{fisher}-{sepn[sep]}", layers=[Lin(1, 1)], in_shape=(3, 1), batches=(2, 1), separate=sep, fisher=fisher)
            add(f"data/dict-{fisher}-{sepn[sep]}", layers=[Lin(1, 2)], in_shape=(1,), batches=(1, 2), separate=sep, fisher=fisher, dict_input=True)
            add(f"data/N-{fisher}-{sepn[sep]}", layers=[Lin(1, 2)], in_shape=(1,), batches=(1, 2), separate=sep, fisher=fisher, num_data=7,
                op_kw=dict(num_per_example_loss_terms=1))
    add("data/terms", layers=[Lin(1, 2)], in_shape=(2, 1), batches=(1, 2), op_kw=dict(num_per_example_loss_terms=2))
    add("data/terms-ce", layers=[Lin(1, 2), "first"], in_shape=(2, 1), batches=(1, 1), loss="ce", op_kw=dict(num_per_example_loss_terms=2), fisher="empirical")
    add("data/rows2", layers=[Lin(1, 2)], in_shape=(1, 2, 1), batches=(1, 1))
    add("data/rows2-ce", layers=[Lin(1, 2), "first"], in_shape=(2, 1, 1), batches=(1, 1), loss="ce", fisher="empirical")
    add("data/progressbar", layers=one, in_shape=(2,), op_kw=dict(progressbar=True))
    add("data/checked", layers=[Lin(1, 1)], in_shape=(1,), op_kw=dict(check_deterministic=True), again=True)
    add("data/float32", layers=one, in_shape=(2,), dtype=torch.float32, modes=((2, "tensor"),))
    # parameters: order and subsets; keys are in order of the modules, weight before bias
    two = [Lin(2, 1), "tanh", Lin(1, 2)]
    for sep in (True, False):
        for sel in ((3, 2, 1, 0), (1, 0, 3, 2), (2, 0, 3, 1), (0, 1), (2, 3), (0,), (1,), (3,), (0, 3), (1, 2), (3, 1), (2, 1, 0), (3, 0, 1)):
            add(f"params/{''.join(map(str, sel))}-{sepn[sep]}", layers=two, in_shape=(2,), batches=(1, 1), separate=sep, select=sel,
                modes=("eye",))
        add(f"params/frozen-{sepn[sep]}", layers=two, in_shape=(2,), batches=(1, 1), separate=sep, select=(2, 3), frozen=(0, 1))
        add(f"params/no-bias-{sepn[sep]}", layers=[Lin(2, 2, bias=False)], in_shape=(2,), separate=sep)
        add(f"params/conv-{sepn[sep]}", layers=[Conv(1, 2, (1, 2)), "last", "mean"], in_shape=(1, 1, 3), batches=(1, 1), separate=sep, select=(1, 0),
            modes=((None, "list"), (2, "list")))
        add(f"modes/{sepn[sep]}", layers=two, in_shape=(2,), batches=(1,), separate=sep, select=(2, 0, 3, 1), again=True, loss="mse",
            modes=((None, "tensor"), (1, "tensor"), (3, "tensor"), (None, "list"), (1, "list"), (2, "list")), fisher="forward-only")
        add(f"modes/joint-conv-{sepn[sep]}", layers=[Conv(2, 2, (2, 1), groups=2), "last", "mean"], in_shape=(2, 2, 1), batches=(1,), separate=sep, again=True,
            modes=((None, "tensor"), (2, "tensor"), (None, "list"), (2, "list")), fisher="forward-only")
        add(f"modes/lin-{sepn[sep]}", layers=[Lin(1, 2)], in_shape=(1,), batches=(1,), separate=sep, again=True,
            modes=((None, "tensor"), (2, "list")), fisher="empirical")
    return out
