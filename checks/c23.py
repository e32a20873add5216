"""C23: square roots of the loss Hessian square to the loss Hessian."""
import torch
from torch import nn

from symtorch import expr as E

from .lib import LossSpec

BOUNDS = {
    "outputs": "all real predictions with C = 1-4 (mse, bce; thorough 6) and 1-3 (cross-entropy; thorough 4) outputs",
    "targets": "all real (mse), all classes (cross-entropy), all binary (bce) targets; non-binary bce targets refused",
    "losses": "MSELoss, CrossEntropyLoss, BCEWithLogitsLoss with mean and sum reduction, in float64 and float32 "
    "(float32 with exact arithmetic); other losses, reductions and shapes are refused",
}
ASSUMPTIONS = ["exact real arithmetic", "soft-max and sigmoid are handled exactly through the exponential's positivity"]


def scenario(kind, C, red, dtype=torch.float64, target="default", repeat=False):
    def sc(env):
        from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

        L = LossSpec(kind, C, red)
        if dtype is not torch.float64:
            env.exact_casts()
        f = env.tensor("f", (1, C), dtype=dtype)
        if kind == "ce":
            y = env.tensor("y", (1,), ("class", C), torch.int64)
        elif kind == "bce":
            y = env.tensor("y", (1, C), "bit", dtype)
        else:
            y = env.tensor("y", (1, C), dtype=dtype)
        F, Y = list(env.sp("f")[0]), list(env.sp("y").reshape(-1))
        H = L.derivs(F, Y)[2]
        if red == "mean" and kind in ("mse", "bce"):
            H = [[E.div(h, E.const(C)) for h in r] for r in H]
        for rep in range(2 if repeat else 1):
            S = loss_hessian_matrix_sqrt(f, y, L.module())
            env.true(f"form{rep}", tuple(S.shape) == (C, C) and S.dtype == dtype)
            env.eq(f"S S^T = H {rep}", S @ S.T, H)
        env.eq("prediction unchanged", f, env.sp("f"))
        env.eq("target unchanged", y, env.sp("y"))

    return sc


def matches_loss(kind, C, red):
    """Against the Hessian PyTorch's loss has for a one-datum batch."""

    def sc(env):
        from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

        L = LossSpec(kind, C, red)
        f = env.tensor("f", (1, C), requires_grad=True)
        y = (
            env.tensor("y", (1,), ("class", C), torch.int64)
            if kind == "ce"
            else env.tensor("y", (1, C), "bit" if kind == "bce" else "real")
        )
        mod = L.module()
        S = loss_hessian_matrix_sqrt(f.detach(), y, mod)
        (g,) = torch.autograd.grad(mod(f, y), f, create_graph=True)
        rows = [torch.autograd.grad(g[0, c], f, retain_graph=True)[0][0] for c in range(C)]
        env.same("S S^T = autograd Hessian", S @ S.T, torch.stack(rows))

    return sc


def nonbinary(C, pos):
    def sc(env):
        from curvlinops.kfac_utils import loss_hessian_matrix_sqrt

        f = env.tensor("f", (1, C))
        v = env.scalar("v", "real")
        e = env.sp("v")[()]
        env.assume(E.band(E.bnot(E.eq(e, E.ZERO)), E.bnot(E.eq(e, E.ONE))))
        y = env.tensor("y", (1, C), "bit")
        y[0, pos] = v
        for red in ("mean", "sum"):
            env.raises(red, lambda: loss_hessian_matrix_sqrt(f, y, nn.BCEWithLogitsLoss(reduction=red)), NotImplementedError)

    return sc


def refusals():
    def sc(env):
        from curvlinops.kfac_utils import loss_hessian_matrix_sqrt as root

        C = 2
        f = env.tensor("f", (1, C))
        y = env.tensor("y", (1, C), "bit")
        c = env.tensor("c", (1,), ("class", C), torch.int64)
        f2, y2 = env.tensor("f2", (2, C)), env.tensor("y2", (2, C), "bit")
        c2 = env.tensor("c2", (2,), ("class", C), torch.int64)
        f3 = env.tensor("f3", (1, C, 2))
        for red in ("mean", "sum"):
            ls = {
                "mse": (nn.MSELoss(reduction=red), y, y2),
                "ce": (nn.CrossEntropyLoss(reduction=red), c, c2),
                "bce": (nn.BCEWithLogitsLoss(reduction=red), y, y2),
            }
            for k, (L, t, t2) in ls.items():
                env.raises(f"{k} {red} 1d", lambda: root(f[0], t, L), ValueError)
                env.raises(f"{k} {red} two data", lambda: root(f2, t2, L), ValueError)
                env.raises(f"{k} {red} two predictions", lambda: root(f2, t, L), ValueError)
                env.raises(f"{k} {red} two labels", lambda: root(f, t2, L), ValueError)
                env.raises(f"{k} {red} 3d", lambda: root(f3, t, L), ValueError)
            for L in (nn.L1Loss(reduction=red), nn.SmoothL1Loss(reduction=red), nn.HuberLoss(reduction=red), nn.BCELoss(reduction=red)):
                env.raises(f"{type(L).__name__} {red}", lambda: root(f, y, L), NotImplementedError)
            env.raises(f"nll {red}", lambda: root(f, c, nn.NLLLoss(reduction=red)), NotImplementedError)
        for L in (nn.MSELoss(reduction="none"), nn.BCEWithLogitsLoss(reduction="none")):
            env.raises(f"{type(L).__name__} none", lambda: root(f, y, L), (KeyError, ValueError, NotImplementedError))

    return sc


def configs(tier):
    out = []
    for red in ("mean", "sum"):
        for kind in ("mse", "ce", "bce"):
            for C in (1, 2, 3) + ((4,) if tier == "thorough" or kind != "ce" else ()) + ((5, 6) if tier == "thorough" and kind != "ce" else ()):
                out.append((f"{kind}/{red}/C{C}", scenario(kind, C, red, repeat=C == 2)))
            out.append((f"{kind}/{red}/float32", scenario(kind, 2, red, torch.float32)))
            for C in (2, 3):
                out.append((f"{kind}/{red}/autograd/C{C}", matches_loss(kind, C, red)))
    for C, pos in ((1, 0), (2, 0), (2, 1), (3, 1)):
        out.append((f"bce/non-binary/C{C}/{pos}", nonbinary(C, pos)))
    out.append(("refusals", refusals()))
    return out
