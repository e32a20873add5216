"""C06: gradient_and_loss is the normalised risk and its gradient."""
import torch

from .lib import CURV_ASSUMPTIONS, CURV_BOUNDS, Problem, Reiter, linear_net

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS

OPS = ("HessianLinearOperator", "GGNLinearOperator", "EFLinearOperator", "FisherMCLinearOperator")


def scenario(op="HessianLinearOperator", data=None, op_kw=None, func=False, between=False, **pk):
    def sc(env):
        import curvlinops

        P = Problem(env, order=1 if pk.get("model") is None else 1, **pk)
        model = P.model
        if func:
            model = lambda X: P.model(X)
        d = data(P.data) if data else P.data
        A = getattr(curvlinops, op)(model, P.loss, P.params, d, **P.kwargs(**(op_kw or {})))
        g0, l0 = P.grad_loss()
        dt = pk.get("dtype") or torch.float64
        for r in range(2):
            if between and r:
                A @ torch.ones(P.D, dtype=dt)
            grads, loss = A.gradient_and_loss()
            env.true(
                f"form{r}",
                isinstance(loss, torch.Tensor)
                and loss.ndim == 0
                and loss.dtype == dt
                and not loss.requires_grad
                and loss.grad_fn is None
                and len(grads) == len(P.params)
                and all(
                    tuple(g.shape) == tuple(p.shape) and g.dtype == p.dtype and not g.requires_grad and g.grad_fn is None
                    for g, p in zip(grads, P.params)
                ),
            )
            env.eq(f"loss{r}", loss, l0)
            o = 0
            for i, p in enumerate(P.params):
                n = p.numel()
                env.eq(f"grad{r}[{i}]", grads[i], P.split(g0)[i])
                o += n
        env.true("no .grad", all(p.grad is None for p in P.params))

    return sc


def configs(tier):
    out = []

    def add(name, **kw):
        out.append((name, scenario(**kw)))

    for loss in ("mse", "ce", "bce", "jet"):
        for red in ("mean", "sum"):
            for op in OPS[:2] if loss == "jet" else OPS:
                t = dict(target="const") if loss == "bce" else {}
                add(f"{op[:4]}/{loss}-{red}", op=op, loss=loss, reduction=red, between=True, **t)
            add(f"N/{loss}-{red}", loss=loss, reduction=red, num_data="symbolic", batches=(1, 2))
            add(f"rows/{loss}-{red}", loss=loss, reduction=red, extra=(2,), batches=(2, 1), op=OPS[loss == "mse"])
            add(f"rows2/{loss}-{red}", loss=loss, reduction=red, extra=(1, 2), batches=(1, 2), shapes=((2,),))
        add(f"net/{loss}" if loss != "jet" else "batches11111", loss=loss, batches=(1, 1) if loss != "jet" else (1,) * 5,
            **({} if loss == "jet" else dict(model=linear_net())))
        add(f"batches24/{loss}", loss=loss, batches=(2, 4), shapes=((2,),))
        add(f"flat/{loss}", loss=loss, extra=(2,), flat=True, batches=(2, 1), shapes=((2,),), op=OPS[loss != "jet"])
        add(f"C3/{loss}", loss=loss, C=3, batches=(1, 2))
    add("C1/mse", C=1)
    add("scalar-param", shapes=((), (2,)))
    add("matrix-params", shapes=((2, 2), (1, 1, 1)), batches=(1, 1))
    add("reordered", shapes=((1,), (2,), (1, 2)), perm=(2, 0, 1))
    add("partial", shapes=((1,), (2,), (1, 2)), perm=(1,))
    add("frozen", shapes=((1,), (2,), (1, 2)), frozen=(1,))
    add("dict", dict_input="dict")
    add("dict-N", dict_input="dict", num_data=7)
    add("userdict", dict_input="userdict", batches=(1, 2), loss="ce")
    add("reiter", data=Reiter)
    add("function", func=True)
    add("progressbar", op_kw=dict(progressbar=True))
    add("checked", op_kw=dict(check_deterministic=True), shapes=((2,),))
    add("blocks", op_kw=dict(block_sizes=[1, 1]), shapes=((2,), (1,)))
    add("float32", dtype=torch.float32)
    add("N5", num_data=5)
    add("N1", num_data=1)
    return out
