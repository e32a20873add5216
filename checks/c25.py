"""C25: the functorch references of the documentation equal the definitions."""
from .lib import CURV_ASSUMPTIONS, CURV_BOUNDS, Problem, linear_net, Reiter

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS


def ref(name, fork=True, data=None, **pk):
    def sc(env):
        import curvlinops.examples.functorch as F

        if fork:
            env.fork_conditionals()
        P = Problem(env, **pk)
        d = data(P.data) if data else P.data
        key = "x" if P.dict_input else None
        if name == "gradient":
            g, l = F.functorch_gradient_and_loss(P.model, P.loss, P.params, d, key)
            sg, sl = P.grad_loss()
            env.eq("loss", l, sl)
            env.true("grad/len", len(g) == len(P.params))
            for i, (a, b) in enumerate(zip(g, P.split(sg))):
                env.eq(f"grad[{i}]", a, b)
        elif name == "jacobian":
            env.eq("jacobian", F.functorch_jacobian(P.model, P.params, d, key), P.jacobian())
        else:
            f, m = {
                "hessian": (F.functorch_hessian, P.hessian),
                "ggn": (F.functorch_ggn, P.ggn),
                "ef": (F.functorch_empirical_fisher, P.ef),
            }[name]
            env.eq(name, f(P.model, P.loss, P.params, d, key), m())

    return sc


def rejected(env):
    """Dict-like inputs need the key of the tensor in them."""
    import curvlinops.examples.functorch as F

    P = Problem(env, loss="mse", dict_input="dict", model=linear_net(widths=(2, 1), bias=(True,)), C=1)
    a = (P.params, P.data)
    for f in (F.functorch_hessian, F.functorch_ggn, F.functorch_gradient_and_loss, F.functorch_empirical_fisher):
        env.raises(f.__name__, lambda: f(P.model, P.loss, *a), ValueError)
    env.raises("jacobian", lambda: F.functorch_jacobian(P.model, *a), ValueError)


def blocks(env):
    """Nested blocks are laid out in the order of their names, rows first."""
    import curvlinops.examples.functorch as F

    shapes = {"b": (2,), "a": (1, 2), "c": ()}
    M = {
        n: {m: env.tensor(f"B{n}{m}", (*s, *t)) for m, t in shapes.items()}
        for n, s in shapes.items()
    }
    size = {"b": 2, "a": 2, "c": 1}
    rows = []
    for n in shapes:
        for i in range(size[n]):
            rows.append([x for m in shapes for x in env.sp(f"B{n}{m}").reshape(size[n], size[m])[i]])
    env.eq("matrix", F.blocks_to_matrix(M), rows)


ALL = ("gradient", "jacobian", "ef", "hessian", "ggn")
ONE = linear_net(widths=(2, 1), bias=(True,))
LIN = linear_net(widths=(2, 2), bias=(True,))


def configs(tier):
    out = [("rejected", rejected), ("blocks", blocks)]

    def add(tag, names=ALL, losses=("mse", "ce", "bce"), **kw):
        for n in names:
            for loss in losses if n != "jacobian" else losses[:1]:
                k = dict(kw)
                if loss == "bce" and "C" not in k:
                    k.update(C=1, model=ONE)
                k.setdefault("model", LIN)
                k.setdefault("batches", (1, 1) if loss == "bce" or loss == "ce" and n in ("hessian", "ggn") else (2, 1))
                out.append((f"{n}/{tag}-{loss}", ref(n, loss=loss, **k)))

    add("mean")
    add("sum", reduction="sum")
    add("tanh", model=linear_net(act="tanh"), batches=(1, 1), losses=("mse",))
    add("relu", model=linear_net(act="relu", widths=(1, 2, 1), bias=(True, False)), C=1, batches=(1, 1), losses=("mse",))
    add("sigmoid-sum", model=linear_net(act="sigmoid", widths=(1, 2, 2), bias=(False, True)), batches=(1, 1), losses=("mse",), reduction="sum")
    add("reordered", perm=(1, 0))
    add("partial", perm=(1,))
    add("partial0", perm=(0,), losses=("mse",))
    add("two-layers-partial", model=linear_net(act="tanh"), perm=(3, 0), batches=(1, 1), losses=("mse",))
    add("dict", dict_input="dict", losses=("mse",))
    add("userdict", dict_input="userdict", losses=("ce",))
    add("reiter", data=Reiter, losses=("mse",))
    add("batches111", batches=(1, 1, 1), losses=("mse",))
    add("batches3", batches=(3,), losses=("mse",), C=1, model=ONE)
    add("rows", extra=(2,), losses=("mse",), batches=(1, 1))
    add("rows-sum", extra=(2,), losses=("mse",), reduction="sum", batches=(1, 1))
    add("rows", extra=(2,), losses=("ce",), names=("gradient", "ef", "jacobian"), batches=(1, 1))
    add("rows-one", extra=(2,), losses=("ce",), names=("ggn", "hessian"), batches=(1,), model=linear_net(widths=(1, 2), bias=(False,)))
    add("two-logits", names=("gradient", "ef", "hessian", "ggn"), losses=("bce",), C=2, batches=(1,), model=LIN)
    add("two-logits-sum", names=("gradient", "ef", "hessian", "ggn"), losses=("bce",), C=2, batches=(1,), model=LIN, reduction="sum")
    add("three-classes", names=("gradient", "ef"), losses=("ce",), C=3, batches=(1, 1), model=linear_net(widths=(1, 3), bias=(False,)))
    return out
