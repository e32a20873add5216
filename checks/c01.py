"""C01: the Hessian operator represents the Hessian of the empirical risk."""
from .lib import ALL_MODES, CURV_ASSUMPTIONS, CURV_BOUNDS, Problem, curvature, curvature_variants, linear_net, net_variants

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS


def make(P, params, data, kw):
    from curvlinops import HessianLinearOperator

    return HessianLinearOperator(P.model, P.loss, params, data, **kw)


def matrix(P, blocks=None):
    return P.hessian(blocks)


def rejected(env):
    """Block sizes that do not partition the parameters are rejected."""
    P = Problem(env, shapes=((1,), (2,), (1,)), batches=(1,))
    for i, bs in enumerate(([1, 1], [4], [2, 2], [3, 0], [0, 3], [4, -1], [1, 1, 1, 0], [2, 2, -1])):
        env.raises(f"blocks{bs}", lambda: make(P, P.params, P.data, P.kwargs(block_sizes=bs)), ValueError)


def configs(tier):
    out = curvature_variants(make, matrix, order=2)
    out += net_variants(make, matrix)
    for name, shapes, blocks in (
        ("1-1", ((2,), (1,)), (1, 1)),
        ("2", ((2,), (1,)), (2,)),
        ("1-2", ((1,), (2,), (1,)), (1, 2)),
        ("2-1", ((1,), (2,), (1,)), (2, 1)),
        ("1-1-1", ((1,), (1, 2), ()), (1, 1, 1)),
        ("1-2-1", ((1,), (1,), (1,), (2,)), (1, 2, 1)),
    ):
        for loss in ("mse", "ce", "jet"):
            out.append((f"blocks/{name}-{loss}", curvature(make, matrix, blocks=blocks, shapes=shapes, loss=loss, batches=(1, 2))))
    out.append(("blocks/reordered", curvature(make, matrix, blocks=(1, 2), shapes=((1,), (2,), (1,)), perm=(2, 0, 1), batches=(1, 2), modes=ALL_MODES)))
    out.append(("blocks/net", curvature(make, matrix, blocks=(2, 2), model=linear_net(), loss="mse", batches=(1, 1), modes=((None, "tensor"),))))
    out.append(("blocks/rejected", rejected))
    return out
