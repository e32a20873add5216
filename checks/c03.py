"""C03: the empirical-Fisher operator represents the uncentered gradient covariance."""
from .lib import ALL_MODES, CURV_ASSUMPTIONS, CURV_BOUNDS, Problem, curvature, curvature_variants, linear_net, net_variants

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS


def make(P, params, data, kw):
    from curvlinops import EFLinearOperator

    return EFLinearOperator(P.model, P.loss, params, data, **kw)


def matrix(P):
    return P.ef()


def configs(tier):
    out = curvature_variants(make, matrix, order=1, losses=('mse', 'ce', 'bce'))
    out += net_variants(make, matrix)
    return out
