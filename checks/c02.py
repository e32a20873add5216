"""C02: the GGN operator represents the generalized Gauss-Newton matrix."""
from .lib import ALL_MODES, CURV_ASSUMPTIONS, CURV_BOUNDS, Problem, curvature, curvature_variants, linear_net, net_variants

BOUNDS = CURV_BOUNDS
ASSUMPTIONS = CURV_ASSUMPTIONS


def make(P, params, data, kw):
    from curvlinops import GGNLinearOperator

    return GGNLinearOperator(P.model, P.loss, params, data, **kw)


def matrix(P):
    return P.ggn()


def configs(tier):
    out = curvature_variants(make, matrix, order=2)
    out += net_variants(make, matrix)
    return out
