"""C22: convolution patches reproduce the convolution."""
import itertools
from fractions import Fraction

import numpy as np
import warnings

import torch

warnings.filterwarnings("ignore", message="Using padding=.same.")

from symtorch import expr as E

from .lib import dots

BOUNDS = {
    "inputs": "all real inputs with 1-2 data, 1-4 channels, 1 x 1 to 7 x 6 pixels",
    "hyper-parameters": "kernel 1-4, stride 1-3, padding 0-2 (int, tuple, also larger than needed), dilation 1-3, "
    "each also different per dimension and as int or tuple, 'valid' and 'same' padding, groups 1-4; "
    "all combinations of a grid (quick: a pairwise selection)",
    "weights": "all real convolution weights (groups = 1: weight times patch; groups > 1: the sum over the "
    "convolution of the channel-group-averaged input)",
}
ASSUMPTIONS = ["exact real arithmetic", "unequal padding (even kernel with 'same') may be refused with NotImplementedError by extract_patches"]


def pair(v):
    return (v, v) if isinstance(v, int) else tuple(v)


def pads(padding, k, d):
    """(left, right) per dimension."""
    if padding == "valid":
        return [(0, 0), (0, 0)]
    if padding == "same":
        out = []
        for ki, di in zip(k, d):
            total = di * (ki - 1)
            out.append((total // 2, total - total // 2))
        return out
    return [(p, p) for p in pair(padding)]


def patches_spec(x, kernel, stride, padding, dilation, groups):
    """[b, o1*o2, c_in/groups*k1*k2] and the mean over locations (object arrays)."""
    B, C, I1, I2 = x.shape
    k, s, d = pair(kernel), pair(stride), pair(dilation)
    P = pads(padding, k, d)
    O = [(i + sum(p) - di * (ki - 1) - 1) // si + 1 for i, p, di, ki, si in zip((I1, I2), P, d, k, s)]
    Cg = C // groups
    out = np.empty((B, O[0] * O[1], Cg * k[0] * k[1]), dtype=object)
    for b, o1, o2, c, k1, k2 in itertools.product(range(B), range(O[0]), range(O[1]), range(Cg), range(k[0]), range(k[1])):
        i1 = o1 * s[0] - P[0][0] + k1 * d[0]
        i2 = o2 * s[1] - P[1][0] + k2 * d[1]
        v = E.ZERO
        if 0 <= i1 < I1 and 0 <= i2 < I2:
            v = E.scale(E.esum([x[b, g * Cg + c, i1, i2] for g in range(groups)]), Fraction(1, groups))
        out[b, o1 * O[1] + o2, (c * k[0] + k1) * k[1] + k2] = v
    avg = np.empty((B, out.shape[2]), dtype=object)
    for b in range(B):
        for j in range(out.shape[2]):
            avg[b, j] = E.scale(E.esum(list(out[b, :, j])), Fraction(1, out.shape[1]))
    return out, avg, O


def scenario(combos, B=1, dtype=torch.float64, conv=True):
    def sc(env):
        from curvlinops.kfac_utils import extract_averaged_patches, extract_patches

        for n, (C, I, kernel, stride, padding, dilation, groups) in enumerate(combos):
            t = f"{C}x{I} k{kernel} s{stride} p{padding} d{dilation} g{groups}"
            x = env.tensor(f"x{n}", (B, C, *I), dtype=dtype)
            S = env.sp(f"x{n}")
            spec, avg, O = patches_spec(S, kernel, stride, padding, dilation, groups)
            k, d = pair(kernel), pair(dilation)
            unequal = any(a != b for a, b in pads(padding, k, d))
            args = (kernel, stride, padding, dilation, groups)
            r = extract_averaged_patches(x, *args)
            env.true(t + " averaged form", tuple(r.shape) == avg.shape and r.dtype == dtype)
            env.eq(t + " averaged", r, avg)
            if unequal:
                r, ex = env.attempt(lambda: extract_patches(x, *args))
                if ex is not None:
                    env.true(t + " refused", isinstance(ex, NotImplementedError), repr(ex))
                    continue
            else:
                r = extract_patches(x, *args)
            env.true(t + " form", tuple(r.shape) == spec.shape and r.dtype == dtype)
            env.eq(t + " patches", r, spec)
            env.eq(t + " input", x, S)
            if conv:
                # weight matrix @ patch == convolution (of the group-averaged input)
                Cg = C // groups
                W = env.tensor(f"w{n}", (2, Cg, *k), dtype=dtype)
                Ws = env.sp(f"w{n}").reshape(2, -1)
                out = torch.nn.functional.conv2d(
                    x.reshape(B, groups, Cg, *I).sum(1) / groups, W, None, stride, padding, dilation
                )
                env.true(t + " conv shape", tuple(out.shape) == (B, 2, *O))
                exp = np.empty((B, 2, spec.shape[1]), dtype=object)
                for b in range(B):
                    for o in range(2):
                        for l in range(spec.shape[1]):
                            exp[b, o, l] = dots(Ws[o], spec[b, l])
                env.eq(t + " specification is the convolution", out.flatten(2), exp)
                res = (r @ W.flatten(1).T).transpose(1, 2)
                env.same(t + " weight times patch", res, out.flatten(2))

    return sc


def fits(I, kernel, padding, dilation):
    k, d = pair(kernel), pair(dilation)
    return all(i + sum(p) >= di * (ki - 1) + 1 for i, p, di, ki in zip(I, pads(padding, k, d), d, k))


def grid(tier):
    Is = [(1, 1), (3, 4), (5, 3), (6, 6)] + ([(7, 6), (4, 7)] if tier == "thorough" else [])
    ks = [1, 2, 3, (1, 2), (3, 2), (2, 3)] + ([4, (4, 1), (1, 3)] if tier == "thorough" else [])
    ss = [1, 2, (1, 2), (2, 3)] + ([3, (3, 1)] if tier == "thorough" else [])
    ps = [0, 1, (1, 0), (0, 2), "valid", "same"] + ([2, (2, 1)] if tier == "thorough" else [])
    ds = [1, 2, (1, 2), (2, 1)] + ([3, (3, 2)] if tier == "thorough" else [])
    cg = [(1, 1), (2, 1), (2, 2), (4, 2)] + ([(3, 1), (3, 3), (4, 4)] if tier == "thorough" else [])
    out, seen = [], set()
    for n, (I, k, s, p, d) in enumerate(itertools.product(Is, ks, ss, ps, ds)):
        if p == "same" and s != 1:
            continue  # PyTorch refuses strided 'same' convolutions
        if not fits(I, k, p, d):
            continue
        if tier != "thorough" and (n * 7919) % 5 > 1 and p != "same":
            continue
        C, g = cg[(n * 31 + n // 7) % len(cg)]
        out.append((C, I, k, s, p, d, g))
    return out


def configs(tier):
    out = []
    G = grid(tier)
    size = 20
    for i in range(0, len(G), size):
        out.append((f"grid/{i // size}", scenario(G[i : i + size], conv=(tier == "thorough" or (i // size) % 2 == 0))))
    two = [
        (2, (3, 4), 2, 1, 0, 1, 1),
        (4, (3, 4), (2, 1), (1, 2), 1, 1, 2),
        (2, (5, 4), 3, 2, "valid", 1, 2),
        (2, (5, 4), 3, 1, "same", 2, 1),
        (4, (2, 2), 1, 1, 0, 1, 4),
    ]
    out.append(("two data", scenario(two, B=2)))
    out.append(("float32", scenario(two, dtype=torch.float32)))
    return out
