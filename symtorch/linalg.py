"""Dense factorisations of small symbolic matrices: exact arithmetic, one path per outcome
of a pivot test."""
import itertools
from fractions import Fraction

import numpy as np

from . import expr as E
from . import paths, smt
from .ops import A, arg, obj, op, special
from .tensor import Unsupported

EIGH = []  # registered (matrix, eigenvalues ascending, eigenvectors)


def batched(f, a, *outs):
    """Apply f to the trailing matrices; outs: trailing shapes of the results."""
    res = [obj(a.shape[:-2] + o) for o in outs]
    for b in np.ndindex(*a.shape[:-2]):
        for r, v in zip(res, f(a[b])):
            r[b] = v
    return res


def det(a):
    n = len(a)
    if n == 0:
        return E.ONE
    if n > 5:
        raise Unsupported(f"determinant of a {n} x {n} matrix")
    if n == 1:
        return a[0, 0]
    terms = []
    for j in range(n):
        if a[0, j] is E.ZERO:
            continue
        t = E.mul(a[0, j], det(np.delete(a[1:], j, axis=1)))
        terms.append(t if j % 2 == 0 else E.neg(t))
    return E.esum(terms) if terms else E.ZERO


def chol(a):
    """(L, info) from the lower triangle."""
    n = len(a)
    L = obj((n, n), E.ZERO)
    for j in range(n):
        d = E.sub(a[j, j], E.esum([E.mul(L[j, k], L[j, k]) for k in range(j)])) if j else a[j, j]
        if not paths.ctx().decide(E.gt(d, E.ZERO)):
            return L, j + 1
        L[j, j] = E.sqrt(d)
        for i in range(j + 1, n):
            s = E.sub(a[i, j], E.esum([E.mul(L[i, k], L[j, k]) for k in range(j)])) if j else a[i, j]
            L[i, j] = E.div(s, L[j, j])
    return L, 0


def lower_inverse(L):
    n = len(L)
    X = obj((n, n), E.ZERO)
    for j in range(n):
        X[j, j] = E.div(E.ONE, L[j, j])
        for i in range(j + 1, n):
            s = E.esum([E.mul(L[i, k], X[k, j]) for k in range(j, i)])
            X[i, j] = E.neg(E.div(s, L[i, i]))
    return X


def matmul(a, b):
    out = obj((a.shape[0], b.shape[1]))
    for i, j in np.ndindex(*out.shape):
        out[i, j] = E.esum([E.mul(a[i, k], b[k, j]) for k in range(a.shape[1])]) if a.shape[1] else E.ZERO
    return out


def inverse(a):
    n = len(a)
    d = det(a)
    out = obj((n, n))
    for i, j in np.ndindex(n, n):
        c = det(np.delete(np.delete(a, j, axis=0), i, axis=1))
        out[i, j] = E.div(c if (i + j) % 2 == 0 else E.neg(c), d)
    return out


@op("linalg_cholesky_ex")
def _chol_ex(f, args, kw, m):
    a = A(args[0])
    up = arg(f, args, kw, "upper", False)

    def one(x):
        L, info = chol(x.T if up else x)
        return (L.T if up else L), E.const(info)

    L, info = batched(one, a, a.shape[-2:], ())
    if arg(f, args, kw, "check_errors", False):
        _raise(info)
    return L, info


def _raise(info):
    import torch

    for v in np.asarray(info, dtype=object).reshape(-1):
        if v is not E.ZERO:
            raise torch._C._LinAlgError(f"linalg: the factorisation failed (info {E.to_str(v)})")


@special("_linalg_check_errors")
def _check_errors(f, args, kw):
    _raise(A(args[0]))


@op("cholesky")
def _cholesky(f, args, kw, m):
    up = arg(f, args, kw, "upper", False)

    def one(x):
        L, info = chol(x.T if up else x)
        if info:
            _raise(np.array([E.const(info)], dtype=object))
        return ((L.T if up else L),)

    a = A(args[0])
    return batched(one, a, a.shape[-2:])[0]


@op("cholesky_inverse")
def _chol_inv(f, args, kw, m):
    a = A(args[0])
    up = arg(f, args, kw, "upper", False)

    def one(x):
        n = len(x)
        L = obj((n, n), E.ZERO)
        y = x.T if up else x
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = y[i, j]
        X = lower_inverse(L)
        return (matmul(X.T, X),)

    return batched(one, a, a.shape[-2:])[0]


@op("cholesky_solve")
def _chol_solve(f, args, kw, m):
    b, a = A(args[0]), A(args[1])
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("batched cholesky_solve")
    inv = _chol_inv(f, (args[1],), {"upper": arg(f, args, kw, "upper", False)}, m)
    return matmul(inv, b)


@op("linalg_inv_ex")
def _inv_ex(f, args, kw, m):
    a = A(args[0])

    def one(x):
        if not len(x):
            return x, E.ZERO
        if paths.ctx().decide(E.eq(det(x), E.ZERO)):
            return obj(x.shape, E.ZERO), E.const(len(x))
        return inverse(x), E.ZERO

    inv, info = batched(one, a, a.shape[-2:], ())
    if arg(f, args, kw, "check_errors", False):
        _raise(info)
    return inv, info


@op("_linalg_solve_ex")
def _solve_ex(f, args, kw, m):
    a, b = A(args[0]), A(args[1])
    if a.ndim != 2:
        raise Unsupported("batched solve")
    if not arg(f, args, kw, "left", True):
        raise Unsupported("right solve")
    sing = bool(len(a)) and paths.ctx().decide(E.eq(det(a), E.ZERO))
    info = obj((), E.const(len(a)) if sing else E.ZERO)
    if arg(f, args, kw, "check_errors", False):
        _raise(info)
    x = obj(b.shape, E.ZERO) if sing else matmul(inverse(a), b.reshape(len(a), -1)).reshape(b.shape)
    return x, obj(a.shape, E.ZERO), obj((len(a),), E.ZERO), info


@op("linalg_solve_triangular")
def _solve_tri(f, args, kw, m):
    a, b = A(args[0]), A(args[1])
    up, left, uni = (arg(f, args, kw, k, d) for k, d in (("upper", False), ("left", True), ("unitriangular", False)))
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("batched triangular solve")
    L = np.array(a.T if up else a, dtype=object, copy=True)
    for i, j in np.ndindex(*L.shape):
        if j > i:
            L[i, j] = E.ZERO
        if i == j and uni:
            L[i, j] = E.ONE
    X = lower_inverse(L)
    X = X.T if up else X
    return matmul(X, b) if left else matmul(b, X)


@op("_linalg_det")
def _det(f, args, kw, m):
    a = A(args[0])
    d = batched(lambda x: (det(x),), a, ())[0]
    return d, obj(a.shape, E.ZERO), obj(a.shape[:-1], E.ZERO)


@op("_linalg_slogdet")
def _slogdet(f, args, kw, m):
    a = A(args[0])

    def one(x):
        d = det(x)
        c = paths.ctx()
        if c.decide(E.gt(d, E.ZERO)):
            return E.ONE, E.log(d)
        if c.decide(E.lt(d, E.ZERO)):
            return E.const(-1), E.log(E.neg(d))
        return E.ZERO, E.undef("log of a zero determinant", d)

    s, l = batched(one, a, (), ())
    return s, l, obj(a.shape, E.ZERO), obj(a.shape[:-1], E.ZERO)


def register_eigh(M, w, V):
    EIGH.append((np.asarray(M, dtype=object), list(w), np.asarray(V, dtype=object)))


def _same(a, b):
    if a is b:
        return True
    ev = E.Evaluator(lambda n, k: E.sample_value(n, k, 91))
    x, y = ev(a), ev(b)
    if not abs(x - y) <= 1e-9 * (1 + abs(x)):
        return False
    return smt.prove_equal(a, b, paths.ctx().pc, 5000, "eigendecomposition lookup").verdict == "unsat"


def eigh(a):
    n = len(a)
    if n == 1:
        return [a[0, 0]], np.array([[E.ONE]], dtype=object)
    for M, w, V in EIGH:
        if M.shape == a.shape and all(_same(x, y) for x, y in zip(M.reshape(-1), a.reshape(-1))):
            return w, V
    if all(a[i, j] is E.ZERO for i in range(n) for j in range(i)):
        # diagonal: sorted
        order = []
        for i in range(n):
            k = 0
            while k < len(order) and paths.ctx().decide(E.le(a[order[k], order[k]], a[i, i])):
                k += 1
            order.insert(k, i)
        V = obj((n, n), E.ZERO)
        for k, i in enumerate(order):
            V[i, k] = E.ONE
        return [a[i, i] for i in order], V
    if n == 2:
        p, q, r = a[0, 0], a[1, 0], a[1, 1]
        mid = E.scale(E.add(p, r), Fraction(1, 2))
        h = E.scale(E.sub(p, r), Fraction(1, 2))
        rad = E.sqrt(E.add(E.mul(h, h), E.mul(q, q)))
        w = [E.sub(mid, rad), E.add(mid, rad)]
        V = obj((2, 2))
        if paths.ctx().decide(E.eq(q, E.ZERO)):
            up = paths.ctx().decide(E.le(p, r))
            V[...] = [[E.ONE, E.ZERO], [E.ZERO, E.ONE]] if up else [[E.ZERO, E.ONE], [E.ONE, E.ZERO]]
            return ([p, r] if up else [r, p]), V
        for k in range(2):
            v = (q, E.sub(w[k], p))
            nv = E.sqrt(E.add(E.mul(v[0], v[0]), E.mul(v[1], v[1])))
            V[0, k], V[1, k] = E.div(v[0], nv), E.div(v[1], nv)
        return w, V
    raise Unsupported(f"eigendecomposition of an unregistered {n} x {n} matrix")


@op("_linalg_eigh", "linalg_eigh")
def _eigh(f, args, kw, m):
    a = A(args[0])
    up = arg(f, args, kw, "UPLO", "L") == "U"

    def one(x):
        y = np.array(x.T if up else x, dtype=object, copy=True)
        for i, j in itertools.combinations(range(len(y)), 2):
            y[i, j] = y[j, i]
        w, V = eigh(y)
        return np.array(w, dtype=object), V

    w, V = batched(one, a, a.shape[-1:], a.shape[-2:])
    return w, V
