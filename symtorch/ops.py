"""Value semantics of ATen operators over symbolic entries."""
import itertools
import math
from fractions import Fraction

import numpy as np
import torch

from . import expr as E
from . import paths, scalars
from .tensor import (
    COUNTS,
    OPS,
    SPECIAL,
    SymTensor,
    Unsupported,
    _u,
    arr,
    as_sym,
    cast,
    finish,
    from_real,
    to_meta,
    wrap,
    write,
)


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f

    return deco


def special(*names):
    def deco(f):
        for n in names:
            SPECIAL[n] = f
        return f

    return deco


def A(x):
    if isinstance(x, SymTensor):
        return arr(x)
    if isinstance(x, torch.Tensor):
        return arr(from_real(x))
    o = np.empty((), dtype=object)
    o[()] = E.lift(x)
    return o


def dt(x):
    return x.dtype if isinstance(x, torch.Tensor) else None


def obj(shape, fill=None):
    a = np.empty(shape, dtype=object)
    if fill is not None:
        a[...] = fill
    return a


def arg(func, args, kwargs, name, default=None):
    """Value of the schema argument ``name``."""
    if name in kwargs:
        return kwargs[name]
    for i, a in enumerate(func._schema.arguments):
        if a.name == name:
            if i < len(args) and not a.kwarg_only:
                return args[i]
            if a.has_default_value():
                return a.default_value
            return default
    return default


def S(x):
    """Lift a Python scalar."""
    return E.lift(x)


ADD, SUB, MUL, DIV = _u(E.add), _u(E.sub), _u(E.mul), _u(E.div)
NEG = _u(E.neg)


def _num(a):
    """bool entries -> 0/1"""
    return a


@op("add")
def _add(f, args, kw, m):
    al = kw.get("alpha", 1)
    y = A(args[1])
    if not (isinstance(al, (int, float)) and not isinstance(al, scalars.MagicFloat) and al == 1):
        y = MUL(y, A(al))
    if m is not None and isinstance(m, torch.Tensor) and m.dtype == torch.bool:
        return _u(E.bor)(A(args[0]), y)
    return ADD(A(args[0]), y)


@op("sub", "subtract")
def _sub(f, args, kw, m):
    al = kw.get("alpha", 1)
    y = A(args[1])
    if not (isinstance(al, (int, float)) and not isinstance(al, scalars.MagicFloat) and al == 1):
        y = MUL(y, A(al))
    return SUB(A(args[0]), y)


@op("rsub")
def _rsub(f, args, kw, m):
    al = arg(f, args, kw, "alpha", 1)
    return SUB(A(args[1]), MUL(A(args[0]), A(al)))


@op("mul", "multiply")
def _mul(f, args, kw, m):
    if isinstance(m, torch.Tensor) and m.dtype == torch.bool:
        return _u(E.band)(A(args[0]), A(args[1]))
    return MUL(A(args[0]), A(args[1]))


@op("div", "true_divide", "divide")
def _div(f, args, kw, m):
    r = DIV(A(args[0]), A(args[1]))
    mode = kw.get("rounding_mode")
    if mode == "floor":
        r = _u(efloor)(r)
    elif mode == "trunc":
        from .tensor import trunc

        r = _u(trunc)(r)
    return r


def efloor(e):
    if e.k == "c":
        return E.const(math.floor(e.a[0]))
    return E.fn("floor", (e,))


@op("floor_divide")
def _fdiv(f, args, kw, m):
    return _u(efloor)(DIV(A(args[0]), A(args[1])))


@op("remainder")
def _rem(f, args, kw, m):
    x, y = A(args[0]), A(args[1])
    return SUB(x, MUL(y, _u(efloor)(DIV(x, y))))


@op("neg", "negative")
def _neg(f, args, kw, m):
    return NEG(A(args[0]))


def _ew1(name, fn):
    @op(name)
    def g(f, args, kw, m, fn=fn):
        return _u(fn)(A(args[0]))


_ew1("exp", E.exp)
_ew1("log", E.log)
_ew1("sqrt", E.sqrt)
_ew1("rsqrt", lambda e: E.power(e, Fraction(-1, 2)))
_ew1("reciprocal", lambda e: E.power(e, -1))
_ew1("abs", E.absolute)
_ew1("sigmoid", E.sigmoid)
_ew1("tanh", E.tanh)
_ew1("square", lambda e: E.mul(e, e))
_ew1("relu", lambda e: E.ite(E.gt(e, E.ZERO), e, E.ZERO))
_ew1("log1p", lambda e: E.log(E.add(E.ONE, e)))
_ew1("expm1", lambda e: E.sub(E.exp(e), E.ONE))
_ew1("log_sigmoid", lambda e: E.neg(E.softplus(E.neg(e))))
_ew1("sin", lambda e: E.fn("sin", (e,)))
_ew1("cos", lambda e: E.fn("cos", (e,)))
_ew1("floor", efloor)
_ew1("round", lambda e: E.const(round(e.a[0])) if e.k == "c" else E.fn("round", (e,)))
_ew1("positive", lambda e: e)
_ew1("conj_physical", lambda e: e)


def _sign(e):
    if e.k == "c":
        return E.const((e.a[0] > 0) - (e.a[0] < 0))
    return E.ite(E.gt(e, E.ZERO), E.ONE, E.ite(E.lt(e, E.ZERO), E.MONE, E.ZERO))


_ew1("sign", _sign)
_ew1("sgn", _sign)
_ew1("logical_not", lambda e: E.bnot(E.tobool(e)))
_ew1("isnan", E.nan_cond)
_ew1("isinf", lambda e: E.FALSE)
_ew1("isfinite", lambda e: E.bnot(E.nan_cond(e)))


@op("bitwise_not")
def _bitnot(f, args, kw, m):
    if m.dtype != torch.bool:
        raise Unsupported("bitwise_not on integers")
    return _u(lambda e: E.bnot(E.tobool(e)))(A(args[0]))


def has_undef(e):
    return e.k == "f" and e.a[0] == "undef"


def _ew2(names, fn):
    @op(*names)
    def g(f, args, kw, m, fn=_u(fn), name=names[0]):
        b = args[1]
        if isinstance(b, float) and math.isinf(b) and b not in E.MAGIC and name in INF_COMPARE:
            # real values are finite; NaN compares unequal
            pos = b > 0
            r = {"eq": False, "ne": True, "lt": pos, "le": pos, "gt": not pos, "ge": not pos}[name]
            one = lambda e: E.TRUE if name == "ne" else (E.bnot(E.nan_cond(e)) if r else E.FALSE)
            return np.frompyfunc(one, 1, 1)(np.asarray(A(args[0]), dtype=object))
        return fn(A(args[0]), A(args[1]))


INF_COMPARE = ("eq", "ne", "lt", "le", "gt", "ge")
_ew2(("eq",), E.eq)
_ew2(("ne", "not_equal"), lambda x, y: E.bnot(E.eq(x, y)))
_ew2(("lt",), E.lt)
_ew2(("le",), E.le)
_ew2(("gt", "greater"), E.gt)
_ew2(("ge", "greater_equal"), E.ge)
_ew2(("maximum",), E.emax)
_ew2(("minimum",), E.emin)
_ew2(("logical_and", "bitwise_and", "__and__"), lambda x, y: E.band(E.tobool(x), E.tobool(y)))
_ew2(("logical_or", "bitwise_or", "__or__"), lambda x, y: E.bor(E.tobool(x), E.tobool(y)))
_ew2(("logical_xor", "bitwise_xor"), lambda x, y: E.bxor(E.tobool(x), E.tobool(y)))


def epow(x, p):
    if p.k == "c":
        return E.power(x, p.a[0])
    if x.k == "c" and x.a[0] > 0:
        raise Unsupported("symbolic exponent")
    raise Unsupported("symbolic exponent")


@op("pow")
def _pow(f, args, kw, m):
    return _u(epow)(A(args[0]), A(args[1]))


@op("where")
def _where(f, args, kw, m):
    if len(args) == 1:
        raise Unsupported("where(cond)")
    return _u(lambda c, x, y: E.ite(E.tobool(c), x, y))(*[A(a) for a in args[:3]])


@op("masked_fill")
def _masked_fill(f, args, kw, m):
    return _u(lambda x, c, y: E.ite(E.tobool(c), y, x))(*[A(a) for a in args[:3]])


@op("clamp", "clip")
def _clamp(f, args, kw, m):
    x = A(args[0])
    lo, hi = arg(f, args, kw, "min"), arg(f, args, kw, "max")
    if lo is not None:
        x = _u(E.emax)(x, A(lo))
    if hi is not None:
        x = _u(E.emin)(x, A(hi))
    return x


@op("clamp_min")
def _clamp_min(f, args, kw, m):
    return _u(E.emax)(A(args[0]), A(args[1]))


@op("clamp_max")
def _clamp_max(f, args, kw, m):
    return _u(E.emin)(A(args[0]), A(args[1]))


@op("addcmul")
def _addcmul(f, args, kw, m):
    v = arg(f, args, kw, "value", 1)
    return ADD(A(args[0]), MUL(A(v), MUL(A(args[1]), A(args[2]))))


@op("addcdiv")
def _addcdiv(f, args, kw, m):
    v = arg(f, args, kw, "value", 1)
    return ADD(A(args[0]), MUL(A(v), DIV(A(args[1]), A(args[2]))))


@op("lerp")
def _lerp(f, args, kw, m):
    x, y, w = A(args[0]), A(args[1]), A(args[2])
    return ADD(x, MUL(w, SUB(y, x)))


@op("threshold_backward")
def _thr_bw(f, args, kw, m):
    g, x, t = A(args[0]), A(args[1]), A(args[2])
    return _u(lambda g, x, t: E.ite(E.le(x, t), E.ZERO, g))(g, x, t)


@op("sigmoid_backward")
def _sig_bw(f, args, kw, m):
    g, y = A(args[0]), A(args[1])
    return MUL(g, MUL(y, _u(lambda e: E.sub(E.ONE, e))(y)))


@op("tanh_backward")
def _tanh_bw(f, args, kw, m):
    g, y = A(args[0]), A(args[1])
    return MUL(g, _u(lambda e: E.sub(E.ONE, E.mul(e, e)))(y))


@op("log_sigmoid_forward")
def _lsf(f, args, kw, m):
    x = A(args[0])
    return _u(lambda e: E.neg(E.softplus(E.neg(e))))(x), obj(m[1].shape, E.ZERO)


@op("log_sigmoid_backward")
def _lsb(f, args, kw, m):
    g, x = A(args[0]), A(args[1])
    return MUL(g, _u(lambda e: E.sigmoid(E.neg(e)))(x))


@op("softplus")
def _softplus(f, args, kw, m):
    beta, thr = arg(f, args, kw, "beta", 1), arg(f, args, kw, "threshold", 20)
    if beta != 1:
        raise Unsupported("softplus beta")
    return _u(E.softplus)(A(args[0]))


@op("softplus_backward")
def _softplus_bw(f, args, kw, m):
    return MUL(A(args[0]), _u(E.sigmoid)(A(args[1])))


# --- factories ---------------------------------------------------------------
@op("zeros", "zeros_like", "new_zeros", "_efficientzerotensor", "_new_zeros_with_same_feature_meta")
def _zeros(f, args, kw, m):
    return obj(m.shape, E.ZERO)


@op("ones", "ones_like", "new_ones")
def _ones(f, args, kw, m):
    return obj(m.shape, E.ONE)


_UNINIT = itertools.count()


@op("empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "empty_permuted")
def _empty(f, args, kw, m):
    a = obj(m.shape)
    for i in np.ndindex(*a.shape):
        # uninitialised memory: an arbitrary value
        a[i] = E.var(f"uninit{next(_UNINIT)}") if m.dtype.is_floating_point else E.ZERO
    return a


@op("full", "full_like", "new_full")
def _full(f, args, kw, m):
    v = arg(f, args, kw, "fill_value")
    return obj(m.shape, S(v) if not isinstance(v, torch.Tensor) else A(v)[()])


@op("scalar_tensor")
def _scalar_tensor(f, args, kw, m):
    return A(args[0])


@op("fill")
def _fill(f, args, kw, m):
    return np.broadcast_to(A(args[1]), tuple(args[0].shape))


@op("zero")
def _zero(f, args, kw, m):
    return obj(tuple(args[0].shape), E.ZERO)


@op("eye")
def _eye(f, args, kw, m):
    a = obj(m.shape, E.ZERO)
    for i in range(min(a.shape)):
        a[i, i] = E.ONE
    return a


@op("arange")
def _arange(f, args, kw, m):
    n = m.shape[0]
    if f._overloadname == "default" or len(args) == 1:
        start, step = 0, 1
    else:
        start = args[0]
        step = arg(f, args, kw, "step", 1)
    a = obj((n,))
    for i in range(n):
        a[i] = E.add(S(start), E.scale(S(step), i))
    return a


@op("linspace")
def _linspace(f, args, kw, m):
    s, e = S(args[0]), S(args[1])
    n = m.shape[0]
    a = obj((n,))
    for i in range(n):
        w = Fraction(i, n - 1) if n > 1 else Fraction(0)
        a[i] = E.add(E.scale(s, 1 - w), E.scale(e, w))
    return a


@op("copy")
def _copy(f, args, kw, m):
    return np.broadcast_to(
        cast(A(args[1]), dt(as_sym(args[1])), args[0].dtype), tuple(args[0].shape)
    ), args[0].dtype


# `copy_` writes; give the dispatcher (value, dtype)
def _copy_(f, args, kw, m):
    return ((np.broadcast_to(A(args[1]), tuple(args[0].shape)), as_sym(args[1]).dtype),)


OPS["copy_"] = _copy_


@op("clone", "contiguous", "_to_copy", "to", "alias_copy", "lift_fresh_copy", "view_copy")
def _clone(f, args, kw, m):
    return cast(A(args[0]), args[0].dtype, m.dtype)


@special("lift_fresh", "lift")
def _lift_fresh(f, args, kw):
    return as_sym(args[0])


# --- reductions -------------------------------------------------------------------
def _dims(d, n):
    if d is None or (isinstance(d, (list, tuple)) and len(d) == 0):
        return tuple(range(n))
    if isinstance(d, int):
        d = [d]
    return tuple(sorted(x % n if n else 0 for x in d))


def reduce_(a, dims, keep, fold):
    n = a.ndim
    dims = tuple(d for d in dims if n)
    keepax = [i for i in range(n) if i not in dims]
    b = a.transpose(keepax + list(dims)) if n else a
    shape = [a.shape[i] for i in keepax]
    b = b.reshape(shape + [-1]) if a.size or True else b
    out = obj(tuple(shape))
    for i in np.ndindex(*shape):
        out[i] = fold(list(b[i].reshape(-1)))
    if keep:
        out = out.reshape([1 if i in dims else a.shape[i] for i in range(n)])
    return out


@op("sum")
def _sum(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), E.esum)


@op("mean")
def _mean(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)

    def fold(xs):
        if not xs:
            return E.undef("mean of nothing", E.ZERO)
        return E.scale(E.esum(xs), Fraction(1, len(xs)))

    return reduce_(a, d, arg(f, args, kw, "keepdim", False), fold)


@op("var")
def _var(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    corr = arg(f, args, kw, "correction", 1)
    if "unbiased" in [x.name for x in f._schema.arguments]:
        corr = 1 if arg(f, args, kw, "unbiased", True) else 0

    def fold(xs):
        mu = E.scale(E.esum(xs), Fraction(1, len(xs)))
        t = E.esum([E.mul(E.sub(x, mu), E.sub(x, mu)) for x in xs])
        return E.div(t, E.const(len(xs) - int(corr)))

    return reduce_(a, d, arg(f, args, kw, "keepdim", False), fold)


def _eprod(xs):
    r = E.ONE
    for x in xs:
        r = E.mul(r, x)
    return r


@op("prod")
def _prod(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), _eprod)


def _fold2(fn):
    def g(xs):
        r = xs[0]
        for x in xs[1:]:
            r = fn(r, x)
        return r

    return g


@op("amax")
def _amax(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), _fold2(E.emax))


@op("amin")
def _amin(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), _fold2(E.emin))


@op("aminmax")
def _aminmax(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    k = arg(f, args, kw, "keepdim", False)
    return reduce_(a, d, k, _fold2(E.emin)), reduce_(a, d, k, _fold2(E.emax))


def _maxmin(best):
    def g(f, args, kw, m):
        a = A(args[0])
        if f._overloadname == "default":
            return reduce_(a, tuple(range(a.ndim)), False, _fold2(best))
        if f._overloadname == "other":
            return _u(best)(a, A(args[1]))
        d = args[1] % max(a.ndim, 1)
        k = arg(f, args, kw, "keepdim", False)
        v = reduce_(a, (d,), k, _fold2(best))

        def am(xs):
            b, idx = xs[0], E.ZERO
            for i, x in enumerate(xs[1:], 1):
                c = E.gt(x, b) if best is E.emax else E.lt(x, b)
                b, idx = E.ite(c, x, b), E.ite(c, E.const(i), idx)
            return idx

        return v, reduce_(a, (d,), k, am)

    return g


OPS["max"] = _maxmin(E.emax)
OPS["min"] = _maxmin(E.emin)


@op("argmax")
def _argmax(f, args, kw, m):
    a = A(args[0])
    d = arg(f, args, kw, "dim")

    def am(xs):
        b, idx = xs[0], E.ZERO
        for i, x in enumerate(xs[1:], 1):
            c = E.gt(x, b)
            b, idx = E.ite(c, x, b), E.ite(c, E.const(i), idx)
        return idx

    return reduce_(a, _dims(d, a.ndim), arg(f, args, kw, "keepdim", False), am)


@op("any")
def _any(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), lambda xs: E.bor(*map(E.tobool, xs)))


@op("all")
def _all(f, args, kw, m):
    a = A(args[0])
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    return reduce_(a, d, arg(f, args, kw, "keepdim", False), lambda xs: E.band(*map(E.tobool, xs)))


@op("linalg_vector_norm", "norm")
def _norm(f, args, kw, m):
    a = A(args[0])
    p = arg(f, args, kw, "ord", None)
    if p is None:
        p = arg(f, args, kw, "p", 2)
    if p is None:
        p = 2
    d = _dims(arg(f, args, kw, "dim"), a.ndim)
    k = arg(f, args, kw, "keepdim", False)
    if p == 2:
        return reduce_(a, d, k, lambda xs: E.sqrt(E.esum([E.mul(x, x) for x in xs])))
    if p == 1:
        return reduce_(a, d, k, lambda xs: E.esum([E.absolute(x) for x in xs]))
    if p == math.inf:
        return reduce_(a, d, k, lambda xs: _fold2(E.emax)([E.absolute(x) for x in xs]))
    raise Unsupported(f"norm p={p}")


@op("cumsum")
def _cumsum(f, args, kw, m):
    a = A(args[0])
    if a.ndim == 0:
        return a
    d = args[1] % a.ndim
    out = obj(a.shape)
    b, o = np.moveaxis(a, d, 0), np.moveaxis(out, d, 0)
    acc = None
    for i in range(b.shape[0]):
        acc = b[i] if acc is None else ADD(acc, b[i])
        o[i] = acc
    return out


@op("trace")
def _trace(f, args, kw, m):
    a = A(args[0])
    return np.asarray(E.esum([a[i, i] for i in range(min(a.shape))]), dtype=object)


@op("dist")
def _dist(f, args, kw, m):
    x = SUB(A(args[0]), A(args[1]))
    return np.asarray(E.sqrt(E.esum([E.mul(e, e) for e in x.reshape(-1)])), dtype=object)


# --- linear algebra -------------------------------------------------------------------
def edot(xs, ys):
    return E.esum([E.mul(x, y) for x, y in zip(xs, ys) if x is not E.ZERO and y is not E.ZERO])


def matmul(a, b):
    n, k = a.shape
    k2, p = b.shape
    out = obj((n, p))
    bt = [list(b[:, j]) for j in range(p)]
    for i in range(n):
        r = list(a[i])
        for j in range(p):
            out[i, j] = edot(r, bt[j])
    return out


@op("mm")
def _mm(f, args, kw, m):
    return matmul(A(args[0]), A(args[1]))


@op("bmm")
def _bmm(f, args, kw, m):
    a, b = A(args[0]), A(args[1])
    out = obj(m.shape)
    for i in range(a.shape[0]):
        out[i] = matmul(a[i], b[i])
    return out


@op("mv")
def _mv(f, args, kw, m):
    return matmul(A(args[0]), A(args[1])[:, None])[:, 0]


@op("dot", "vdot")
def _dot(f, args, kw, m):
    return np.asarray(edot(A(args[0]), A(args[1])), dtype=object)


def _ab(kw, x, y):
    b, al = kw.get("beta", 1), kw.get("alpha", 1)
    if isinstance(b, int) and b == 0:
        return MUL(A(al), y)
    return ADD(MUL(A(b), x), MUL(A(al), y))


@op("addmm")
def _addmm(f, args, kw, m):
    return _ab(kw, A(args[0]), matmul(A(args[1]), A(args[2])))


@op("addmv")
def _addmv(f, args, kw, m):
    return _ab(kw, A(args[0]), matmul(A(args[1]), A(args[2])[:, None])[:, 0])


@op("addr")
def _addr(f, args, kw, m):
    return _ab(kw, A(args[0]), MUL(A(args[1])[:, None], A(args[2])[None, :]))


@op("baddbmm")
def _baddbmm(f, args, kw, m):
    return _ab(kw, A(args[0]), _bmm(f, args[1:], kw, m))


@op("addbmm")
def _addbmm(f, args, kw, m):
    a, b = A(args[1]), A(args[2])
    t = obj((a.shape[1], b.shape[2]), E.ZERO)
    for i in range(a.shape[0]):
        t = ADD(t, matmul(a[i], b[i]))
    return _ab(kw, A(args[0]), t)


@op("linear")
def _linear(f, args, kw, m):
    x, w = A(args[0]), A(args[1])
    b = arg(f, args, kw, "bias")
    y = matmul(x.reshape(-1, x.shape[-1]), w.T).reshape(x.shape[:-1] + (w.shape[0],))
    return y if b is None else ADD(y, A(b))


# --- shapes / indexing -------------------------------------------------------------------
@op("cat", "concat", "concatenate")
def _cat(f, args, kw, m):
    ts = [as_sym(t) for t in args[0]]
    d = arg(f, args, kw, "dim", 0)
    parts = [cast(A(t), t.dtype, m.dtype) for t in ts if not (t.dim() == 1 and t.numel() == 0)]
    if not parts:
        return obj(m.shape)
    return np.concatenate(parts, axis=d)


@op("stack")
def _stack(f, args, kw, m):
    ts = [as_sym(t) for t in args[0]]
    return np.stack([cast(A(t), t.dtype, m.dtype) for t in ts], axis=arg(f, args, kw, "dim", 0))


@op("repeat")
def _repeat(f, args, kw, m):
    return np.tile(A(args[0]), args[1])


@op("repeat_interleave")
def _repeat_interleave(f, args, kw, m):
    raise Unsupported("repeat_interleave")


@op("flip")
def _flip(f, args, kw, m):
    return np.flip(A(args[0]), axis=tuple(args[1]))


@op("roll")
def _roll(f, args, kw, m):
    d = arg(f, args, kw, "dims", [])
    a = A(args[0])
    if not d:
        return np.roll(a.reshape(-1), args[1][0]).reshape(a.shape)
    return np.roll(a, tuple(args[1]), axis=tuple(d))


@op("tril")
def _tril(f, args, kw, m):
    k = arg(f, args, kw, "diagonal", 0)
    a = np.array(A(args[0]))
    for i in np.ndindex(*a.shape):
        if i[-1] - i[-2] > k:
            a[i] = E.ZERO
    return a


@op("triu")
def _triu(f, args, kw, m):
    k = arg(f, args, kw, "diagonal", 0)
    a = np.array(A(args[0]))
    for i in np.ndindex(*a.shape):
        if i[-1] - i[-2] < k:
            a[i] = E.ZERO
    return a


@op("diag_embed")
def _diag_embed(f, args, kw, m):
    if (arg(f, args, kw, "offset", 0), arg(f, args, kw, "dim1", -2), arg(f, args, kw, "dim2", -1)) != (0, -2, -1):
        raise Unsupported("diag_embed offset/dims")
    a = A(args[0])
    out = obj(m.shape, E.ZERO)
    for i in np.ndindex(*a.shape):
        out[i + (i[-1],)] = a[i]
    return out


@op("select_backward")
def _select_bw(f, args, kw, m):
    out = obj(m.shape, E.ZERO)
    idx = [slice(None)] * out.ndim
    idx[args[2]] = args[3]
    g = A(args[0])
    out[tuple(idx)] = g if g.ndim else g[()]
    return out


@op("slice_backward")
def _slice_bw(f, args, kw, m):
    g, sizes, dim, start, end, step = args
    out = obj(m.shape, E.ZERO)
    idx = [slice(None)] * out.ndim
    n = out.shape[dim]
    start = start + n if start < 0 else start
    end = end + n if end < 0 else min(end, n)
    idx[dim] = slice(start, end, step)
    out[tuple(idx)] = A(g)
    return out


@op("diagonal_backward")
def _diagonal_bw(f, args, kw, m):
    g, sizes, off, d1, d2 = args
    t = wrap(obj(tuple(sizes), E.ZERO), m.dtype)
    mt = to_meta(t).diagonal(off, d1, d2)
    v = SymTensor(t._st, mt.size(), mt.stride(), mt.storage_offset(), mt.dtype)
    write(v, A(g))
    return arr(t)


@op("as_strided_scatter", "slice_scatter", "select_scatter")
def _scatter_unsup(f, args, kw, m):
    raise Unsupported(str(f))


@op("constant_pad_nd")
def _pad(f, args, kw, m):
    a = A(args[0])
    pad = args[1]
    v = arg(f, args, kw, "value", 0)
    out = obj(m.shape, S(v))
    src, dst = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    for i in range(len(pad) // 2):
        d = a.ndim - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        src[d] = slice(max(0, -lo), a.shape[d] - max(0, -hi))
        dst[d] = slice(max(0, lo), out.shape[d] - max(0, hi))
    out[tuple(dst)] = a[tuple(src)]
    return out


def ipos(e):
    """Concrete integer value of an index entry (forks when symbolic)."""
    if e.k == "c":
        return int(e.a[0])
    if e.k in E._BOOLK:
        return bool(paths.ctx().decide(e))
    return scalars.concretize_int(e)


def ints(t):
    a = A(t)
    o = np.empty(a.shape, dtype=np.int64)
    for i in np.ndindex(*a.shape):
        o[i] = ipos(a[i])
    return o


def select_sym(cands, idx):
    """cands[idx] for a possibly symbolic index expression."""
    if idx.k == "c":
        return cands[int(idx.a[0])]
    r = cands[-1]
    for i in range(len(cands) - 2, -1, -1):
        r = E.ite(E.eq(idx, E.const(i)), cands[i], r)
    return r


@op("gather")
def _gather(f, args, kw, m):
    a, d, ix = A(args[0]), args[1], A(args[2])
    out = obj(ix.shape)
    for i in np.ndindex(*ix.shape):
        j = list(i)
        cands = []
        for k in range(a.shape[d]):
            j[d] = k
            cands.append(a[tuple(j)])
        out[i] = select_sym(cands, ix[i])
    return out


def _scatter_gen(a, d, ix, src, comb):
    out = np.array(a, dtype=object, copy=True)
    for i in np.ndindex(*ix.shape):
        v = src[i]
        e = ix[i]
        j = list(i)
        for k in range(a.shape[d]):
            j[d] = k
            c = E.eq(e, E.const(k))
            if c is E.FALSE:
                continue
            t = tuple(j)
            out[t] = comb(out[t], v) if c is E.TRUE else E.ite(c, comb(out[t], v), out[t])
    return out


@op("scatter")
def _scatter(f, args, kw, m):
    src = args[3]
    ix = A(args[2])
    s = A(src)
    if not isinstance(src, torch.Tensor):
        s = np.broadcast_to(s, ix.shape)
    red = kw.get("reduce")
    comb = (lambda o, v: v) if red is None else {"add": E.add, "multiply": E.mul}[red]
    return _scatter_gen(A(args[0]), args[1], ix, s, comb)


@op("scatter_add")
def _scatter_add(f, args, kw, m):
    return _scatter_gen(A(args[0]), args[1], A(args[2]), A(args[3]), E.add)


@op("index_select")
def _index_select(f, args, kw, m):
    return np.take(A(args[0]), ints(args[2]), axis=args[1])


@op("index_add")
def _index_add(f, args, kw, m):
    out = np.array(A(args[0]), copy=True)
    src = A(args[3])
    for n, k in enumerate(ints(args[2])):
        idx = [slice(None)] * out.ndim
        idx2 = list(idx)
        idx[args[1]], idx2[args[1]] = int(k), n
        out[tuple(idx)] = ADD(out[tuple(idx)], MUL(A(kw.get("alpha", 1)), src[tuple(idx2)]))
    return out


def _indices(ixs):
    out = []
    for t in ixs:
        if t is None:
            out.append(slice(None))
            continue
        t = as_sym(t)
        if t.dtype == torch.bool:
            a = A(t)
            b = np.empty(a.shape, dtype=bool)
            for i in np.ndindex(*a.shape):
                b[i] = ipos(E.tobool(a[i]))
            out.append(b)
        else:
            out.append(ints(t))
    return tuple(out)


@special("index")
def _index(f, args, kw):
    x = as_sym(args[0])
    ixs = [None if t is None else as_sym(t) for t in args[1]]
    r = A(x)[_indices(ixs)]
    return wrap(np.asarray(r, dtype=object), x.dtype)


@op("index_put")
def _index_put(f, args, kw, m):
    out = np.array(A(args[0]), copy=True)
    ix = _indices(args[1])
    v = A(args[2])
    if arg(f, args, kw, "accumulate", False):
        pos = np.arange(out.size).reshape(out.shape)[ix]
        flat = out.reshape(-1)
        vb = np.broadcast_to(v, pos.shape).reshape(-1)
        for p, e in zip(pos.reshape(-1), vb):
            flat[p] = E.add(flat[p], e)
        return flat.reshape(out.shape)
    out[ix] = v
    return out


@special("nonzero")
def _nonzero(f, args, kw):
    a = A(args[0])
    b = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        b[i] = ipos(E.tobool(a[i]))
    return from_real(torch.from_numpy(np.argwhere(b).astype(np.int64)))


@op("one_hot")
def _one_hot(f, args, kw, m):
    raise Unsupported("one_hot")


@op("embedding")
def _embedding(f, args, kw, m):
    return A(args[0])[ints(args[1])]


@op("embedding_dense_backward")
def _embedding_bw(f, args, kw, m):
    g, ix, n, pad = A(args[0]), ints(args[1]), args[2], args[3]
    out = obj(m.shape, E.ZERO)
    for i in np.ndindex(*ix.shape):
        if ix[i] != pad:
            out[ix[i]] = ADD(out[ix[i]], g[i])
    return out


@op("sort")
def _sort(f, args, kw, m):
    raise Unsupported("sort")


# --- host transfers ------------------------------------------------------------------
@special("_local_scalar_dense", "item")
def _item(f, args, kw):
    t = as_sym(args[0])
    return scalars.to_python(A(t).reshape(-1)[0], t.dtype)


@special("_has_same_storage_numel")
def _same_storage_numel(f, args, kw):
    return as_sym(args[0])._st.arr.size == as_sym(args[1])._st.arr.size


@special("is_nonzero")
def _is_nonzero(f, args, kw):
    return paths.ctx().decide(E.tobool(A(args[0]).reshape(-1)[0]))


@special("equal")
def _equal(f, args, kw):
    x, y = A(args[0]), A(args[1])
    if x.shape != y.shape:
        return False
    return paths.ctx().decide(E.band(*[E.eq(a, b) for a, b in zip(x.reshape(-1), y.reshape(-1))]))


def close_cond(x, y, rtol, atol, equal_nan=False):
    cs = []
    x, y = np.broadcast_arrays(x, y)
    for a, b in zip(x.reshape(-1), y.reshape(-1)):
        na, nb = E.nan_cond(a), E.nan_cond(b)
        if na is not E.FALSE or nb is not E.FALSE:
            if equal_nan:
                raise E.SymbolicError("equal_nan")
            cs.append(E.bnot(E.bor(na, nb)))
        d = E.absolute(E.sub(a, b))
        cs.append(E.le(d, E.add(S(atol), E.mul(S(rtol), E.absolute(b)))))
    return E.band(*cs) if cs else E.TRUE


@special("allclose")
def _allclose(f, args, kw):
    g = lambda n, d: arg(f, args, kw, n, d)
    if args[0].dtype != args[1].dtype:
        raise RuntimeError(f"{args[0].dtype} did not match {args[1].dtype}")
    return paths.ctx().decide(
        close_cond(A(args[0]), A(args[1]), g("rtol", 1e-5), g("atol", 1e-8), g("equal_nan", False))
    )


@special("isclose")
def _isclose(f, args, kw):
    g = lambda n, d: arg(f, args, kw, n, d)
    x, y = np.broadcast_arrays(A(args[0]), A(args[1]))
    out = obj(x.shape)
    for i in np.ndindex(*x.shape):
        out[i] = close_cond(x[i], y[i], g("rtol", 1e-5), g("atol", 1e-8))
    return wrap(out, torch.bool)


# --- nn ------------------------------------------------------------------------------
def _lse(xs):
    return E.log(E.esum([E.exp(x) for x in xs]))


@op("_log_softmax", "log_softmax")
def _logsoftmax(f, args, kw, m):
    a = A(args[0])
    if a.ndim == 0:
        return obj((), E.ZERO)
    d = args[1] % a.ndim
    lse = reduce_(a, (d,), True, _lse)
    return SUB(a, lse)


@op("_softmax", "softmax")
def _softmax(f, args, kw, m):
    a = A(args[0])
    if a.ndim == 0:
        return obj((), E.ONE)
    d = args[1] % a.ndim
    z = reduce_(a, (d,), True, lambda xs: E.esum([E.exp(x) for x in xs]))
    return DIV(_u(E.exp)(a), z)


@op("logsumexp")
def _logsumexp(f, args, kw, m):
    a = A(args[0])
    return reduce_(a, _dims(args[1], a.ndim), arg(f, args, kw, "keepdim", False), _lse)


@op("_log_softmax_backward_data")
def _lsm_bw(f, args, kw, m):
    g, y = A(args[0]), A(args[1])
    if y.ndim == 0:
        return obj((), E.ZERO)
    d = args[2] % y.ndim
    s = reduce_(g, (d,), True, E.esum)
    return SUB(g, MUL(_u(E.exp)(y), s))


@op("_softmax_backward_data")
def _sm_bw(f, args, kw, m):
    g, y = A(args[0]), A(args[1])
    d = args[2] % max(y.ndim, 1)
    gy = MUL(g, y)
    if y.ndim == 0:
        return obj((), E.ZERO)
    s = reduce_(gy, (d,), True, E.esum)
    return SUB(gy, MUL(y, s))


def _red(a, r):
    if r == 0:
        return a
    xs = list(a.reshape(-1))
    t = E.esum(xs)
    if r == 1:
        t = E.scale(t, Fraction(1, len(xs))) if xs else E.undef("mean of nothing", E.ZERO)
    return np.asarray(t, dtype=object)


@op("mse_loss")
def _mse(f, args, kw, m):
    x = SUB(A(args[0]), A(args[1]))
    return _red(MUL(x, x), arg(f, args, kw, "reduction", 1))


@op("mse_loss_backward")
def _mse_bw(f, args, kw, m):
    g, x, y, r = A(args[0]), A(args[1]), A(args[2]), args[3]
    c = Fraction(2, x.size) if r == 1 else 2
    return MUL(g, _u(lambda e: E.scale(e, c))(SUB(x, y)))


@op("nll_loss_forward", "nll_loss")
def _nll(f, args, kw, m):
    x, y, w, r, ign = args
    if w is not None:
        raise Unsupported("weighted nll")
    a, t = A(x), A(y)
    one = a.ndim == 1
    if one:
        a, t = a[None], t.reshape(1)
    out = obj((a.shape[0],))
    cnt = E.const(0)
    for n in range(a.shape[0]):
        if t[n].k == "c" and int(t[n].a[0]) == ign:
            out[n] = E.ZERO
            continue
        out[n] = E.neg(select_sym(list(a[n]), t[n]))
        cnt = E.add(cnt, E.ONE)
    if r == 0:
        return (out[0] if one else out), obj((), E.ZERO)
    s = E.esum(list(out))
    return np.asarray(E.div(s, cnt) if r == 1 else s, dtype=object), np.asarray(cnt, dtype=object)


@op("nll_loss_backward")
def _nll_bw(f, args, kw, m):
    g, x, y, w, r, ign, tot = args
    a, t, gg = A(x), A(y), A(g)
    one = a.ndim == 1
    if one:
        a, t = a[None], t.reshape(1)
    out = obj(a.shape, E.ZERO)
    for n in range(a.shape[0]):
        if t[n].k == "c" and int(t[n].a[0]) == ign:
            continue
        gn = gg.reshape(-1)[n if r == 0 and not one else 0] if gg.ndim else gg[()]
        if r == 1:
            gn = E.div(gn, A(tot)[()])
        for c in range(a.shape[1]):
            k = E.eq(t[n], E.const(c))
            out[n, c] = E.ite(k, E.neg(gn), E.ZERO)
    return out[0] if one else out


@op("nll_loss2d_forward", "nll_loss2d")
def _nll2(f, args, kw, m):
    x, y, w, r, ign = args
    if w is not None:
        raise Unsupported("weighted nll")
    a, t = A(x), A(y)
    out = obj(t.shape)
    cnt = E.const(0)
    for i in np.ndindex(*t.shape):
        if t[i].k == "c" and int(t[i].a[0]) == ign:
            out[i] = E.ZERO
            continue
        out[i] = E.neg(select_sym(list(a[(i[0], slice(None)) + i[1:]]), t[i]))
        cnt = E.add(cnt, E.ONE)
    if r == 0:
        return out, obj((), E.ZERO)
    s = E.esum(list(out.reshape(-1)))
    return obj((), E.div(s, cnt) if r == 1 else s), obj((), cnt)


@op("nll_loss2d_backward")
def _nll2_bw(f, args, kw, m):
    g, x, y, w, r, ign, tot = args
    a, t, gg = A(x), A(y), A(g)
    out = obj(a.shape, E.ZERO)
    for i in np.ndindex(*t.shape):
        if t[i].k == "c" and int(t[i].a[0]) == ign:
            continue
        gn = gg[i] if r == 0 else gg[()]
        if r == 1:
            gn = E.div(gn, A(tot)[()])
        for c in range(a.shape[1]):
            out[(i[0], c) + i[1:]] = E.ite(E.eq(t[i], E.const(c)), E.neg(gn), E.ZERO)
    return out


@op("binary_cross_entropy_with_logits")
def _bce(f, args, kw, m):
    x, y = A(args[0]), A(args[1])
    w, pw = arg(f, args, kw, "weight"), arg(f, args, kw, "pos_weight")
    if pw is not None:
        raise Unsupported("pos_weight")
    l = _u(lambda a, b: E.sub(E.softplus(a), E.mul(a, b)))(x, y)
    if w is not None:
        l = MUL(l, A(w))
    return _red(l, arg(f, args, kw, "reduction", 1))


@op("binary_cross_entropy")
def _bce_plain(f, args, kw, m):
    raise Unsupported("binary_cross_entropy on probabilities")


def _pair(x, n):
    x = list(x) if isinstance(x, (list, tuple)) else [x]
    return x * n if len(x) == 1 else x


def _conv_triples(xs, ws, os, stride, padding, dilation, groups):
    """Index triples (x index, w index, out index) of a cross-correlation."""
    nd = len(xs) - 2
    N, Cin = xs[0], xs[1]
    Cout, Cg = ws[0], ws[1]
    out_per = Cout // groups
    for n in range(N):
        for co in range(Cout):
            g = co // out_per
            for o in itertools.product(*[range(s) for s in os[2:]]):
                for k in itertools.product(*[range(s) for s in ws[2:]]):
                    i = tuple(
                        o[d] * stride[d] - padding[d] + k[d] * dilation[d] for d in range(nd)
                    )
                    if any(i[d] < 0 or i[d] >= xs[2 + d] for d in range(nd)):
                        continue
                    for cg in range(Cg):
                        yield (n, g * Cg + cg) + i, (co, cg) + k, (n, co) + o


@op("convolution", "_convolution", "cudnn_convolution", "mkldnn_convolution")
def _conv(f, args, kw, m):
    x, w, b, stride, padding, dilation, transposed, outpad, groups = args[:9]
    if transposed:
        raise Unsupported("transposed convolution")
    X, W = A(x), A(w)
    nd = X.ndim - 2
    st, pd, dl = _pair(stride, nd), _pair(padding, nd), _pair(dilation, nd)
    acc = {}
    for ix, iw, io in _conv_triples(X.shape, W.shape, tuple(m.shape), st, pd, dl, groups):
        acc.setdefault(io, []).append(E.mul(X[ix], W[iw]))
    out = obj(tuple(m.shape), E.ZERO)
    B = A(b) if b is not None else None
    for io in np.ndindex(*out.shape):
        t = acc.get(io, [])
        out[io] = E.esum(t + ([B[io[1]]] if B is not None else []))
    return out


@op("convolution_backward")
def _conv_bw(f, args, kw, m):
    g, x, w, bsz, stride, padding, dilation, transposed, outpad, groups, mask = args
    if transposed:
        raise Unsupported("transposed convolution")
    G, X, W = A(g), A(x), A(w)
    nd = X.ndim - 2
    st, pd, dl = _pair(stride, nd), _pair(padding, nd), _pair(dilation, nd)
    gx, gw = {}, {}
    for ix, iw, io in _conv_triples(X.shape, W.shape, G.shape, st, pd, dl, groups):
        if mask[0]:
            gx.setdefault(ix, []).append(E.mul(G[io], W[iw]))
        if mask[1]:
            gw.setdefault(iw, []).append(E.mul(G[io], X[ix]))
    GX = GW = GB = None
    if mask[0]:
        GX = obj(X.shape, E.ZERO)
        for k, v in gx.items():
            GX[k] = E.esum(v)
    if mask[1]:
        GW = obj(W.shape, E.ZERO)
        for k, v in gw.items():
            GW[k] = E.esum(v)
    if mask[2]:
        GB = reduce_(G, tuple([0] + list(range(2, G.ndim))), False, E.esum)
    return GX, GW, GB


@op("im2col")
def _im2col(f, args, kw, m):
    x, ks, dl, pd, st = args
    X = A(x)
    batched = X.ndim == 4
    if not batched:
        X = X[None]
    N, C, H, Wd = X.shape
    oh = (H + 2 * pd[0] - dl[0] * (ks[0] - 1) - 1) // st[0] + 1
    ow = (Wd + 2 * pd[1] - dl[1] * (ks[1] - 1) - 1) // st[1] + 1
    out = obj((N, C * ks[0] * ks[1], oh * ow), E.ZERO)
    for n, c, i, j, a, b in itertools.product(
        range(N), range(C), range(ks[0]), range(ks[1]), range(oh), range(ow)
    ):
        h, w = a * st[0] - pd[0] + i * dl[0], b * st[1] - pd[1] + j * dl[1]
        if 0 <= h < H and 0 <= w < Wd:
            out[n, (c * ks[0] + i) * ks[1] + j, a * ow + b] = X[n, c, h, w]
    return out if batched else out[0]


@op("avg_pool2d")
def _avgpool(f, args, kw, m):
    x, ks = args[0], _pair(args[1], 2)
    st = _pair(args[2], 2) if len(args) > 2 and args[2] else ks
    pd = _pair(args[3], 2) if len(args) > 3 else [0, 0]
    if pd != [0, 0] or (len(args) > 4 and args[4]):
        raise Unsupported("avg_pool2d padding/ceil")
    X = A(x)
    out = obj(m.shape)
    for i in np.ndindex(*out.shape):
        *pre, a, b = i
        blk = [
            X[tuple(pre) + (a * st[0] + p, b * st[1] + q)] for p in range(ks[0]) for q in range(ks[1])
        ]
        out[i] = E.scale(E.esum(blk), Fraction(1, len(blk)))
    return out


@op("avg_pool2d_backward")
def _avgpool_bw(f, args, kw, m):
    g, x, ks = A(args[0]), A(args[1]), _pair(args[2], 2)
    st = _pair(args[3], 2) if args[3] else ks
    out = obj(x.shape, E.ZERO)
    c = Fraction(1, ks[0] * ks[1])
    for i in np.ndindex(*g.shape):
        *pre, a, b = i
        for p in range(ks[0]):
            for q in range(ks[1]):
                t = tuple(pre) + (a * st[0] + p, b * st[1] + q)
                out[t] = E.add(out[t], E.scale(g[i], c))
    return out


# --- unique (concrete values only, forking when symbolic) -----------------------------
def is_discrete(a):
    for e in a.reshape(-1):
        for v in E.free_vars(e):
            if v.k == "v" and v.a[1] not in ("bit", "int", "nat", "nat1") and not (
                isinstance(v.a[1], tuple) and v.a[1][0] == "class"
            ):
                return False
    return True


def _unique_real(t, a, args, kw):
    """Sorted distinct values, deciding equality and order by path; values equal to 0 or 1 (which
    Python code tells apart) become constants."""
    dec = paths.ctx().decide
    us = []
    for e in a.reshape(-1):
        for c in (E.ZERO, E.ONE):
            if e.k != "c" and dec(E.eq(e, c)):
                e = c
        if any(u is e or dec(E.eq(u, e)) for u in us):
            continue
        k = 0
        while k < len(us) and dec(E.lt(us[k], e)):
            k += 1
        us.insert(k, e)
    o = obj((len(us),))
    for i, e in enumerate(us):
        o[i] = e
    if any(args[2:]) or (len(args) < 2 and kw.get("return_inverse")):
        raise Unsupported("unique with inverse/counts of symbolic reals")
    z = torch.zeros(0, dtype=torch.int64)
    return wrap(o, t.dtype), from_real(z), from_real(z)


@special("_unique2", "unique_dim", "unique_consecutive")
def _unique2(f, args, kw):
    t = as_sym(args[0])
    a = A(t)
    if f.overloadpacket.__name__ != "_unique2":
        raise Unsupported(str(f))
    if any(e.k != "c" for e in a.reshape(-1)) and not is_discrete(a):
        return _unique_real(t, a, args, kw)
    vals = []
    for e in a.reshape(-1):
        vals.append(e.a[0] if e.k == "c" else scalars.concretize_int(e))
    from .tensor import no_dispatch

    with no_dispatch():
        r = torch._unique2(
            torch.tensor([float(v) for v in vals], dtype=torch.float64).reshape(a.shape),
            *args[1:],
            **kw,
        )
        u = [E.const(Fraction(x).limit_denominator(10**6)) for x in r[0].tolist()]
        inv, cnt = r[1], r[2]
    o = obj((len(u),))
    for i, e in enumerate(u):
        o[i] = e
    return wrap(o, t.dtype), from_real(inv), from_real(cnt)
