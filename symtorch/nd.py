"""Symbolic NumPy arrays and the patched NumPy/SciPy entry points."""
import math

import numpy as np
import torch

from . import expr as E
from . import paths, rng, scalars

_ACTIVE = [False]


def activate(on):
    _ACTIVE[0] = on


def active():
    return _ACTIVE[0]


def _py(e):
    return scalars.val(e) if e.k not in E._BOOLK else scalars.to_python(e)


class SymNd(np.ndarray):
    """Object ndarray of expressions with a logical dtype."""

    def __new__(cls, a, dtype=np.float64):
        b = np.asarray_real(a, dtype=object) if hasattr(np, "asarray_real") else np.asarray(a, dtype=object)
        r = b.view(cls)
        r._ld = np.dtype(dtype)
        return r

    def __array_finalize__(self, o):
        self._ld = getattr(o, "_ld", np.dtype("float64"))

    @property
    def a(self):
        return np.ndarray.view(self, np.ndarray)

    @property
    def dtype(self):
        return self._ld

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt == object:
            return np.array(self.a, dtype=object)
        return SymNd(cast(self.a, self._ld, dt), dt)

    def __getitem__(self, i):
        i = _plain_index(i, self.shape)
        r = np.ndarray.__getitem__(self, i)
        if isinstance(r, E.Expr):
            return _py(r)
        return r

    def __setitem__(self, i, v):
        i = _plain_index(i, self.shape)
        src = v
        va = lift_arr(v)
        sd = getattr(src, "dtype", np.dtype("float64"))
        if isinstance(sd, np.dtype) and sd != self._ld:
            va = cast(va, sd, self._ld)
        np.ndarray.__setitem__(self.a, i, va if va.ndim else va[()])

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def item(self, *a):
        e = np.ndarray.item(self, *a) if a else self.a.reshape(-1)[0]
        return _py(e)

    def tolist(self):
        return [x.tolist() if isinstance(x, SymNd) else x for x in self] if self.ndim else self.item()

    def todense(self):
        return self

    def toarray(self):
        return self

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return paths.ctx().decide(E.tobool(self.a.reshape(-1)[0]))

    def __float__(self):
        return self.item()

    def __repr__(self):
        return f"SymNd(shape={self.shape})"

    __str__ = __repr__

    def copy(self, order="C"):
        return SymNd(np.array(self.a, dtype=object, copy=True), self._ld)

    def dot(self, o, out=None):
        return np.dot(self, o)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(E.esum, self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        from fractions import Fraction

        return _reduce(
            lambda xs: E.scale(E.esum(xs), Fraction(1, len(xs))), self, axis, keepdims
        )

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(_fold(E.emax), self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(_fold(E.emin), self, axis, keepdims)

    def any(self, *a, **k):
        return paths.ctx().decide(E.bor(*map(E.tobool, self.a.reshape(-1))))

    def all(self, *a, **k):
        return paths.ctx().decide(E.band(*map(E.tobool, self.a.reshape(-1))))

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return _ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        return _arrfunc(func, args, kwargs)


def _fold(f):
    def g(xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return g


def _plain_index(i, shape):
    if isinstance(i, tuple):
        if Ellipsis in [x for x in i if x is Ellipsis] and any(isinstance(x, scalars.MagicInt) for x in i):
            raise E.SymbolicError("ellipsis with symbolic index")
        return tuple(_plain_index(x, shape[k:]) for k, x in enumerate(i))
    if isinstance(i, SymNd):
        raise E.SymbolicError("symbolic array index")
    if isinstance(i, scalars.MagicInt):
        return scalars.concrete_index(i, shape[0])
    if isinstance(i, list) and any(isinstance(x, scalars.MagicInt) for x in i):
        return [_plain_index(x, shape) for x in i]
    return i


def lift_arr(x):
    if isinstance(x, SymNd):
        return x.a
    if isinstance(x, np.ndarray) and x.dtype == object:
        a = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            a[i] = E.lift(x[i])
        return a
    if isinstance(x, (list, tuple)):
        parts = [lift_arr(y) for y in x]
        a = np.empty((len(parts),) + (parts[0].shape if parts else ()), dtype=object)
        for i, p in enumerate(parts):
            a[i] = p if p.ndim else p[()]
        return a
    if isinstance(x, torch.Tensor):
        from .tensor import arr, as_sym

        return arr(as_sym(x))
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            a[i] = E.lift(x[i].item())
        return a
    a = np.empty((), dtype=object)
    a[()] = E.lift(x)
    return a


def cast(a, src, dst):
    src, dst = np.dtype(src), np.dtype(dst)
    if src == dst:
        return np.array(a, dtype=object, copy=True)
    from .tensor import trunc

    if dst.kind == "b":
        return np.frompyfunc(E.tobool, 1, 1)(a)
    if dst.kind in "iu":
        return np.array(np.frompyfunc(trunc, 1, 1)(a), dtype=object)
    if dst.kind == "f" and src.kind == "f" and dst.itemsize < src.itemsize:
        from .tensor import round_to

        td = {4: torch.float32, 2: torch.float16}[dst.itemsize]
        return np.array(np.frompyfunc(lambda e: round_to(e, td), 1, 1)(a), dtype=object)
    return np.array(a, dtype=object, copy=True)


def _wrapout(r, ld=np.float64):
    if isinstance(r, E.Expr):
        return _py(r)
    r = np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r
    if r.ndim == 0:
        return _py(r[()])
    return SymNd(r, ld)


def _mm(a, b):
    """matmul / dot of object arrays"""
    from .ops import edot, matmul

    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        return edot(a, b)
    if a.ndim == 1:
        _al(a.shape[0], b.shape[0], a, b)
        return matmul(a[None], b)[0]
    if b.ndim == 1:
        _al(a.shape[1], b.shape[0], a, b)
        return matmul(a, b[:, None])[:, 0]
    if a.ndim == 2 and b.ndim == 2:
        _al(a.shape[1], b.shape[0], a, b)
        return matmul(a, b)
    raise E.SymbolicError("matmul of more than two dimensions")


def _al(x, y, a, b):
    if x != y:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")


def _ld(*xs):
    ds = []
    for x in xs:
        if isinstance(x, SymNd):
            ds.append(x._ld)
        elif isinstance(x, np.ndarray) and x.dtype != object:
            ds.append(x.dtype)
        elif isinstance(x, (float, int, bool, np.generic)):
            ds.append(type(x) if not isinstance(x, scalars.MagicFloat) else float)
    arrs = [d for d in ds if isinstance(d, np.dtype)]
    if not arrs:
        return np.dtype("float64")
    r = np.result_type(*arrs)
    if r.kind in "iub" and any(d is float for d in ds):
        r = np.dtype("float64")
    return r


_U1 = {
    "exp": E.exp,
    "log": E.log,
    "sqrt": E.sqrt,
    "negative": E.neg,
    "positive": lambda e: e,
    "absolute": E.absolute,
    "fabs": E.absolute,
    "square": lambda e: E.mul(e, e),
    "reciprocal": lambda e: E.power(e, -1),
    "tanh": E.tanh,
    "conjugate": lambda e: e,
    "isfinite": lambda e: E.bnot(E.nan_cond(e)),
    "isnan": E.nan_cond,
    "isinf": lambda e: E.FALSE,
    "logical_not": lambda e: E.bnot(E.tobool(e)),
    "log1p": lambda e: E.log(E.add(E.ONE, e)),
    "sign": lambda e: E.ite(E.gt(e, E.ZERO), E.ONE, E.ite(E.lt(e, E.ZERO), E.MONE, E.ZERO)),
}


def _pw(x, p):
    if p.k != "c":
        raise E.SymbolicError("symbolic exponent")
    return E.power(x, p.a[0])


def _eq_nan(x, y):
    if x.k in E._BOOLK or y.k in E._BOOLK:
        return E.eq(x, y)
    return E.band(E.eq(x, y), E.bnot(E.bor(E.nan_cond(x), E.nan_cond(y))))


_U2 = {
    "add": E.add,
    "subtract": E.sub,
    "multiply": E.mul,
    "divide": E.div,
    "true_divide": E.div,
    "power": _pw,
    "float_power": _pw,
    "maximum": E.emax,
    "minimum": E.emin,
    "greater": E.gt,
    "greater_equal": E.ge,
    "less": E.lt,
    "less_equal": E.le,
    "equal": _eq_nan,
    "not_equal": lambda x, y: E.bnot(_eq_nan(x, y)),
    "logical_and": lambda x, y: E.band(E.tobool(x), E.tobool(y)),
    "logical_or": lambda x, y: E.bor(E.tobool(x), E.tobool(y)),
}
_CMP = {"greater", "greater_equal", "less", "less_equal", "equal", "not_equal", "logical_and", "logical_or", "isfinite", "isnan", "isinf", "logical_not"}


def _ufunc(ufunc, method, inputs, out, kw):
    nm = ufunc.__name__
    if method == "reduce":
        a = inputs[0]
        f = {
            "add": E.esum,
            "maximum": _fold(E.emax),
            "minimum": _fold(E.emin),
            "multiply": _fold(E.mul),
        }.get(nm)
        if nm in ("logical_and", "logical_or"):
            return a.all() if nm == "logical_and" else a.any()
        if f is None:
            raise E.SymbolicError(f"{nm}.reduce")
        return _reduce(f, a, kw.get("axis", 0), kw.get("keepdims", False))
    if method == "outer":
        x, y = lift_arr(inputs[0]), lift_arr(inputs[1])
        return SymNd(np.frompyfunc(_U2[nm], 2, 1).outer(x, y))
    if method != "__call__":
        raise E.SymbolicError(f"{nm}.{method}")
    if any(isinstance(x, torch.Tensor) for x in inputs):
        return NotImplemented
    if any(_is_linop(x) for x in inputs):
        return NotImplemented
    ld = _ld(*inputs)
    if nm in _CMP:
        ld = np.dtype(bool)
    elif nm in ("divide", "true_divide", "sqrt", "exp", "log", "reciprocal") and ld.kind in "iub":
        ld = np.dtype("float64")
    if nm == "matmul":
        r = _mm(lift_arr(inputs[0]), lift_arr(inputs[1]))
    elif nm in _U1:
        r = np.frompyfunc(_U1[nm], 1, 1)(lift_arr(inputs[0]))
    elif nm in _U2:
        r = np.frompyfunc(_U2[nm], 2, 1)(lift_arr(inputs[0]), lift_arr(inputs[1]))
    else:
        raise E.SymbolicError(f"ufunc {nm} is not encoded")
    if out is not None:
        o = out[0]
        if not isinstance(o, SymNd):
            raise E.SymbolicError("writing symbolic values into a numeric array")
        if ld != o._ld:
            if ld.kind == "f" and o._ld.kind in "iu":
                raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", ld, o._ld, 0)
            r = cast(np.asarray(r, dtype=object), ld, o._ld)
        o.a[...] = r
        return o
    return _wrapout(r, ld)


def _is_linop(x):
    from scipy.sparse.linalg import LinearOperator

    return isinstance(x, LinearOperator)


def _reduce(f, a, axis=None, keepdims=False):
    from .ops import _dims, reduce_

    b = lift_arr(a)
    d = _dims(None if axis is None else (list(axis) if isinstance(axis, tuple) else int(axis)), b.ndim)
    return _wrapout(reduce_(b, d, keepdims, f), _ld(a))


_PASS = {
    "column_stack",
    "stack",
    "concatenate",
    "hstack",
    "vstack",
    "reshape",
    "transpose",
    "moveaxis",
    "swapaxes",
    "ravel",
    "expand_dims",
    "squeeze",
    "broadcast_to",
    "repeat",
    "tile",
    "diag",
    "diagonal",
    "flip",
    "split",
    "array_split",
    "atleast_1d",
    "atleast_2d",
    "copy",
    "roll",
    "triu",
    "tril",
    "take",
    "append",
}


def _strip(x):
    if isinstance(x, SymNd):
        return x.a
    if isinstance(x, (list, tuple)) and any(isinstance(y, (np.ndarray, list, tuple)) for y in x):
        return type(x)(_strip(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "fiub":
        return lift_arr(x)
    return x


def _rewrap(r, ld):
    if isinstance(r, np.ndarray):
        for i in np.ndindex(*r.shape):
            if not isinstance(r[i], E.Expr):
                r = np.array(r, dtype=object)
                r[i] = E.lift(r[i])
        return SymNd(r, ld)
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(y, ld) for y in r)
    return r


def _find_ld(args):
    ds = []

    def walk(x):
        if isinstance(x, SymNd):
            ds.append(x._ld)
        elif isinstance(x, np.ndarray):
            ds.append(x.dtype)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)

    walk(list(args))
    ds = [d for d in ds if d != object]
    return np.result_type(*ds) if ds else np.dtype("float64")


def _arrfunc(func, args, kw):
    nm = func.__name__
    ld = _find_ld(args)
    if nm in _PASS:
        r = func(*[_strip(x) for x in args], **kw)
        return _rewrap(r, ld)
    h = _FN.get(nm)
    if h is None:
        raise E.SymbolicError(f"numpy function {nm} is not encoded")
    return h(*args, **kw)


def _f_dot(a, b, out=None):
    return _wrapout(_mm(lift_arr(a), lift_arr(b)) if np.ndim(a) and np.ndim(b) else np.frompyfunc(E.mul, 2, 1)(lift_arr(a), lift_arr(b)), _ld(a, b))


def _f_einsum(eq, *ops, optimize=False, **kw):
    """Explicit or implicit einsum by definition."""
    import itertools

    ops = [lift_arr(o) for o in ops]
    eq = eq.replace(" ", "")
    if "." in eq:
        raise E.SymbolicError("einsum ellipsis")
    if "->" in eq:
        lhs, rhs = eq.split("->")
    else:
        lhs = eq
        letters = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise ValueError("number of einsum subscripts does not match operands")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum subscripts do not match operand")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError(f"einsum dimension mismatch for {c}")
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for i in np.ndindex(*out.shape):
        ix = dict(zip(rhs, i))
        ts = []
        for j in itertools.product(*[range(dims[c]) for c in summed]):
            ix.update(zip(summed, j))
            t = E.ONE
            for s, o in zip(ins, ops):
                t = E.mul(t, o[tuple(ix[c] for c in s)])
                if t is E.ZERO:
                    break
            ts.append(t)
        out[i] = E.esum(ts)
    return _wrapout(out)


def _f_einsum_path(eq, *ops, optimize="greedy", **kw):
    return ["einsum_path", tuple(range(len(ops)))], ""


def _f_norm(x, ord=None, axis=None, keepdims=False, **kw):
    a = lift_arr(x)
    if ord in (None, 2, "fro") and (a.ndim == 1 or ord in (None, "fro")) and axis is None:
        return _py(E.sqrt(E.esum([E.mul(e, e) for e in a.reshape(-1)])))
    if axis is not None and ord in (None, 2):
        return _reduce(lambda xs: E.sqrt(E.esum([E.mul(e, e) for e in xs])), a, axis, keepdims)
    raise E.SymbolicError("norm variant")


def _f_where(c, *xy):
    if not xy:
        raise E.SymbolicError("where(cond)")
    return _wrapout(
        np.frompyfunc(lambda c, x, y: E.ite(E.tobool(c), x, y), 3, 1)(*[lift_arr(v) for v in (c,) + xy])
    )


_FN = {
    "dot": _f_dot,
    "vdot": _f_dot,
    "inner": lambda a, b: _f_dot(a, b if np.ndim(b) < 2 else SymNd(lift_arr(b).T)),
    "einsum": _f_einsum,
    "einsum_path": _f_einsum_path,
    "norm": _f_norm,
    "sum": lambda a, axis=None, **k: _reduce(E.esum, a, axis, k.get("keepdims", False)),
    "mean": lambda a, axis=None, **k: SymNd(lift_arr(a)).mean(axis),
    "amax": lambda a, axis=None, **k: SymNd(lift_arr(a)).max(axis),
    "amin": lambda a, axis=None, **k: SymNd(lift_arr(a)).min(axis),
    "max": lambda a, axis=None, **k: SymNd(lift_arr(a)).max(axis),
    "min": lambda a, axis=None, **k: SymNd(lift_arr(a)).min(axis),
    "where": _f_where,
    "outer": lambda a, b: SymNd(np.frompyfunc(E.mul, 2, 1).outer(lift_arr(a), lift_arr(b))),
    "trace": lambda a, **k: _py(E.esum([lift_arr(a)[i, i] for i in range(min(np.shape(a)))])),
    "zeros_like": lambda a, dtype=None, **k: SymNd(_full(np.shape(a), E.ZERO), dtype or a.dtype),
    "ones_like": lambda a, dtype=None, **k: SymNd(_full(np.shape(a), E.ONE), dtype or a.dtype),
    "empty_like": lambda a, dtype=None, **k: SymNd(_full(np.shape(a), E.ZERO), dtype or a.dtype),
    "full_like": lambda a, v, dtype=None, **k: SymNd(_full(np.shape(a), E.lift(v)), dtype or a.dtype),
    "ndim": lambda a: np.ndarray.ndim.__get__(a),
    "shape": lambda a: np.ndarray.shape.__get__(a),
    "size": lambda a: np.ndarray.size.__get__(a),
    "iscomplexobj": lambda a: False,
    "isrealobj": lambda a: True,
    "can_cast": lambda *a, **k: True,
    "result_type": lambda *a: _find_ld(a),
    "shares_memory": lambda a, b, **k: np.shares_memory(_strip(a), _strip(b)),
    "may_share_memory": lambda a, b, **k: np.may_share_memory(_strip(a), _strip(b)),
    "qr": lambda a, mode="reduced": stub_qr(a, mode),
    "eigh": lambda a, *k, **kw: stub_eigh(a),
    "allclose": lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: _f_allclose(a, b, rtol, atol, equal_nan),
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: _f_isclose(a, b, rtol, atol, equal_nan),
    "any": lambda a, *k, **kw: SymNd(lift_arr(a)).any(),
    "all": lambda a, *k, **kw: SymNd(lift_arr(a)).all(),
    "array_equal": lambda a, b, **k: np.shape(a) == np.shape(b)
    and paths.ctx().decide(E.band(*[E.eq(x, y) for x, y in zip(lift_arr(a).reshape(-1), lift_arr(b).reshape(-1))])),
    "real": lambda a: a,
    "cumsum": lambda a, axis=None, **k: _f_cumsum(a, axis),
}


def _f_allclose(a, b, rtol, atol, equal_nan):
    from .ops import close_cond

    return paths.ctx().decide(close_cond(lift_arr(a), lift_arr(b), rtol, atol, equal_nan))


def _f_isclose(a, b, rtol, atol, equal_nan):
    from .ops import close_cond

    x, y = np.broadcast_arrays(lift_arr(a), lift_arr(b))
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = close_cond(_full((1,), x[i]), _full((1,), y[i]), rtol, atol, equal_nan)
    return _wrapout(out, np.dtype(bool))


def _f_cumsum(a, axis):
    b = lift_arr(a)
    if axis is None:
        b = b.reshape(-1)
    elif b.ndim > 1:
        raise E.SymbolicError("cumsum axis")
    acc, out = E.ZERO, np.empty(b.shape, dtype=object)
    for i in range(b.size):
        acc = E.add(acc, b[i])
        out[i] = acc
    return SymNd(out)


def _full(shape, v):
    a = np.empty(shape, dtype=object)
    a[...] = v
    return a


# --- tensors <-> arrays -------------------------------------------------------------
_T2N = {
    torch.float64: np.float64,
    torch.float32: np.float32,
    torch.float16: np.float16,
    torch.int64: np.int64,
    torch.int32: np.int32,
    torch.bool: np.bool_,
}
_N2T = {np.dtype(v): k for k, v in _T2N.items()}


def from_tensor(t):
    from .tensor import arr

    if t.dtype == torch.bfloat16:
        raise TypeError("Got unsupported ScalarType BFloat16")
    return SymNd(arr(t), _T2N[t.dtype])


def to_tensor(x, dtype=None, share=True):
    from . import tensor as T

    src = _N2T.get(np.dtype(x.dtype))
    if src is None:
        src = torch.float64
    dst = dtype or src
    a = x.a
    if src == dst and share and a.flags.c_contiguous and a.size:
        flat = a.reshape(-1)
        return T.SymTensor(T.Storage(flat), a.shape, T._contig(a.shape), 0, src)
    return T.wrap(T.cast(np.array(a, dtype=object), src, dst), dst)


# --- contract stubs for LAPACK/ARPACK ---------------------------------------------------
STUBS = {}  # name -> list of call records of the current path


def record(name, **kw):
    c = paths.ctx()
    c.stubs.setdefault(name, []).append(kw)


HANDLERS = {}  # name -> function; installed by checks (symbolic mode only)


def _stub(name):
    h = HANDLERS.get(name)
    if h is None:
        raise E.SymbolicError(f"{name} reached without a contract")
    return h


def stub_qr(a, mode="reduced"):
    return _stub("qr")(a, mode)


def stub_eigh(a, *args, **kw):
    return _stub("eigh")(a, *args, **kw)


# --- patching -----------------------------------------------------------------------
def _symbolic_args(args):
    for x in args:
        if isinstance(x, (SymNd, scalars.MagicFloat)):
            return True
        if isinstance(x, E.Expr):
            return True
        if isinstance(x, (list, tuple)) and _symbolic_args(x):
            return True
    return False


_installed = [False]


def install():
    """Patch numpy/scipy/torch/math entry points (before the repository is imported)."""
    if _installed[0]:
        return
    _installed[0] = True
    import scipy.linalg
    import scipy.sparse
    import scipy.sparse.linalg

    def floaty(dtype):
        return dtype is None or (not isinstance(dtype, E.Expr) and np.dtype(dtype).kind == "f")

    def factory(name, val):
        orig = getattr(np, name)

        def f(shape, *args, **kw):
            dtype = kw.get("dtype", args[0] if args and name in ("zeros", "ones", "empty") else None)
            if not _ACTIVE[0] or not floaty(dtype):
                return orig(shape, *args, **kw)
            return SymNd(_full(shape, val), dtype or np.float64)

        f.__name__ = name
        setattr(np, name, f)

    factory("zeros", E.ZERO)
    factory("ones", E.ONE)
    factory("empty", E.ZERO)

    def likef(name, val):
        orig = getattr(np, name)

        def f(x, *args, **kw):
            dtype = kw.get("dtype", args[0] if args else None)
            src = getattr(x, "dtype", np.dtype(float))
            if not _ACTIVE[0] or not floaty(dtype if dtype is not None else src):
                return orig(x, *args, **kw)
            return SymNd(_full(np.shape(x), val), dtype or src)

        f.__name__ = name
        setattr(np, name, f)

    likef("zeros_like", E.ZERO)
    likef("ones_like", E.ONE)
    likef("empty_like", E.ZERO)

    o_eye = np.eye

    def eye(N, M=None, k=0, dtype=float, **kw):
        r = o_eye(N, M, k, dtype=dtype, **kw)
        return SymNd(lift_arr(r), dtype) if _ACTIVE[0] and floaty(dtype) else r

    np.eye = eye

    o_full = np.full

    def full(shape, v, dtype=None, **kw):
        if _ACTIVE[0] and (_symbolic_args([v]) or isinstance(v, float)) and floaty(dtype):
            return SymNd(_full(shape, E.lift(v)), dtype or np.float64)
        return o_full(shape, v, dtype=dtype, **kw)

    np.full = full

    o_linspace = np.linspace

    def linspace(start, stop, num=50, endpoint=True, **kw):
        if not _ACTIVE[0]:
            return o_linspace(start, stop, num, endpoint, **kw)
        from fractions import Fraction

        s, e = E.lift(start), E.lift(stop)
        a = np.empty(num, dtype=object)
        den = num - 1 if endpoint else num
        for i in range(num):
            w = Fraction(i, den) if den > 0 else Fraction(0)
            a[i] = E.add(E.scale(s, 1 - w), E.scale(e, w))
        return SymNd(a)

    np.linspace = linspace

    o_asarray, o_array, o_asany = np.asarray, np.array, np.asanyarray
    np.asarray_real = o_asarray

    def asarray(x, dtype=None, *a, **kw):
        if isinstance(x, SymNd):
            if dtype is None or np.dtype(dtype) == x.dtype:
                return x
            if np.dtype(dtype) == object:
                return o_asarray(x, dtype=object)
            return x.astype(dtype)
        if _ACTIVE[0] and isinstance(x, (list, tuple)) and dtype is not object and _has_symnd(x):
            return SymNd(lift_arr(x), dtype or np.float64)
        return o_asarray(x, dtype, *a, **kw) if dtype is not None else o_asarray(x, *a, **kw)

    def _has_symnd(x):
        for y in x:
            if isinstance(y, (SymNd, scalars.MagicFloat)):
                return True
            if isinstance(y, (list, tuple)) and _has_symnd(y):
                return True
        return False

    np.asarray = asarray

    def asanyarray(x, dtype=None, *a, **kw):
        if isinstance(x, SymNd) or (_ACTIVE[0] and isinstance(x, (list, tuple)) and _has_symnd(x)):
            return asarray(x, dtype)
        return o_asany(x, dtype, *a, **kw) if dtype is not None else o_asany(x, *a, **kw)

    np.asanyarray = asanyarray

    class _ArrayFn:
        pass

    def array(x, dtype=None, *a, **kw):
        if _ACTIVE[0] and dtype is not object:
            if isinstance(x, SymNd):
                r = x.copy() if kw.get("copy", True) else x
                return r if dtype is None or np.dtype(dtype) == r.dtype else r.astype(dtype)
            if isinstance(x, (list, tuple)) and _has_symnd(x):
                return SymNd(lift_arr(x), dtype or np.float64)
        return o_array(x, dtype, *a, **kw) if dtype is not None else o_array(x, *a, **kw)

    np.array = array

    # scalar math on symbolic Python floats
    def scalar_fn(mod, name, fn):
        orig = getattr(mod, name)

        def f(x, *args, **kw):
            if _ACTIVE[0]:
                if isinstance(x, scalars.MagicFloat):
                    return scalars.val(fn(x.sym_expr))
                if not args and not kw and isinstance(x, (int, float)) and not isinstance(x, bool) and fn is not None:
                    e = E.lift(x)
                    if mod is np or mod is math:
                        try:
                            r = fn(e)
                        except E.SymbolicError:
                            return orig(x)
                        if r.k == "f" and r.a[0] == "undef":
                            return orig(x)
                        # exact constants stay machine floats unless irrational
                        if r.k == "c":
                            return float(r.a[0])
                        return scalars.magic(r)
            return orig(x, *args, **kw)

        if mod is np:
            f.__name__ = name
        setattr(mod, name, f)

    for nm, fn in (
        ("sqrt", E.sqrt),
        ("exp", E.exp),
        ("log", E.log),
    ):
        scalar_fn(np, nm, fn)
        scalar_fn(math, nm, fn)

    # closeness of symbolic Python floats (symbolic arrays dispatch by themselves)
    def close_fn(name):
        orig = getattr(np, name)

        def f(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
            if (
                _ACTIVE[0]
                and not isinstance(a, SymNd)
                and not isinstance(b, SymNd)
                and _symbolic_args([a, b, rtol, atol])
                and np.ndim(a) == 0
                and np.ndim(b) == 0
            ):
                return _f_allclose(a, b, rtol, atol, equal_nan)
            return orig(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)

        f.__name__ = name
        setattr(np, name, f)

    close_fn("isclose")
    close_fn("allclose")

    # random numbers
    R = np.random
    o_randn, o_bin, o_rand, o_norm, o_std, o_unif, o_choice = (
        R.randn,
        R.binomial,
        R.rand,
        R.normal,
        R.standard_normal,
        R.uniform,
        R.choice,
    )
    o_randint = R.randint

    def shp(size):
        if size is None:
            return ()
        return (size,) if isinstance(size, (int, np.integer)) else tuple(size)

    def randn(*dims):
        if _ACTIVE[0]:
            return _wrapout(rng.np_vars("n", tuple(dims), "real", ("normal", None)))
        return rng.np_record("n", o_randn(*dims), ("normal", None))

    def standard_normal(size=None):
        if _ACTIVE[0]:
            return _wrapout(rng.np_vars("n", shp(size), "real", ("normal", None)))
        return rng.np_record("n", o_std(size), ("normal", None))

    def normal(loc=0.0, scale=1.0, size=None):
        if _ACTIVE[0]:
            z = SymNd(rng.np_vars("n", shp(size), "real", ("normal", None)))
            return z * scale + loc
        if rng.RECORDER[0] is None:
            return o_norm(loc, scale, size)
        return rng.np_record("n", o_std(size), ("normal", None)) * scale + loc

    def binomial(n, p, size=None):
        if _ACTIVE[0]:
            if n != 1:
                parts = [
                    rng.np_vars("b", shp(size), "bit", ("bernoulli", E.lift(p))) for _ in range(int(n))
                ]
                t = parts[0]
                for q in parts[1:]:
                    t = np.frompyfunc(E.add, 2, 1)(t, q)
                return _wrapout(t, np.int64)
            return _wrapout(rng.np_vars("b", shp(size), "bit", ("bernoulli", E.lift(p))), np.int64)
        if n != 1:
            return sum(rng.np_record("b", o_bin(1, p, size), ("bernoulli", p)) for _ in range(int(n)))
        return rng.np_record("b", o_bin(n, p, size), ("bernoulli", p))

    def rand(*dims):
        if _ACTIVE[0]:
            return _wrapout(rng.np_vars("u", tuple(dims), "unit", ("uniform", None)))
        return rng.np_record("u", o_rand(*dims))

    def uniform(low=0.0, high=1.0, size=None):
        if _ACTIVE[0]:
            z = SymNd(rng.np_vars("u", shp(size), "unit", ("uniform", None)))
            return z * (high - low) + low
        if rng.RECORDER[0] is None:
            return o_unif(low, high, size)
        return rng.np_record("u", o_rand(*shp(size))) * (high - low) + low

    def choice(a, size=None, replace=True, p=None):
        if _ACTIVE[0]:
            from fractions import Fraction

            vals = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            n = len(vals)
            pr = tuple(E.lift(x) for x in p) if p is not None else (E.const(Fraction(1, n)),) * n
            k = rng.np_vars("c", shp(size), ("class", n), ("categorical", pr))
            from .ops import select_sym

            vv = [E.lift(v) for v in vals]
            return _wrapout(np.frompyfunc(lambda e: select_sym(vv, e), 1, 1)(k), np.asarray(vals).dtype)
        if rng.RECORDER[0] is None:
            return o_choice(a, size, replace, p)
        vals = np.arange(a) if isinstance(a, (int, np.integer)) else o_asarray(a)
        k = rng.np_record(
            "c",
            o_asarray(o_choice(len(vals), size, replace, p)),
            ("categorical", [1.0 / len(vals)] * len(vals) if p is None else list(p)),
        )
        return vals[k.astype(int)]

    def randint(low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if _ACTIVE[0]:
            from fractions import Fraction

            n = hi - lo
            k = rng.np_vars("c", shp(size), ("class", n), ("categorical", (E.const(Fraction(1, n)),) * n))
            return _wrapout(np.frompyfunc(lambda e: E.add(e, E.const(lo)), 1, 1)(k), np.int64)
        if rng.RECORDER[0] is None:
            return o_randint(low, high, size, dtype)
        return rng.np_record(
            "c", o_asarray(o_randint(0, hi - lo, size)), ("categorical", [1.0 / (hi - lo)] * (hi - lo))
        ).astype(dtype) + lo

    R.randn, R.binomial, R.rand, R.normal, R.standard_normal = randn, binomial, rand, normal, standard_normal
    R.uniform, R.choice, R.randint = uniform, choice, randint

    # torch constructors that read numpy arrays
    o_at, o_tensor, o_fn = torch.as_tensor, torch.tensor, torch.from_numpy

    def as_tensor(x, dtype=None, device=None):
        if isinstance(x, SymNd):
            return to_tensor(x, dtype)
        return o_at(x, dtype=dtype, device=device)

    def tensor(x, *, dtype=None, device=None, requires_grad=False, **kw):
        if isinstance(x, SymNd):
            t = to_tensor(x, dtype, share=False)
            return t.requires_grad_(requires_grad)
        return o_tensor(x, dtype=dtype, device=device, requires_grad=requires_grad, **kw)

    def from_numpy(x):
        if isinstance(x, SymNd):
            return to_tensor(x)
        return o_fn(x)

    torch.as_tensor, torch.tensor, torch.from_numpy = as_tensor, tensor, from_numpy

    # stubbed numerical kernels
    def stub(mod, name, key=None):
        orig = getattr(mod, name)
        key = key or name

        def f(*args, **kw):
            if _ACTIVE[0]:
                return _stub(key)(*args, **kw)
            h = REAL_HANDLERS.get(key)
            if h is not None:
                return h(orig, *args, **kw)
            return orig(*args, **kw)

        f.__name__ = name
        f.__wrapped__ = orig
        setattr(mod, name, f)

    stub(scipy.linalg, "eigh")
    stub(scipy.linalg, "eigh_tridiagonal")
    stub(scipy.sparse.linalg, "eigsh")
    stub(scipy.sparse.linalg, "cg")
    stub(scipy.sparse.linalg, "lsmr")
    stub(np.linalg, "qr")
    stub(np.linalg, "eigh")
    stub(scipy.linalg, "qr")

    o_diags = scipy.sparse.diags

    def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
        if not _ACTIVE[0]:
            return o_diags(diagonals, offsets, shape, format, dtype)
        offs = [offsets] if isinstance(offsets, int) else list(offsets)
        ds = [lift_arr(d) for d in (diagonals if not isinstance(offsets, int) else [diagonals])]
        n = len(ds[0]) + abs(offs[0]) if shape is None else shape[0]
        a = _full((n, n), E.ZERO)
        for d, o in zip(ds, offs):
            for i in range(len(d)):
                a[i + max(-o, 0), i + max(o, 0)] = d[i]
        return SymNd(a)

    scipy.sparse.diags = diags
    o_norm = np.linalg.norm

    def nnorm(x, ord=None, axis=None, keepdims=False):
        if isinstance(x, SymNd):
            return _f_norm(x, ord, axis, keepdims)
        return o_norm(x, ord, axis, keepdims)

    np.linalg.norm = nnorm


REAL_HANDLERS = {}
