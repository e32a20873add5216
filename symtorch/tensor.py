"""SymTensor: a torch.Tensor subclass whose entries are symbolic expressions.

The real PyTorch (autograd engine, composite operators, nn.Modules, hooks, and
third-party Python on top of it) runs unmodified.  Every ATen operator that
reaches the dispatcher is interpreted here: shapes, strides, dtypes, aliasing
and argument errors come from running the same operator on ``meta`` tensors,
values are computed by the rules of :mod:`ops`.
"""
import itertools

import numpy as np
import torch
from torch.utils._mode_utils import no_dispatch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map, tree_unflatten

from . import expr as E
from . import paths

aten = torch.ops.aten
OPS = {}  # packet name -> compute
SPECIAL = {}  # packet name -> handler(func, args, kwargs) before the meta run
COUNTS = {"ops": 0, "elements": 0, "op_names": {}}

_storage_ids = itertools.count(1)


class Storage:
    __slots__ = ("arr", "ident")

    def __init__(self, arr):
        self.arr = arr
        self.ident = next(_storage_ids)


class SymTensor(torch.Tensor):
    __torch_function__ = torch._C._disabled_torch_function_impl

    @staticmethod
    def __new__(cls, st, size, stride, offset, dtype, requires_grad=False):
        t = torch.Tensor._make_wrapper_subclass(
            cls,
            tuple(size),
            strides=tuple(stride),
            storage_offset=offset,
            dtype=dtype,
            layout=torch.strided,
            device=torch.device("cpu"),
            requires_grad=requires_grad,
        )
        t._st = st
        return t

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self, *, tensor_contents=None):
        return f"SymTensor(shape={tuple(self.shape)}, dtype={self.dtype})"

    def data_ptr(self):
        return 4096 * self._st.ident + 8 * self.storage_offset()

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        out = wrap(arr(self).copy(), self.dtype)
        if self.requires_grad:
            out.requires_grad_(True)
        if getattr(self, "_is_param", False):
            out._is_param = True
        memo[id(self)] = out
        return out

    def __reduce_ex__(self, proto):
        return (_rebuild, (arr(self).copy(), self.dtype, self.requires_grad))

    def tolist(self):
        from . import scalars

        a = arr(self)
        return np.vectorize(lambda e: scalars.to_python(e, self.dtype), otypes=[object])(
            a
        ).tolist() if a.size else a.tolist()

    def numpy(self, *, force=False):
        from . import nd

        if self.requires_grad and not force:
            raise RuntimeError(
                "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead."
            )
        return nd.from_tensor(self)

    def __array__(self, dtype=None):
        from . import nd

        if self.requires_grad:
            raise RuntimeError(
                "Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead."
            )
        return nd.from_tensor(self)

    def __format__(self, spec):
        return f"<sym {tuple(self.shape)}>"


def _rebuild(a, dtype, rg):
    t = wrap(a, dtype)
    if rg:
        t.requires_grad_(True)
    return t


def arr(t):
    """Object array view on the entries of t (shares storage)."""
    base = t._st.arr
    size, stride, off = tuple(t.size()), t.stride(), t.storage_offset()
    if base.size == 0 or 0 in size:
        return np.empty(size, dtype=object)
    isz = base.itemsize
    return np.lib.stride_tricks.as_strided(
        base[off:], shape=size, strides=[s * isz for s in stride]
    )


def _contig(size):
    st = []
    acc = 1
    for s in reversed(size):
        st.append(acc)
        acc *= max(s, 1)
    return tuple(reversed(st))


def wrap(a, dtype, requires_grad=False, stride=None):
    """New SymTensor owning a copy of the object array a."""
    a = np.asarray(a, dtype=object)
    size = a.shape
    stride = _contig(size) if stride is None else tuple(stride)
    if a.size == 0:
        st = Storage(np.empty(0, dtype=object))
    else:
        n = 1 + sum((s - 1) * q for s, q in zip(size, stride))
        base = np.empty(n, dtype=object)
        st = Storage(base)
        v = np.lib.stride_tricks.as_strided(
            base, shape=size, strides=[q * base.itemsize for q in stride]
        )
        v[...] = a
    return SymTensor(st, size, stride, 0, dtype, requires_grad)


def from_real(t):
    """Constant SymTensor with the values of an ordinary tensor."""
    with no_dispatch():
        n = t.detach().cpu().resolve_conj().resolve_neg().numpy()
        size, dtype = tuple(t.shape), t.dtype
    a = np.empty(size, dtype=object)
    flat = [E.lift(x.item()) for x in n.reshape(-1)]
    for i, e in enumerate(flat):
        a.reshape(-1)[i] = e
    return wrap(a, dtype)


def sym(a, dtype=torch.float64, requires_grad=False):
    """SymTensor from a (nested) list / object array of Exprs or numbers."""
    a = np.array(a, dtype=object) if not isinstance(a, np.ndarray) else a
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = E.lift(a[i])
    return wrap(out, dtype, requires_grad)


def tsym(name, shape, dtype=torch.float64, kind="real", requires_grad=False):
    """Fresh symbolic tensor."""
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = E.var(name + "".join(f"_{j}" for j in i), kind)
    return wrap(a, dtype, requires_grad)


def as_sym(t):
    return t if isinstance(t, SymTensor) else from_real(t)


_META_BASE = {}


def to_meta(t):
    """Meta tensor with the same geometry."""
    size, stride, off, dtype = tuple(t.size()), t.stride(), t.storage_offset(), t.dtype
    n = max(t._st.arr.size, 1) if isinstance(t, SymTensor) else t.untyped_storage().nbytes() // max(t.element_size(), 1)
    base = torch.empty(n, dtype=dtype, device="meta")
    return base.as_strided(size, stride, off)


def cast(a, src, dst):
    """Convert the value array a from dtype src to dtype dst."""
    if src == dst:
        return a
    if dst == torch.bool:
        return _u(E.tobool)(a)
    out = a
    if src == torch.bool:
        out = _u(E.b2i)(a)
        return out
    if dst.is_floating_point:
        if src.is_floating_point and torch.finfo(src).eps < torch.finfo(dst).eps:
            return _u(lambda e: round_to(e, dst))(a)
        return out
    if src.is_floating_point:
        return _u(trunc)(a)
    return out


def trunc(e):
    if e.k == "c":
        v = e.a[0]
        return E.const(int(v))
    if e.k == "v" and e.a[1] in ("bit", "sign", "nat", "nat1", "int"):
        return e
    if e.k == "v" and isinstance(e.a[1], tuple):
        return e
    if e.k == "ite":
        return E.ite(e.a[0], trunc(e.a[1]), trunc(e.a[2]))
    return E.fn("trunc", (e,))


EXACT = [False]  # treat narrowing floating-point casts as identities


def round_to(e, dt):
    if EXACT[0]:
        return e
    if e.k == "c":
        v = e.a[0]
        f = torch.finfo(dt)
        if isinstance(v, int) and abs(v) < 2**11:
            return e
        from fractions import Fraction

        d = Fraction(v).denominator
        if d & (d - 1) == 0 and abs(Fraction(v).numerator) < 1 / f.eps and d < 2**20:
            return e
    if e.k == "v" and e.a[1] in ("bit", "sign", "nat", "nat1", "int"):
        return e
    if e.k == "ite":
        return E.ite(e.a[0], round_to(e.a[1], dt), round_to(e.a[2], dt))
    name = {torch.float32: "round32", torch.float16: "round16", torch.bfloat16: "roundb16"}[dt]
    if e.k == "f" and e.a[0] == name:
        return e
    return E.fn(name, (e,))


_UF = {}


def _u(f):
    """Elementwise f (broadcasting); always returns an array."""
    g = {}

    def h(*xs):
        n = len(xs)
        if n not in g:
            g[n] = np.frompyfunc(f, n, 1)
        r = g[n](*xs)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            return o
        return r

    return h


class Unsupported(E.SymbolicError):
    pass


def _schema_info(func):
    info = getattr(func, "_sym_info", None)
    if info is None:
        sch = func._schema
        writes = []
        for i, a in enumerate(sch.arguments):
            if a.alias_info is not None and a.alias_info.is_write:
                writes.append((i, a.name, a.kwarg_only))
        ret_view = [
            r.alias_info is not None and not r.alias_info.is_write for r in sch.returns
        ]
        info = (writes, ret_view)
        try:
            func._sym_info = info
        except AttributeError:
            pass
    return info


def is_inplace_view(func):
    return torch.Tag.inplace_view in func.tags


def dispatch(func, args, kwargs):
    name = func.overloadpacket.__name__
    COUNTS["ops"] += 1
    COUNTS["op_names"][name] = COUNTS["op_names"].get(name, 0) + 1
    h = SPECIAL.get(name)
    if h is not None:
        return h(func, args, kwargs)
    if is_inplace_view(func):
        with no_dispatch():
            func(*args, **kwargs)
        return args[0]

    writes, ret_view = _schema_info(func)

    def tosym(x):
        if isinstance(x, torch.Tensor) and not isinstance(x, SymTensor):
            return from_real(x)
        return x

    flat, spec = tree_flatten((args, kwargs))
    any_real = any(isinstance(x, torch.Tensor) and not isinstance(x, SymTensor) for x in flat)
    if any_real:
        if writes:
            for i, nm, kwo in writes:
                tgt = kwargs.get(nm) if kwo or nm in kwargs else (args[i] if i < len(args) else None)
                if isinstance(tgt, torch.Tensor) and not isinstance(tgt, SymTensor):
                    if any(isinstance(x, SymTensor) for x in flat):
                        raise Unsupported(f"in-place {name} of symbolic values into a real tensor")
                    with no_dispatch():
                        return func(*args, **kwargs)
        flat = [tosym(x) for x in flat]
        args, kwargs = tree_unflatten(flat, spec)

    # meta run
    def tometa(x):
        if isinstance(x, SymTensor):
            return to_meta(x)
        if isinstance(x, torch.device):
            return torch.device("meta")
        if isinstance(x, torch.Generator):
            return None
        return x

    mflat = [tometa(x) for x in flat]
    margs, mkwargs = tree_unflatten(mflat, spec)
    has_tensor = any(isinstance(x, SymTensor) for x in flat)
    if not has_tensor and "device" in [a.name for a in func._schema.arguments]:
        mkwargs = dict(mkwargs)
        mkwargs["device"] = torch.device("meta")
    mkwargs.pop("pin_memory", None)
    meta = func(*margs, **mkwargs)

    if any(ret_view) and not writes:
        # a view: share storage
        src = next(x for x in flat if isinstance(x, SymTensor))

        def mkview(m):
            return SymTensor(src._st, m.size(), m.stride(), m.storage_offset(), m.dtype)

        if isinstance(meta, torch.Tensor):
            if meta.dtype != src.dtype:
                raise Unsupported(f"dtype-changing view {func}")
            return mkview(meta)
        return type(meta)(mkview(m) for m in meta)

    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    if name in ("__iadd__", "__imul__"):
        base = name[3:-2]
    f = OPS.get(name) or OPS.get(base)
    if f is None:
        f = decomposed(func)
        if f is None:
            raise Unsupported(f"operator {func} is not encoded")
        if f is not None and not writes:
            return f(*args, **kwargs)
        if f is not None and writes:
            raise Unsupported(f"operator {func} is not encoded")
    res = f(func, args, kwargs, meta)

    if writes:
        outs = res if isinstance(res, (tuple, list)) else (res,)
        ret = []
        for (i, nm, kwo), o in zip(writes, outs):
            tgt = kwargs[nm] if kwo or nm in kwargs else args[i]
            o, od = o if isinstance(o, tuple) else (o, meta_dtype(meta))
            if kwo and tuple(tgt.shape) != tuple(np.shape(o)):
                with no_dispatch():
                    raise Unsupported("resizing out=")
            write(tgt, o, od)
            ret.append(tgt)
        return ret[0] if len(ret) == 1 else tuple(ret)
    if isinstance(meta, torch.Tensor):
        return finish(res, meta)
    if isinstance(meta, (tuple, list)):
        outs = []
        for r, m in zip(res, meta):
            outs.append(finish(r, m) if isinstance(m, torch.Tensor) else r)
        return type(meta)(outs) if not hasattr(meta, "_fields") else tuple(outs)
    return res


def meta_dtype(m):
    if isinstance(m, torch.Tensor):
        return m.dtype
    return m[0].dtype


def finish(r, m):
    r = np.asarray(r, dtype=object)
    if r.shape != tuple(m.shape):
        try:
            r = np.broadcast_to(r, tuple(m.shape))
        except ValueError:
            raise E.SymbolicError(f"shape mismatch {r.shape} vs meta {tuple(m.shape)}")
    COUNTS["elements"] += r.size
    a = _fix_bool(r, m.dtype)
    stride = m.stride()
    if any(s == 0 and n > 1 for s, n in zip(stride, m.shape)):
        stride = None
    return wrap(a, m.dtype, stride=stride)


def _fix_bool(a, dtype):
    if dtype == torch.bool:
        return _u(E.tobool)(a) if a.size else a
    return _u(lambda e: E.b2i(e) if e.k in E._BOOLK else e)(a) if a.size else a


def write(tgt, a, src_dtype=None):
    """Write values into an existing tensor."""
    a = np.asarray(a, dtype=object)
    v = arr(tgt)
    a = np.broadcast_to(a, v.shape)
    if src_dtype is not None and src_dtype != tgt.dtype and a.size:
        a = cast(a, src_dtype, tgt.dtype)
    a = _fix_bool(a, tgt.dtype)
    COUNTS["elements"] += a.size
    if v.size:
        v[...] = np.array(a, dtype=object, copy=True)


_DECOMP = {}


def decomposed(func):
    if func in _DECOMP:
        return _DECOMP[func]
    from torch._decomp import decomposition_table

    d = decomposition_table.get(func)
    if d is None and torch._C._dispatch_has_kernel_for_dispatch_key(
        func.name(), "CompositeImplicitAutograd"
    ):
        d = func.decompose
    if d is not None:
        g = d

        def run(*args, **kwargs):
            with SymMode():
                return g(*args, **kwargs)

        d = run
    _DECOMP[func] = d
    return d


class SymMode(TorchDispatchMode):
    """All tensor operations (factories included) become symbolic."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})
