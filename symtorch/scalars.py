"""Symbolic Python scalars: float subclasses carrying an expression.

A MagicFloat's machine value is a unique huge double (exactly representable in
single precision) registered with its expression, so that the value survives a
trip through C++ code which only sees a double.
"""
import math
import operator

import torch

from . import expr as E
from . import paths

_n = [0]
_by_expr = {}


def reset():
    _n[0] = 0
    _by_expr.clear()


def magic(e):
    """MagicFloat for a non-constant expression."""
    m = _by_expr.get(e)
    if m is None:
        _n[0] += 1
        if _n[0] >= 2**22:
            raise E.SymbolicError("out of magic scalars")
        x = float((2**22 + _n[0])) * 2.0**80  # 23-bit mantissa: exact in float32
        m = MagicFloat(x)
        m.sym_expr = e
        E.MAGIC[x] = e
        _by_expr[e] = m
    return m


def to_python(e, dtype=torch.float64):
    """Python value of a tensor entry (``.item()``)."""
    if e.k in E._BOOLK:
        if e is E.TRUE or e is E.FALSE:
            return e is E.TRUE
        return paths.ctx().decide(e)
    if e.k == "c":
        v = e.a[0]
        if dtype is not None and not dtype.is_floating_point:
            return int(v) if dtype != torch.bool else bool(v)
        return float(v)
    if dtype is not None and not dtype.is_floating_point:
        return concretize_int(e)
    return magic(e)


def concretize_int(e):
    """Fork over the possible values of an integer expression."""
    c = paths.ctx()
    if e.k == "c":
        return int(e.a[0])
    for v in candidates(e):
        if c.decide(E.eq(e, E.const(v))):
            return v
    raise paths.PathAbort()


def candidates(e):
    if e.k == "v":
        k = e.a[1]
        if k == "bit":
            return [0, 1]
        if k == "sign":
            return [-1, 1]
        if isinstance(k, tuple) and k[0] == "class":
            return list(range(k[1]))
    if e.k == "ite":
        out = []
        for x in e.a[1:]:
            for v in candidates(x):
                if v not in out:
                    out.append(v)
        return out
    if e.k == "c":
        return [int(e.a[0])]
    if e.k in E._BOOLK:
        return [0, 1]
    raise E.SymbolicError(f"cannot concretise {E.to_str(e)[:100]}")


def is_int(e):
    if e.k == "v":
        return e.a[1] in ("int", "nat", "nat1")
    if e.k == "c":
        return e.a[0].denominator == 1
    return False


def val(e):
    """Python number for an expression: float/int when constant."""
    if e.k == "c":
        v = e.a[0]
        return v if isinstance(v, int) else float(v)
    return magic(e)


def _bin(f, swap=False):
    def op(self, o):
        if isinstance(o, torch.Tensor):
            return NotImplemented
        try:
            y = E.lift(o)
        except E.SymbolicError:
            return NotImplemented
        x = self.sym_expr
        r = f(y, x) if swap else f(x, y)
        if isinstance(self, MagicInt) and isinstance(o, int) and r.k != "c":
            return magic_int(r)
        return val(r)

    return op


def _cmp(f):
    def op(self, o):
        try:
            if isinstance(o, float) and o in (math.inf, -math.inf):
                return getattr(float, f.__name__ if False else "__eq__")(0.0, 1.0) if f is E.eq else (
                    f in (E.lt, E.le) if o > 0 else f in (E.gt, E.ge)
                )
            y = E.lift(o)
        except E.SymbolicError:
            return NotImplemented
        return paths.ctx().decide(f(self.sym_expr, y))

    return op


class MagicFloat(float):
    sym_expr = None

    __add__ = _bin(E.add)
    __radd__ = _bin(E.add, True)
    __sub__ = _bin(E.sub)
    __rsub__ = _bin(E.sub, True)
    __mul__ = _bin(E.mul)
    __rmul__ = _bin(E.mul, True)
    __truediv__ = _bin(E.div)
    __rtruediv__ = _bin(E.div, True)
    __lt__ = _cmp(E.lt)
    __le__ = _cmp(E.le)
    __gt__ = _cmp(E.gt)
    __ge__ = _cmp(E.ge)
    __eq__ = _cmp(E.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return float.__hash__(self)

    def __neg__(self):
        return val(E.neg(self.sym_expr))

    def __pos__(self):
        return self

    def __abs__(self):
        return val(E.absolute(self.sym_expr))

    def __pow__(self, p):
        from fractions import Fraction

        pe = E.lift(p)
        if pe.k != "c":
            raise E.SymbolicError("symbolic exponent")
        return val(E.power(self.sym_expr, pe.a[0]))

    def __bool__(self):
        return paths.ctx().decide(E.ne0(self.sym_expr))

    def __float__(self):
        return self

    def __int__(self):
        return concretize_int(self.sym_expr)

    def is_integer(self):
        return False

    def copy(self):
        return self

    item = conjugate = conj = copy

    def __repr__(self):
        return f"<{E.to_str(self.sym_expr, 3)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_restore, (float.__float__(self),))


def _restore(x):
    e = E.MAGIC.get(x)
    return x if e is None else magic(e)


class MagicInt(int):
    """Symbolic integer (unbounded); the machine value is a placeholder."""

    sym_expr = None

    __add__ = _bin(E.add)
    __radd__ = _bin(E.add, True)
    __sub__ = _bin(E.sub)
    __rsub__ = _bin(E.sub, True)
    __mul__ = _bin(E.mul)
    __rmul__ = _bin(E.mul, True)
    __lt__ = _cmp(E.lt)
    __le__ = _cmp(E.le)
    __gt__ = _cmp(E.gt)
    __ge__ = _cmp(E.ge)
    __eq__ = _cmp(E.eq)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return 0

    def __neg__(self):
        return val(E.neg(self.sym_expr))

    def __bool__(self):
        return paths.ctx().decide(E.ne0(self.sym_expr))

    def __repr__(self):
        return f"<{E.to_str(self.sym_expr, 3)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


for _nm in ("__floordiv__", "__mod__", "__int__", "__index__", "__float__", "__pow__", "__truediv__"):

    def _no(self, *a, _nm=_nm):
        raise E.SymbolicError(f"symbolic integer: {_nm}")

    setattr(MagicInt, _nm, _no)


def magic_int(e):
    m = int.__new__(MagicInt, 2**60 + e.id)
    m.sym_expr = e
    return m


def concrete_index(m, n):
    """Value of a symbolic integer used as an index of an axis of length n."""
    c = paths.ctx()
    for v in range(-n, n):
        if c.decide(E.eq(m.sym_expr, E.const(v))):
            return v
    raise IndexError(f"index {m} is out of bounds for axis with size {n}")
