"""Hash-consed symbolic real-valued expressions (the values of symbolic tensors).

Nodes
-----
``c``    rational constant
``v``    variable                            a = (name, kind)
``+``    a = (c0, ((e, coeff), ...))         affine combination
``*``    a = ((base, exponent), ...)         power product, rational exponents
``f``    a = (name, param, args)             function application
``ite``  a = (bool, x, y)

Boolean nodes: ``T``, ``F``, ``bv`` (variable), ``le`` (e <= 0), ``lt`` (e < 0),
``eq`` (e == 0), ``not``, ``and``, ``or``.

All arithmetic is exact over the reals.  Floats that enter as constants are
recognised as the nearby small rational or square root of a small rational they
were rounded from (see :func:`from_float`).
"""
import hashlib
import math
from fractions import Fraction


class SymbolicError(Exception):
    """The engine met something it cannot encode (an error of the check)."""


class Expr:
    __slots__ = ("k", "a", "id", "fp", "__weakref__")

    def __repr__(self):
        return to_str(self)

    # arithmetic (used by specifications)
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, o):
        return power(self, Fraction(o))

    def __neg__(self):
        return neg(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        raise SymbolicError(f"truth value of a symbolic expression {to_str(self)[:80]}")


_TABLE = {}
_COUNT = [0]
# side conditions met while building expressions: {bool expr}: all assumed
SIDE = {}


def _mk(k, a):
    key = (k, a)
    e = _TABLE.get(key)
    if e is None:
        e = Expr()
        e.k = k
        e.a = a
        e.fp = None
        _COUNT[0] += 1
        e.id = _COUNT[0]
        _TABLE[key] = e
    return e


def _n(c):
    """Normalise a rational number to int when integral."""
    if type(c) is int:
        return c
    if type(c) is Fraction:
        return c.numerator if c.denominator == 1 else c
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return int(c)
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else Fraction(c)
    raise SymbolicError(f"not a rational: {c!r}")


def const(c):
    return _mk("c", (_n(c),))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TRUE = _mk("T", ())
FALSE = _mk("F", ())

# registered symbolic Python floats (filled by scalars.py): float -> Expr
MAGIC = {}
MAGIC_MIN = 2.0**100
MAGIC_MAX = 2.0**127


def var(name, kind="real"):
    """kind: real | pos (>0) | nonneg | bit (0/1) | nat1 (integer >= 1) | int"""
    return _mk("v", (name, kind))


def _try_rational(x, tol, maxden):
    f = Fraction(x).limit_denominator(maxden)
    if f == 0:
        return None
    if abs(float(f) - x) <= tol * abs(x):
        return f
    return None


_FLOAT_CACHE = {}


def from_float(x):
    """Exact expression for a machine float appearing as a constant."""
    x = float(x)
    e = _FLOAT_CACHE.get(x)
    if e is not None:
        return e
    if x != x:
        return undef("NaN constant", ZERO)
    if x in (math.inf, -math.inf):
        raise SymbolicError(f"non-finite constant {x}")
    ax = abs(x)
    if MAGIC_MIN <= ax <= MAGIC_MAX:
        m = MAGIC.get(ax)
        if m is None:
            raise SymbolicError(f"lost symbolic scalar {x}")
        return m if x > 0 else neg(m)
    if 2.0**64 < ax < 2.0**160:
        raise SymbolicError(f"symbolic scalar lost in arithmetic: {x}")
    if x == int(x) and ax < 2**53:
        e = const(int(x))
    else:
        e = None
        tol = 4e-16
        f = _try_rational(x, tol, 1000)
        if f is None:
            g = _try_rational(x * x, 8e-16, 400)
            if g is not None and g.numerator < 10**5:
                e = power(const(g), Fraction(1, 2))
                if x < 0:
                    e = neg(e)
        else:
            e = const(f)
        if e is None:
            f = _try_rational(x, tol, 10**5)
            # decimal literals such as 1e-8
            if f is None:
                d = Fraction(repr(x))
                if len(repr(x)) <= 12:
                    f = d
            if f is None:
                # float32-rounded simple rationals
                f = _try_rational(x, 6e-8, 60)
                import struct

                if f is not None and struct.unpack("f", struct.pack("f", float(f)))[0] != x:
                    f = None
            if f is None:
                f = Fraction(x)
            e = const(f)
    _FLOAT_CACHE[x] = e
    return e


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if type(x) is int:
        return const(x)
    e = getattr(x, "sym_expr", None)
    if e is not None:
        return e
    if isinstance(x, int):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return from_float(x)
    try:
        import numpy as np

        if isinstance(x, np.bool_):
            return TRUE if bool(x) else FALSE
        if isinstance(x, np.integer):
            return const(int(x))
        if isinstance(x, np.floating):
            return from_float(float(x))
    except ImportError:
        pass
    raise SymbolicError(f"cannot lift {type(x)} {x!r}")


def is_const(e):
    return e.k == "c"


def cval(e):
    return e.a[0]


def is_bool(e):
    return e.k in _BOOLK


_BOOLK = frozenset(["T", "F", "bv", "le", "lt", "eq", "not", "and", "or"])

MAXFLAT = 48


def _addto(d, c0, e, s):
    """accumulate s*e into dict d; returns new c0"""
    k = e.k
    if k == "c":
        return c0 + s * e.a[0]
    if k == "+":
        c, ts = e.a
        if len(ts) <= MAXFLAT:
            c0 = c0 + s * c
            for t, co in ts:
                d[t] = d.get(t, 0) + s * co
            return c0
    elif k in _BOOLK:
        e = b2i(e)
        return _addto(d, c0, e, s)
    d[e] = d.get(e, 0) + s
    return c0


def _mkadd(c0, d):
    ts = [(t, _n(c)) for t, c in d.items() if c != 0]
    c0 = _n(c0)
    if not ts:
        return const(c0)
    if len(ts) == 1 and c0 == 0 and ts[0][1] == 1:
        return ts[0][0]
    ts.sort(key=_key)
    return _mk("+", (c0, tuple(ts)))


def _key(t):
    return t[0].id


def b2i(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return ite(b, ONE, ZERO)


def add(x, y):
    if x is ZERO:
        return y if y.k not in _BOOLK else b2i(y)
    if y is ZERO:
        return x if x.k not in _BOOLK else b2i(x)
    d = {}
    c0 = _addto(d, 0, x, 1)
    c0 = _addto(d, c0, y, 1)
    return _mkadd(c0, d)


def sub(x, y):
    if y is ZERO:
        return x
    d = {}
    c0 = _addto(d, 0, x, 1)
    c0 = _addto(d, c0, y, -1)
    return _mkadd(c0, d)


def neg(x):
    return scale(x, -1)


def scale(x, c):
    if c == 1:
        return x
    d = {}
    if x.k == "+":
        c0, ts = x.a
        return _mkadd(c0 * c, {t: co * c for t, co in ts})
    c0 = _addto(d, 0, x, c)
    return _mkadd(c0, d)


def esum(xs):
    d = {}
    c0 = 0
    for x in xs:
        if x is not ZERO:
            c0 = _addto(d, c0, x, 1)
    return _mkadd(c0, d)


def _split(x):
    """x = coeff * core"""
    if x.k == "c":
        return x.a[0], None
    if x.k == "+":
        c0, ts = x.a
        if c0 == 0 and len(ts) == 1:
            return ts[0][1], ts[0][0]
        # pull out a common leading coefficient so that 2*(x+y) and (2x+2y) agree
        lead = ts[0][1]
        if lead != 1:
            return lead, _mkadd(Fraction(c0) / lead, {t: Fraction(co) / lead for t, co in ts})
    return 1, x


def _factors(core):
    if core is None:
        return ()
    if core.k == "*":
        return core.a
    return ((core, 1),)


def _mkmul(coeff, d):
    """coeff * prod base^exp"""
    fs = []
    for b, p in d.items():
        if p == 0:
            continue
        if b.k == "c":
            # prime constants with fractional exponents
            fl = math.floor(p)
            if fl:
                coeff = coeff * Fraction(b.a[0]) ** fl
                p = p - fl
            if p == 0:
                continue
        fs.append((b, _n(p)))
    coeff = _n(coeff)
    if coeff == 0:
        return ZERO
    if not fs:
        return const(coeff)
    if len(fs) == 1 and fs[0][1] == 1:
        core = fs[0][0]
    else:
        fs.sort(key=_key)
        core = _mk("*", tuple(fs))
    if coeff == 1:
        return core
    return scale(core, coeff)


def mul(x, y):
    if x is ZERO or y is ZERO:
        return ZERO
    if x is ONE:
        return y if y.k not in _BOOLK else b2i(y)
    if y is ONE:
        return x if x.k not in _BOOLK else b2i(x)
    if x.k in _BOOLK:
        x = b2i(x)
        return mul(x, y)
    if y.k in _BOOLK:
        return mul(x, b2i(y))
    if x.k == "c":
        return scale(y, x.a[0])
    if y.k == "c":
        return scale(x, y.a[0])
    cx, kx = _split(x)
    cy, ky = _split(y)
    d = {}
    for b, p in _factors(kx):
        d[b] = p
    for b, p in _factors(ky):
        d[b] = d.get(b, 0) + p
    return _mkmul(cx * cy, d)


def _prime_factors(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def side(cond, why):
    """Record a definedness condition (assumed unless a check demands it)."""
    if cond is TRUE:
        return
    SIDE.setdefault(cond, why)


def nonneg(e):
    """Syntactic proof that e >= 0 (False = don't know)."""
    k = e.k
    if k == "c":
        return e.a[0] >= 0
    if k == "v":
        return e.a[1] in ("pos", "nonneg", "bit", "nat1", "nat", "unit") or isinstance(e.a[1], tuple)
    if k == "+":
        c0, ts = e.a
        return c0 >= 0 and all(c > 0 and nonneg(t) for t, c in ts)
    if k == "*":
        return all(
            (p % 1 == 0 and p % 2 == 0) or (p % 1 != 0) or nonneg(b) for b, p in e.a
        )
    if k == "f":
        return e.a[0] in ("exp", "abs")
    if k == "ite":
        return nonneg(e.a[1]) and nonneg(e.a[2])
    return k in _BOOLK


def positive(e):
    k = e.k
    if k == "c":
        return e.a[0] > 0
    if k == "v":
        return e.a[1] in ("pos", "nat1", "unit")
    if k == "+":
        c0, ts = e.a
        if not nonneg(e):
            return False
        return c0 > 0 or any(c > 0 and positive(t) for t, c in ts)
    if k == "*":
        return all(positive(b) for b, _ in e.a)
    if k == "f":
        return e.a[0] == "exp"
    if k == "ite":
        return positive(e.a[1]) and positive(e.a[2])
    return False


def power(x, p):
    p = _n(p)
    if p == 1:
        return x
    if p == 0:
        return ONE
    integral = type(p) is int
    if x.k in _BOOLK:
        x = b2i(x)
    if x.k == "c":
        c = x.a[0]
        if integral:
            if c == 0 and p < 0:
                return undef("div0", x)
            return const(Fraction(c) ** p)
        if c == 0 and p > 0:
            return ZERO
        if c <= 0 or p < 0 and c == 0:
            return undef("root", x)
        f = Fraction(c)
        d = {}
        for q, m in _prime_factors(f.numerator).items():
            d[const(q)] = m * p
        for q, m in _prime_factors(f.denominator).items():
            d[const(q)] = -m * p
        return _mkmul(1, d)
    c, core = _split(x)
    if integral:
        if p < 0:
            for b, _ in _factors(core):
                if not positive(b) and b.k != "c":
                    side(ne0(b), "nonzero divisor")
        if p > 0 and x.k == "+" and core is not None and c == 1 and False:
            pass
        d = {b: q * p for b, q in _factors(core)}
        return _mkmul(Fraction(c) ** p, d)
    if c < 0:
        side(le0(neg(x)), "nonnegative radicand")
        if p < 0:
            side(ne0(x), "nonzero divisor")
        return _mkmul(1, {x: p})
    if not nonneg(core):
        side(le0(neg(core)), "nonnegative radicand")
    if p < 0 and not positive(core):
        side(ne0(core), "nonzero divisor")
    d = {}
    rest = {}
    for b, q in _factors(core):
        if nonneg(b) or q % 1 != 0:
            d[b] = d.get(b, 0) + q * p
        elif q % 2 == 0 and (q * p) % 1 == 0:
            ab = absolute(b)
            d[ab] = d.get(ab, 0) + q * p
        else:
            rest[b] = q
    if rest:
        r = _mkmul(1, rest)
        d[r] = d.get(r, 0) + p
    cp = power(const(c), p)
    return mul(cp, _mkmul(1, d))


def div(x, y):
    if y.k == "c":
        if y.a[0] == 0:
            return undef("div0", x)
        return scale(x, Fraction(1) / y.a[0])
    return mul(x, power(y, -1))


def undef(why, x):
    """A value the real code computes as NaN/Inf: equal to nothing specified."""
    return fn("undef", (x,), why)


def sqrt(x):
    return power(x, Fraction(1, 2))


# --- functions -------------------------------------------------------------
# hook set by smt.py: merge(fname, param, args) -> canonical Fn node or None
FN_CANON = [None]
_FN_KNOWN = {}


def fn(name, args, param=None):
    args = tuple(args)
    key = ("f", (name, param, args))
    e = _TABLE.get(key)
    if e is not None:
        return e
    if FN_CANON[0] is not None:
        e = FN_CANON[0](name, param, args)
        if e is not None:
            _TABLE[key] = e
            return e
    return _mk("f", (name, param, args))


def exp(x):
    if x is ZERO:
        return ONE
    # exp(r + sum c_i log u_i) = exp(r) prod u_i^c_i ; exp(-r) = 1/exp(r)
    c0, ts = (0, ())
    if x.k == "+":
        c0, ts = x.a
    elif x.k != "c":
        ts = ((x, 1),)
    else:
        return fn("exp", (x,)) if x.a[0] > 0 else power(fn("exp", (neg(x),)), -1)
    pre = ONE
    rest = {}
    for t, c in ts:
        if t.k == "f" and t.a[0] == "log":
            pre = mul(pre, power(t.a[2][0], c))
        else:
            rest[t] = c
    r = _mkadd(c0, rest)
    if r is ZERO:
        return pre
    lead = r.a[1][0][1] if r.k == "+" else (1 if r.k != "c" else r.a[0])
    if lead < 0:
        e = power(fn("exp", (neg(r),)), -1)
    else:
        e = fn("exp", (r,))
    return mul(pre, e)


def log(x):
    if x is ONE:
        return ZERO
    if x.k == "c" and x.a[0] <= 0:
        return undef("log", x)
    if x.k == "f" and x.a[0] == "exp":
        return x.a[2][0]
    if x.k == "*" and all(positive(b) for b, _ in x.a):
        return esum([mul(const(p), log(b)) for b, p in x.a])
    if not positive(x):
        side(lt0(neg(x)), "positive argument of log")
    c, core = _split(x)
    return fn("log", (x,))


def sigmoid(x):
    e = exp(x)
    if e.k == "*" and len(e.a) == 1 and e.a[0][1] == -1:
        u = e.a[0][0]
        return power(add(ONE, u), -1)
    return mul(e, power(add(ONE, e), -1))


def softplus(x):
    """log(1 + exp(x)) as a function of canonical arguments."""
    e = exp(x)
    if e.k == "*" and len(e.a) == 1 and e.a[0][1] == -1:
        # log(1 + 1/u) = log(1+u) - log(u)
        u = e.a[0][0]
        return sub(log(add(ONE, u)), log(u))
    return log(add(ONE, e))


def absolute(x):
    if nonneg(x):
        return x
    if x.k == "c":
        return const(abs(x.a[0]))
    c, core = _split(x)
    if c < 0 or c != 1:
        return scale(absolute(core), abs(c))
    return fn("abs", (x,))


def tanh(x):
    if x is ZERO:
        return ZERO
    c, core = _split(x)
    if c < 0:
        return neg(fn("tanh", (neg(x),)))
    return fn("tanh", (x,))


# --- booleans --------------------------------------------------------------
def _through_ite(e, f):
    """f(e) with a conditional term of e (one with a constant branch) pulled out."""
    if e.k == "ite":
        t, c0, co = e, 0, 1
    elif e.k == "+" and len(e.a[1]) == 1 and e.a[1][0][0].k == "ite":
        c0 = e.a[0]
        t, co = e.a[1][0]
    else:
        return None
    c, p, q = t.a
    if p.k != "c" and q.k != "c":
        return None
    g = lambda x: f(add(const(c0), scale(x, co)))
    return bor(band(c, g(p)), band(bnot(c), g(q)))


def le0(e):
    r = _through_ite(e, le0)
    if r is not None:
        return r
    if e.k == "c":
        return TRUE if e.a[0] <= 0 else FALSE
    if positive(e):
        return FALSE
    if nonneg(neg(e)):
        return TRUE
    return _mk("le", (e,))


def lt0(e):
    r = _through_ite(e, lt0)
    if r is not None:
        return r
    if e.k == "c":
        return TRUE if e.a[0] < 0 else FALSE
    if nonneg(e):
        return FALSE
    if positive(neg(e)):
        return TRUE
    return _mk("lt", (e,))


def eq0(e):
    r = _through_ite(e, eq0)
    if r is not None:
        return r
    if e.k == "c":
        return TRUE if e.a[0] == 0 else FALSE
    c, core = _split(e)
    if core is not None and core is not e:
        e = core
    if positive(e) or positive(neg(e)):
        return FALSE
    cl = class_test(e)
    if cl is not None:
        v, k = cl
        C = v.a[1][1]
        if k < 0 or k >= C or int(k) != k:
            return FALSE
        if C == 1:
            return TRUE
        if k == C - 1:
            return band(*[bnot(_class_eq(v, c)) for c in range(C - 1)])
        return _class_eq(v, int(k))
    return _mk("eq", (e,))


def _class_eq(v, c):
    return _mk("eq", (v if c == 0 else add(v, const(-c)),))


def class_test(e):
    """(v, k) when e == 0 tests a class variable v for the value k."""
    if e.k == "v":
        return (e, 0) if isinstance(e.a[1], tuple) else None
    if e.k == "+" and len(e.a[1]) == 1:
        t, c = e.a[1][0]
        if t.k == "v" and isinstance(t.a[1], tuple) and c in (1, -1):
            return t, -e.a[0] * c
    return None


def ne0(e):
    return bnot(eq0(e))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.k == "not":
        return b.a[0]
    if b.k == "le":
        return lt0(neg(b.a[0]))
    if b.k == "lt":
        return le0(neg(b.a[0]))
    return _mk("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.k == "and":
            out.extend(b.a)
        elif b not in out:
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    so = set(out)
    if any(bnot(b) in so for b in out):
        return FALSE
    return _mk("and", tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.k == "or":
            out.extend(b.a)
        elif b not in out:
            out.append(b)
    if not out:
        return FALSE
    out = list(dict.fromkeys(out))
    if len(out) == 1:
        return out[0]
    so = set(out)
    if any(bnot(b) in so for b in out):
        return TRUE
    return _mk("or", tuple(out))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def boolvar(name):
    return _mk("bv", (name,))


def ge(x, y):
    return le0(sub(y, x))


def gt(x, y):
    return lt0(sub(y, x))


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return lt0(sub(x, y))


def eq(x, y):
    if x.k in _BOOLK and y.k in _BOOLK:
        return bnot(bxor(x, y))
    return eq0(sub(x, y))


FORK = [None]  # decides the condition of a conditional on the current path, if set


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if FORK[0] is not None:
        return x if FORK[0](c) else y
    if x.k in _BOOLK and y.k in _BOOLK:
        return bor(band(c, x), band(bnot(c), y))
    if c.k == "not":
        return ite(c.a[0], y, x)
    # nested conditionals on the same condition
    if x.k == "ite" and x.a[0] is c:
        x = x.a[1]
    if y.k == "ite" and y.a[0] is c:
        y = y.a[2]
    if x is y:
        return x
    return _mk("ite", (c, x, y))


def emax(x, y):
    return ite(ge(x, y), x, y)


def emin(x, y):
    return ite(le(x, y), x, y)


def tobool(e):
    if e.k in _BOOLK:
        return e
    return ne0(e)


# --- evaluation --------------------------------------------------------------
def _hash_unit(s):
    h = hashlib.blake2b(s.encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0**64


SEED = [1]


def sample_value(name, kind, salt=0):
    """Deterministic pseudo-random rational for a variable (a 'random point')."""
    u = _hash_unit(f"{SEED[0]}|{salt}|{name}")
    if kind == "bit":
        return 1 if u < 0.5 else 0
    if kind == "sign":
        return 1 if u < 0.5 else -1
    if kind == "unit":
        return Fraction(1 + int(u * 61), 64)
    if kind in ("nat1", "nat"):
        return 2 + int(u * 7)
    if kind == "int":
        return int(u * 9) - 4
    if isinstance(kind, tuple) and kind[0] == "class":
        return int(u * kind[1])
    m = 17 + int(u * 2**20) % 64
    if kind in ("pos", "nonneg"):
        return Fraction(m, 64) + Fraction(int(u * 977) % 31, 32)
    s = 1 if int(u * 2**31) % 2 else -1
    return s * (Fraction(m, 96) + Fraction(int(u * 7919) % 97, 97))


_FNUM = {}
# originals: nd.install() wraps the math module
_mexp, _mlog, _mtanh, _msin, _mcos = math.exp, math.log, math.tanh, math.sin, math.cos


def fn_value(name, param, args):
    if name == "exp":
        return _mexp(args[0])
    if name == "log":
        return _mlog(args[0])
    if name == "abs":
        return abs(args[0])
    if name == "tanh":
        return _mtanh(args[0])
    if name == "trunc":
        return float(math.trunc(args[0]))
    if name == "floor":
        return float(math.floor(args[0]))
    if name == "round":
        return float(round(args[0]))
    if name == "round32":
        import numpy as np

        return float(np.float32(args[0]))
    if name == "undef":
        return math.nan
    if name == "sin":
        return _msin(args[0])
    if name == "cos":
        return _mcos(args[0])
    f = _FNUM.get(name)
    if f is not None:
        return f(param, args)
    # genuinely uninterpreted: a fixed smooth pseudo-random function
    u = _hash_unit(f"{name}|{param}") * 2 + 0.3
    s = u
    for i, a in enumerate(args):
        w = _hash_unit(f"{name}|{param}|{i}") * 2 - 1
        s += _msin(w * a + 0.7 * i + u)
    return s


class Evaluator:
    """Evaluate expressions at a point given by ``lookup(name, kind)``."""

    def __init__(self, lookup=None):
        self.lookup = lookup or sample_value
        self.memo = {}

    def __call__(self, e):
        memo = self.memo
        r = memo.get(e)
        if r is not None:
            return r
        k, a = e.k, e.a
        if k == "c":
            r = float(a[0])
        elif k == "v":
            r = float(self.lookup(a[0], a[1]))
        elif k == "+":
            r = float(a[0])
            for t, c in a[1]:
                r += float(c) * self(t)
        elif k == "*":
            r = 1.0
            for b, p in a:
                v = self(b)
                try:
                    if type(p) is int:
                        r *= v**p
                    else:
                        r *= max(v, 0.0) ** float(p) if v > -1e-12 else math.nan
                except ZeroDivisionError:
                    r = math.nan
                except OverflowError:
                    r = math.inf
        elif k == "f":
            try:
                r = fn_value(a[0], a[1], [self(x) for x in a[2]])
            except (ValueError, OverflowError):
                r = math.nan
        elif k == "ite":
            r = self(a[1]) if self(a[0]) else self(a[2])
        elif k == "T":
            r = True
        elif k == "F":
            r = False
        elif k == "bv":
            r = bool(self.lookup(a[0], "bit"))
        elif k == "le":
            r = self(a[0]) <= 0
        elif k == "lt":
            r = self(a[0]) < 0
        elif k == "eq":
            r = abs(self(a[0])) <= 1e-12
        elif k == "not":
            r = not self(a[0])
        elif k == "and":
            r = all(self(x) for x in a)
        elif k == "or":
            r = any(self(x) for x in a)
        else:
            raise SymbolicError(k)
        memo[e] = r
        return r


def free_vars(e, memo=None, out=None):
    """All variable nodes below e (e may be a list)."""
    seen = set() if memo is None else memo
    out = {} if out is None else out
    stack = list(e) if isinstance(e, (list, tuple)) else [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        k, a = x.k, x.a
        if k in ("v", "bv"):
            out[x] = True
        else:
            stack.extend(children(x))
    return list(out)


def children(x):
    k, a = x.k, x.a
    if k == "+":
        return [t for t, _ in a[1]]
    if k == "*":
        return [b for b, _ in a]
    if k == "f":
        return list(a[2])
    if k in ("ite", "and", "or", "not", "le", "lt", "eq"):
        return list(a)
    return []


# --- differentiation and substitution -----------------------------------------
_FN_DIFF = {}


def register_fn(name, diff=None, value=None):
    """diff(param, args) -> list of partial derivatives (Exprs)."""
    if diff is not None:
        _FN_DIFF[name] = diff
    if value is not None:
        _FNUM[name] = value


def diff(e, v, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(e)
    if r is not None:
        return r
    k, a = e.k, e.a
    if e is v:
        r = ONE
    elif k in ("c", "v"):
        r = ZERO
    elif k == "+":
        r = esum([scale(diff(t, v, memo), c) for t, c in a[1]])
    elif k == "*":
        ts = []
        for i, (b, p) in enumerate(a):
            db = diff(b, v, memo)
            if db is ZERO:
                continue
            ts.append(mul(scale(db, p), mul(e, power(b, -1))))
        r = esum(ts)
    elif k == "f":
        name, param, args = a
        das = [diff(x, v, memo) for x in args]
        if all(d is ZERO for d in das):
            r = ZERO
        else:
            if name == "exp":
                ps = [e]
            elif name == "log":
                ps = [power(args[0], -1)]
            elif name == "tanh":
                ps = [sub(ONE, mul(e, e))]
            elif name == "sin":
                ps = [fn("cos", args)]
            elif name == "cos":
                ps = [neg(fn("sin", args))]
            elif name in _FN_DIFF:
                ps = _FN_DIFF[name](param, args)
            else:
                raise SymbolicError(f"no derivative for {name}")
            r = esum([mul(p, d) for p, d in zip(ps, das)])
    elif k == "ite":
        r = ite(a[0], diff(a[1], v, memo), diff(a[2], v, memo))
    else:
        raise SymbolicError(f"diff of {k}")
    memo[e] = r
    return r


def subst(e, m, memo=None):
    """Simultaneous substitution m: {Expr: Expr}."""
    memo = {} if memo is None else memo
    r = m.get(e)
    if r is not None:
        return r
    r = memo.get(e)
    if r is not None:
        return r
    k, a = e.k, e.a
    if k in ("c", "v", "T", "F", "bv"):
        r = e
    elif k == "+":
        r = add(const(a[0]), esum([scale(subst(t, m, memo), c) for t, c in a[1]]))
    elif k == "*":
        r = ONE
        for b, p in a:
            r = mul(r, power(subst(b, m, memo), p))
    elif k == "f":
        args = [subst(x, m, memo) for x in a[2]]
        if all(x is y for x, y in zip(args, a[2])):
            r = e
        elif a[0] == "exp":
            r = exp(args[0])
        elif a[0] == "log":
            r = log(args[0])
        elif a[0] == "tanh":
            r = tanh(args[0])
        elif a[0] == "abs":
            r = absolute(args[0])
        else:
            r = fn(a[0], args, a[1])
    elif k == "ite":
        r = ite(subst(a[0], m, memo), subst(a[1], m, memo), subst(a[2], m, memo))
    elif k == "le":
        r = le0(subst(a[0], m, memo))
    elif k == "lt":
        r = lt0(subst(a[0], m, memo))
    elif k == "eq":
        r = eq0(subst(a[0], m, memo))
    elif k == "not":
        r = bnot(subst(a[0], m, memo))
    elif k == "and":
        r = band(*[subst(x, m, memo) for x in a])
    elif k == "or":
        r = bor(*[subst(x, m, memo) for x in a])
    else:
        raise SymbolicError(k)
    memo[e] = r
    return r


def to_str(e, depth=6):
    if depth == 0:
        return "…"
    k, a = e.k, e.a
    if k == "c":
        return str(a[0])
    if k in ("v", "bv"):
        return str(a[0])
    if k == "+":
        s = [str(a[0])] if a[0] else []
        s += [f"{c}*{to_str(t, depth-1)}" if c != 1 else to_str(t, depth - 1) for t, c in a[1]]
        return "(" + " + ".join(s) + ")"
    if k == "*":
        return "*".join(to_str(b, depth - 1) + (f"^{p}" if p != 1 else "") for b, p in a)
    if k == "f":
        return f"{a[0]}{a[1] if a[1] is not None else ''}({', '.join(to_str(x, depth-1) for x in a[2])})"
    return k + "(" + ", ".join(to_str(x, depth - 1) if isinstance(x, Expr) else str(x) for x in a) + ")"


def reset():
    """Forget all expressions (between independent configurations)."""
    _NAN.clear()
    keep = [ZERO, ONE, MONE, TRUE, FALSE]
    _TABLE.clear()
    for e in keep:
        _TABLE[(e.k, e.a)] = e
    SIDE.clear()
    _FLOAT_CACHE.clear()
    MAGIC.clear()


_NAN = {}


def nan_cond(e):
    """Condition under which an arithmetic expression is not a number."""
    r = _NAN.get(e)
    if r is None:
        k, a = e.k, e.a
        if k in ("c", "v") or k in _BOOLK:
            r = FALSE
        elif k == "f" and a[0] == "undef":
            r = TRUE
        elif k == "ite":
            r = FALSE
            x, y = nan_cond(a[1]), nan_cond(a[2])
            if x is not FALSE or y is not FALSE:
                r = bor(band(a[0], x), band(bnot(a[0]), y))
        else:
            r = bor(*[nan_cond(c) for c in children(e)])
        _NAN[e] = r
    return r
