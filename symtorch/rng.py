"""Random draws as symbolic variables.

A draw is identified by the state of the generator it consumes (in order of first
appearance), so that re-seeding a generator reproduces the same variables and a
different seed (or a continued stream) yields different ones.  Draws are otherwise
arbitrary values of their documented support; their distribution is recorded so
that :func:`expect` can integrate them out exactly.
"""
from fractions import Fraction

import numpy as np
import torch
from torch.utils._mode_utils import no_dispatch
from torch.utils._python_dispatch import TorchDispatchMode

from . import expr as E
from . import paths
from . import tensor as T

_states = {}
_np_count = [0]
DRAWS = {}  # variable name -> (distribution, parameter)


def reset():
    reset_draws()


def reset_draws():
    _states.clear()
    _np_count[0] = 0
    DRAWS.clear()
    with no_dispatch():
        torch.manual_seed(20240229)


def _key(gen, real=False):
    g = torch.default_generator if gen is None else gen
    with no_dispatch():
        st = g.get_state().numpy().tobytes()
    return _states.setdefault(st, len(_states))


def _advance(gen, n):
    """Advance the real generator like a draw of n numbers would."""
    g = torch.default_generator if gen is None else gen
    with no_dispatch():
        torch.rand(max(int(n), 1), generator=g, dtype=torch.float64)


def _fresh():
    try:
        paths.ctx().fresh_random = True
    except E.SymbolicError:
        pass


def _vars(idx, tag, shape, kind, info):
    out = np.empty(shape, dtype=object)
    for n, i in enumerate(np.ndindex(*shape)):
        name = f"draw{tag}{idx}_{n}"
        out[i] = E.var(name, kind)
        DRAWS[name] = info(i)
    _fresh()
    return out


def _gen(args, kwargs):
    for a in list(args) + list(kwargs.values()):
        if isinstance(a, torch.Generator):
            return a
    return None


def draw_normal(gen, shape):
    k = _key(gen)
    z = _vars(k, "n", shape, "real", lambda i: ("normal", None))
    _advance(gen, z.size)
    return z


def _op_normal(func, args, kwargs):
    from .ops import A, ADD, MUL

    gen = _gen(args, kwargs)
    ov = func._overloadname
    name = func.overloadpacket.__name__
    if name == "normal_":
        t = args[0]
        mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
        std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
        z = draw_normal(gen, tuple(t.shape))
        T.write(t, ADD(MUL(z, A(std)), A(mean)))
        return t
    mean = args[0]
    std = args[1] if len(args) > 1 and not isinstance(args[1], (list, tuple)) else kwargs.get("std", 1.0)
    if ov == "float_float":
        shape, dtype = tuple(args[2]), kwargs.get("dtype") or torch.get_default_dtype()
    else:
        m, s = A(mean), A(std)
        shape = np.broadcast_shapes(m.shape, s.shape)
        ref = mean if isinstance(mean, torch.Tensor) else std
        dtype = ref.dtype
        if isinstance(mean, torch.Tensor) and isinstance(std, torch.Tensor) and mean.dtype != std.dtype:
            dtype = mean.dtype
            from .tensor import cast

            s = cast(s, std.dtype, dtype)
            std = T.wrap(s, dtype)
    z = draw_normal(gen, shape)
    out = ADD(MUL(z, A(std)), A(mean))
    if "out" in kwargs:
        T.write(kwargs["out"], out, dtype)
        return kwargs["out"]
    return T.wrap(np.asarray(out, dtype=object).reshape(shape), dtype)


def _op_randn(func, args, kwargs):
    gen = _gen(args, kwargs)
    name = func.overloadpacket.__name__
    if name == "randn_like":
        shape, dtype = tuple(args[0].shape), kwargs.get("dtype") or args[0].dtype
    else:
        shape, dtype = tuple(args[0]), kwargs.get("dtype") or torch.get_default_dtype()
    return T.wrap(draw_normal(gen, shape), dtype)


def _op_rand(func, args, kwargs):
    gen = _gen(args, kwargs)
    name = func.overloadpacket.__name__
    if name == "rand_like":
        shape, dtype = tuple(args[0].shape), kwargs.get("dtype") or args[0].dtype
    else:
        shape, dtype = tuple(args[0]), kwargs.get("dtype") or torch.get_default_dtype()
    k = _key(gen)
    z = _vars(k, "u", shape, "unit", lambda i: ("uniform", None))
    _advance(gen, z.size)
    return T.wrap(z, dtype)


def _op_bernoulli(func, args, kwargs):
    from .ops import A

    gen = _gen(args, kwargs)
    t = args[0]
    p = args[1] if len(args) > 1 and not isinstance(args[1], torch.Generator) else None
    if "p" in kwargs:
        p = kwargs["p"]
    name = func.overloadpacket.__name__
    shape = tuple(t.shape)
    P = np.broadcast_to(A(t) if p is None else A(p), shape)
    k = _key(gen)
    z = _vars(k, "b", shape, "bit", lambda i: ("bernoulli", P[i]))
    _advance(gen, z.size)
    if name == "bernoulli_":
        T.write(t, z)
        return t
    return T.wrap(z, t.dtype)


def _op_multinomial(func, args, kwargs):
    from .ops import A, arg

    gen = _gen(args, kwargs)
    P = A(args[0])
    n = arg(func, args, kwargs, "num_samples")
    repl = arg(func, args, kwargs, "replacement", False)
    if not repl and n != 1:
        raise T.Unsupported("multinomial without replacement")
    one = P.ndim == 1
    if one:
        P = P[None]
    C = P.shape[1]
    shape = (P.shape[0], n)
    k = _key(gen)
    z = _vars(k, "m", shape, ("class", C), lambda i: ("categorical", tuple(P[i[0]])))
    _advance(gen, z.size)
    return T.wrap(z[0] if one else z, torch.int64)


def _op_randint(func, args, kwargs):
    gen = _gen(args, kwargs)
    ov = func._overloadname
    if "low" in ov:
        lo, hi, shape = args[0], args[1], tuple(args[2])
    else:
        lo, hi, shape = 0, args[0], tuple(args[1])
    k = _key(gen)
    n = hi - lo
    z = _vars(k, "i", shape, ("class", n), lambda i: ("categorical", (E.const(Fraction(1, n)),) * n))
    _advance(gen, z.size)
    return T.wrap(np.frompyfunc(lambda e: E.add(e, E.const(lo)), 1, 1)(z), kwargs.get("dtype") or torch.int64)


def _op_randperm(func, args, kwargs):
    raise T.Unsupported("randperm")


for _n, _f in {
    "normal": _op_normal,
    "normal_": _op_normal,
    "randn": _op_randn,
    "randn_like": _op_randn,
    "rand": _op_rand,
    "rand_like": _op_rand,
    "bernoulli": _op_bernoulli,
    "bernoulli_": _op_bernoulli,
    "multinomial": _op_multinomial,
    "randint": _op_randint,
    "randperm": _op_randperm,
}.items():
    T.SPECIAL[_n] = _f


# --- numpy draws (called from nd's patched numpy.random) -----------------------------
def np_vars(tag, shape, kind, info):
    k = _np_count[0]
    _np_count[0] += 1
    out = np.empty(shape, dtype=object)
    for n, i in enumerate(np.ndindex(*shape)):
        name = f"drawnp{tag}{k}_{n}"
        out[i] = E.var(name, kind)
        DRAWS[name] = info
    _fresh()
    return out


def np_record(tag, values, dist=None):
    """Called by the patched numpy.random functions during a concrete run."""
    rec = RECORDER[0]
    if rec is None:
        return values
    return rec.np_draw(tag, values, dist)


RECORDER = [None]


class Recorder(TorchDispatchMode):
    """Concrete run: log every draw under the symbolic name, or force its value."""

    def __init__(self, env, forced=None):
        super().__init__()
        self.env = env
        self.forced = forced or {}
        self.controller = None

    def __enter__(self):
        reset_draws()
        np.random.seed(12345)
        RECORDER[0] = self
        return super().__enter__()

    def __exit__(self, *a):
        RECORDER[0] = None
        return super().__exit__(*a)

    def np_draw(self, tag, values, dist=None):
        k = _np_count[0]
        _np_count[0] += 1
        flat = np.array(values, dtype=float).reshape(-1)
        for n in range(flat.size):
            name = f"drawnp{tag}{k}_{n}"
            if name in self.forced:
                flat[n] = float(self.forced[name])
            if self.controller is not None:
                flat[n] = self.controller.get(name, self.controller.outcomes(dist))
            self.env.valuation[name] = float(flat[n])
        return flat.reshape(np.shape(values)).astype(np.asarray(values).dtype)

    def _force(self, out, tag, k):
        """Record (and possibly override) the standardised draw of each entry."""
        flat = out.detach().reshape(-1)
        vals = flat.tolist()
        for n, v in enumerate(vals):
            self.env.valuation[f"draw{tag}{k}_{n}"] = v
        return out

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func.overloadpacket.__name__
        h = _REC.get(name)
        if h is None:
            return func(*args, **kwargs)
        gen = _gen(args, kwargs)
        k = _key(gen)
        return h(self, k, func, args, kwargs)


def _rec_normal(rec, k, func, args, kwargs):
    name = func.overloadpacket.__name__
    out = func(*args, **kwargs)
    if name == "normal_":
        mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
        std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
    elif name == "normal":
        mean = args[0]
        std = args[1] if len(args) > 1 and not isinstance(args[1], (list, tuple)) else kwargs.get("std", 1.0)
    else:
        mean, std = 0.0, 1.0
    z = (out.double() - mean) / std
    names = [f"drawn{k}_{n}" for n in range(out.numel())]
    if rec.controller is not None:
        zf = [rec.controller.get(n, rec.controller.outcomes(("normal", None))) for n in names]
        z = torch.tensor(zf, dtype=torch.float64).reshape(out.shape)
        out.copy_(z * std + mean)
    elif any(n in rec.forced for n in names):
        zf = [float(rec.forced.get(n, v)) for n, v in zip(names, z.reshape(-1).tolist())]
        z = torch.tensor(zf, dtype=torch.float64).reshape(out.shape)
        out.copy_(z * std + mean)
    for n, v in zip(names, z.reshape(-1).tolist()):
        rec.env.valuation[n] = v
    return out


def _rec_plain(tag):
    def h(rec, k, func, args, kwargs):
        out = func(*args, **kwargs)
        names = [f"draw{tag}{k}_{n}" for n in range(out.numel())]
        if rec.controller is not None:
            ds = _real_dists(tag, func, args, kwargs, out)
            vals = [rec.controller.get(n, rec.controller.outcomes(d)) for n, d in zip(names, ds)]
            out.copy_(torch.tensor(vals, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        elif any(n in rec.forced for n in names):
            vals = [float(rec.forced.get(n, v)) for n, v in zip(names, out.reshape(-1).tolist())]
            out.copy_(torch.tensor(vals, dtype=torch.float64).reshape(out.shape).to(out.dtype))
        for n, v in zip(names, out.reshape(-1).tolist()):
            rec.env.valuation[n] = v
        return out

    return h


def _real_dists(tag, func, args, kwargs, out):
    """Distribution of each entry of a concrete draw."""
    n = out.numel()
    if tag == "b":
        t = args[0]
        p = args[1] if len(args) > 1 and not isinstance(args[1], torch.Generator) else kwargs.get("p")
        P = t if p is None else p
        P = P if isinstance(P, torch.Tensor) else torch.tensor(float(P))
        return [("bernoulli", x) for x in P.double().expand(out.shape).reshape(-1).tolist()]
    if tag == "m":
        P = args[0].double()
        P = P[None] if P.ndim == 1 else P
        P = P / P.sum(-1, keepdim=True)
        per = n // P.shape[0]
        return [("categorical", r) for r in P.tolist() for _ in range(per)]
    if tag == "i":
        lo, hi = (args[0], args[1]) if "low" in func._overloadname else (0, args[0])
        return [("values", [(v, 1.0 / (hi - lo)) for v in range(lo, hi)])] * n
    raise E.SymbolicError(f"no enumeration of {func}")


class Enumerator:
    """Exact expectation of a concrete computation: every combination of outcomes of its
    draws (Gauss-Hermite nodes for Gaussian draws, exact for polynomials of degree
    below 2 * nodes in each draw)."""

    def __init__(self, nodes=2):
        x, w = np.polynomial.hermite_e.hermegauss(nodes)
        self.gauss = [(float(a), float(b) / float(w.sum())) for a, b in zip(x, w)]
        self.plan = []

    def outcomes(self, dist):
        kind, p = dist
        if kind == "normal":
            return self.gauss
        if kind == "bernoulli":
            p = float(E.Evaluator(lambda n, k: 0.0)(p)) if isinstance(p, E.Expr) else float(p)
            return [(0.0, 1 - p), (1.0, p)]
        if kind == "categorical":
            return [(float(i), float(q)) for i, q in enumerate(p)]
        if kind == "values":
            return p
        raise E.SymbolicError(f"no enumeration over {kind}")

    def begin(self):
        self.pos, self.weight, self.assigned = 0, 1.0, {}

    def get(self, name, outs):
        if name in self.assigned:
            return self.assigned[name]
        if self.pos == len(self.plan):
            self.plan.append([len(outs), 0])
        v, w = outs[self.plan[self.pos][1]]
        self.pos += 1
        self.weight *= w
        self.assigned[name] = v
        return v

    def advance(self):
        del self.plan[self.pos :]
        while self.plan:
            self.plan[-1][1] += 1
            if self.plan[-1][1] < self.plan[-1][0]:
                return True
            self.plan.pop()
        return False


def real_expectation(fn, nodes=2, limit=20000):
    """Expectation of the (nested) numeric result of fn over its draws, on the real code."""
    rec = RECORDER[0]
    en = Enumerator(nodes)
    np0, t0, n0 = _np_count[0], torch.get_rng_state(), np.random.get_state()
    tot, runs = None, 0
    rec.controller = en
    try:
        while True:
            _np_count[0] = np0
            torch.set_rng_state(t0)
            np.random.set_state(n0)
            en.begin()
            r = fn()
            w = en.weight
            tot = [w * x for x in r] if tot is None else [t + w * x for t, x in zip(tot, r)]
            runs += 1
            if runs > limit:
                raise E.SymbolicError("too many outcomes to enumerate")
            if not en.advance():
                return tot
    finally:
        rec.controller = None


_REC = {
    "normal": _rec_normal,
    "normal_": _rec_normal,
    "randn": _rec_normal,
    "randn_like": _rec_normal,
    "rand": _rec_plain("u"),
    "rand_like": _rec_plain("u"),
    "bernoulli": _rec_plain("b"),
    "bernoulli_": _rec_plain("b"),
    "multinomial": _rec_plain("m"),
    "randint": _rec_plain("i"),
}


# --- expectation -----------------------------------------------------------------------
def expect(e, names=None):
    """E[e] over all draws occurring in e (independent, in reverse order of drawing)."""
    while True:
        vs = [v for v in E.free_vars(e) if v.k == "v" and v.a[0] in DRAWS]
        if names is not None:
            vs = [v for v in vs if v.a[0] in names]
        if not vs:
            return e
        v = max(vs, key=lambda x: x.id)
        dist, p = DRAWS[v.a[0]]
        if dist == "bernoulli":
            p = E.lift(p)
            e = E.add(
                E.mul(p, E.subst(e, {v: E.ONE})),
                E.mul(E.sub(E.ONE, p), E.subst(e, {v: E.ZERO})),
            )
        elif dist == "categorical":
            e = E.esum([E.mul(q, E.subst(e, {v: E.const(c)})) for c, q in enumerate(p)])
        elif dist == "normal":
            # E f(z) = sum_k f^(2k)(0) / (2^k k!)  for polynomial f
            out, d, k, c = [], e, 0, Fraction(1)
            while d is not E.ZERO and k < 8:
                out.append(E.scale(E.subst(d, {v: E.ZERO}), c))
                d = E.diff(E.diff(d, v), v)
                k += 1
                c = c / (2 * k)
            if d is not E.ZERO and E.free_vars(d):
                if v in E.free_vars(d):
                    raise E.SymbolicError("not polynomial in a Gaussian draw")
            e = E.esum(out)
        else:
            raise E.SymbolicError(f"expectation over {dist}")
