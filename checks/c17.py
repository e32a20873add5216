"""C17: CG and LSMR inverses hand the right system to the solver and return its solution;
with default hyper-parameters, SciPy's own code (executed symbolically) solves it."""
import inspect
import sys

import numpy as np
import scipy.sparse.linalg

from symtorch import expr as E
from symtorch import nd

from .lib import dots
from .np_lib import MatLO, contracts, mat_apply, symmetric

BOUNDS = {
    "hand-over": "all real matrices of size 1-3, right-hand sides, hyper-parameter values; vectors, column vectors and matrices "
    "with 1-3 columns; up to 4 changes of the hyper-parameters",
    "solver": "an arbitrary solver (symbolic solution function) for the hand-over; SciPy's CG code itself, executed "
    "symbolically with the default hyper-parameters, on every positive multiple of the identity of size 1-3 (thorough: diagonal "
    "2 x 2 systems); LSMR's defaults are compared with SciPy's own",
}
ASSUMPTIONS = [
    "exact real arithmetic",
    "SciPy's dispatch, CG and LSMR are executed as installed",
]

CG, LSMR = scipy.sparse.linalg.cg.__wrapped__, scipy.sparse.linalg.lsmr.__wrapped__
UNSET = inspect.signature(CG).parameters["tol"].default if "tol" in inspect.signature(CG).parameters else None
INFO = ("istop", "itn", "normr", "normar", "norma", "conda", "normx")


def effective(kind, args, kw):
    """Parameters the SciPy routine works with, by its own signature."""
    fn = {"cg": CG, "lsmr": LSMR}[kind]
    ba = inspect.signature(fn).bind(*args, **kw)
    ba.apply_defaults()
    d = dict(ba.arguments)
    if kind == "cg":
        tol = d.pop("tol", UNSET)
        if tol is not UNSET and tol is not None:
            d["rtol"] = tol
        if d["atol"] is None:  # SciPy falls back to the relative tolerance as absolute one
            d["atol"] = d["rtol"]
    return d


class Solver:
    """An arbitrary deterministic solver y = f(b), recording what it is given."""

    def __init__(self, env, kind, n):
        self.env, self.kind, self.n = env, kind, n
        self.Q = env.array("Q", (n, n))
        self.q = env.array("q", (n,))
        self.info = [env.scalar("info" + k, "real") for k in INFO]
        self.calls = []

    def __call__(self, orig, *args, **kw):
        d = effective(self.kind, args, kw)
        b = d.pop("b")
        assert np.shape(b) in ((self.n,), (self.n, 1)), np.shape(b)
        b = b.reshape(-1)
        self.calls.append((d.pop("A"), b.copy(), d))
        y = self.Q @ b + self.q + b * b
        return (y, 0) if self.kind == "cg" else (y, *self.info)

    def spec(self, b):
        Q, q = self.env.sp("Q"), self.env.sp("q")
        b = np.asarray(b, dtype=object)
        if b.ndim == 2:
            out = np.empty(b.shape, dtype=object)
            for j in range(b.shape[1]):
                out[:, j] = self.spec(b[:, j])
            return out
        out = np.empty(self.n, dtype=object)
        for i in range(self.n):
            out[i] = E.add(E.add(dots(Q[i], b), q[i]), E.mul(b[i], b[i]))
        return out


def make(kind, A):
    import curvlinops

    return {"cg": curvlinops.CGInverseLinearOperator, "lsmr": curvlinops.LSMRInverseLinearOperator}[kind](A)


def setter(kind, inv):
    return inv.set_cg_hyperparameters if kind == "cg" else inv.set_lsmr_hyperparameters


def hyper_spec(kind, kw):
    """Expected parameters: SciPy's defaults overridden by the user's."""
    return effective(kind, (None, None), kw)


def claims(env, kind, inv, S, A, kw, tag="", inputs=("vec", "col", "mat")):
    n = S.n
    env.true(tag + "shape", tuple(inv.shape) == (n, n))
    exp = hyper_spec(kind, kw)
    exp.pop("A")
    exp.pop("b")
    for kd in inputs:
        shape = {"vec": (n,), "col": (n, 1), "mat": (n, 2), "mat1": (n, 1), "mat3": (n, 3)}[kd]
        nm = tag + kd
        b = env.array("b" + nm, shape)
        sb = env.sp("b" + nm)
        S.calls.clear()
        if kd == "mat1":
            r = inv.matmat(b)
        else:
            r = inv @ b
        env.eq(nm + "/solution", r, S.spec(sb))
        env.eq(nm + "/input", b, sb)
        cols = [sb.reshape(-1)] if kd in ("vec", "col", "mat1") else [sb[:, j] for j in range(sb.shape[1])]
        env.true(nm + "/one solve per column", len(S.calls) == len(cols))
        for j, (op, bb, d) in enumerate(S.calls):
            env.eq(f"{nm}/rhs{j}", bb, cols[j])
            z = env.array("z" + nm + str(j), (n,))
            env.eq(f"{nm}/operator{j}", op @ z, mat_apply(env.sp("A"), env.sp("z" + nm + str(j))))
            if kind == "lsmr":
                env.eq(f"{nm}/adjoint{j}", op.rmatvec(z), mat_apply(env.sp("A").T.copy(), env.sp("z" + nm + str(j))))
            env.true(f"{nm}/parameters{j}", set(d) == set(exp), f"{sorted(d)} vs {sorted(exp)}")
            for k, v in exp.items():
                a = d.get(k)
                if v is None or isinstance(v, bool) or callable(v) or isinstance(v, np.ndarray):
                    env.true(f"{nm}/{k}{j}", a is v or (isinstance(v, bool) and a == v), f"{k}: {a!r} instead of {v!r}")
                else:
                    if a is None:
                        env.true(f"{nm}/{k}{j}", False, f"{k}: None instead of {v!r}")
                    else:
                        env.eq(f"{nm}/{k}{j}", float(a), E.lift(v))


def handover(kind, n, kw=None, inputs=("vec", "col", "mat")):
    def sc(env):
        M = env.array("A", (n, n))
        A = MatLO(M)
        S = Solver(env, kind, n)
        args = (kw or (lambda env, n: {}))(env, n)
        with contracts(env, **{kind: S}):
            inv = make(kind, A)
            if kw is not None:
                setter(kind, inv)(**args)
            claims(env, kind, inv, S, A, args, inputs=inputs)
            if kind == "lsmr":
                b = env.array("binfo", (n,))
                r = inv.matvec_with_info(b)
                env.true("info/type", isinstance(r, tuple) and len(r) == 8)
                env.eq("info/solution", r[0], S.spec(env.sp("binfo")))
                for k, v in zip(INFO, r[1:]):
                    env.eq("info/" + k, v, env.sp("info" + k)[()])

    return sc


def history(kind):
    def sc(env):
        n = 2
        M = env.array("A", (n, n))
        A = MatLO(M)
        S = Solver(env, kind, n)
        with contracts(env, **{kind: S}):
            inv, other = make(kind, A), make(kind, A)
            claims(env, kind, inv, S, A, {}, "0/", ("vec",))
            steps = [
                dict(maxiter=3, atol=env.scalar("t1", "pos")),
                dict(x0=env.array("x0", (n,))),
                {},
                dict(tol=env.scalar("t2", "pos")) if kind == "cg" else dict(damp=env.scalar("t2", "pos")),
            ]
            for i, kw in enumerate(steps, 1):
                setter(kind, inv)(**kw)
                claims(env, kind, inv, S, A, kw, f"{i}/", ("vec", "mat"))
            claims(env, kind, other, S, A, {}, "other/", ("vec",))

    return sc


def cg_kw(env, n):
    return dict(
        x0=env.array("x0", (n,)),
        maxiter=7,
        M=env.array("P", (n, n)),
        callback=print,
        atol=env.scalar("hatol", "pos"),
        tol=env.scalar("htol", "pos"),
    )


def lsmr_kw(env, n):
    return dict(
        damp=env.scalar("hdamp", "pos"),
        atol=env.scalar("hatol", "pos"),
        btol=env.scalar("hbtol", "pos"),
        conlim=env.scalar("hconlim", "pos"),
        maxiter=5,
        show=True,
        x0=env.array("x0", (n,)),
    )


def solve(kind, n, rhs="real", diag=False):
    """SciPy's own code under the default hyper-parameters: relative residual ≤ 1e-5 (CG),
    exact up to the stopping tolerance 1e-6 (LSMR)."""

    def sc(env):
        if diag:
            a = env.array("a", (n,), "pos")
            M = np.zeros((n, n))
            S = np.empty((n, n), dtype=object)
            S[...] = E.ZERO
            for i in range(n):
                M[i, i] = a[i]
                S[i, i] = env.sp("a")[i]
        elif n == 1:
            M = env.array("a", (1, 1), "pos")
            S = env.sp("a")
        else:
            a = env.scalar("a", "pos")
            M = np.eye(n) * a
            S = np.empty((n, n), dtype=object)
            S[...] = E.ZERO
            for i in range(n):
                S[i, i] = env.sp("a")[()]
        A = MatLO(M, np.float64)
        b = env.array("b", (n,), rhs)
        sb = env.sp("b")
        orig = {"cg": CG, "lsmr": LSMR}[kind]
        for mod in (sys.modules["scipy.sparse.linalg._isolve.iterative"], sys.modules["scipy.sparse.linalg._isolve.utils"]):
            for k, f in (("zeros", np.zeros), ("asarray", np.asarray), ("asanyarray", np.asanyarray)):
                if k in vars(mod):
                    setattr(mod, k, f)  # SciPy bound them before NumPy was made symbolic
            mod.float = lambda v: v if isinstance(v, float) else float(v)
        with contracts(env, **{kind: lambda o, *a, **k: orig(*a, **k)}):
            inv = make(kind, A)
            x = inv @ b
        x = nd.lift_arr(x)
        res = E.esum([E.power(E.sub(v, t), 2) for v, t in zip(mat_apply(S, x), sb)])
        nb = E.esum([E.power(t, 2) for t in sb])
        tol = {"cg": 1e-5, "lsmr": 2e-6}[kind]
        env.true(
            "relative residual within the tolerance",
            E.le(res, E.mul(E.lift(E.Fraction(tol).limit_denominator(10**9) ** 2), E.add(nb, E.ZERO))),
        )

    return sc


def rectangular(env):
    """LSMR's underlying operator and its adjoint are handed over."""
    from curvlinops import HessianLinearOperator

    from .lib import Problem

    P = Problem(env, batches=(1, 1), shapes=((2,),))
    H = HessianLinearOperator(P.model, P.loss, P.params, P.data, check_deterministic=False).to_scipy()
    env.specs["A"] = P.hessian()
    for kind in ("cg", "lsmr"):
        S = Solver(env, kind, 2)
        with contracts(env, **{kind: S}):
            claims(env, kind, make(kind, H), S, H, {}, kind + "/", ("vec", "mat"))


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    for kind, kw in (("cg", cg_kw), ("lsmr", lsmr_kw)):
        for n in (1, 2, 3):
            add(f"{kind}-default-{n}", handover(kind, n))
            add(f"{kind}-hyper-{n}", handover(kind, n, kw))
        add(f"{kind}-columns", handover(kind, 2, None, ("mat1", "mat3")))
        for key in ("x0", "maxiter", "atol", "tol" if kind == "cg" else "damp", "M" if kind == "cg" else "conlim",
                    "callback" if kind == "cg" else "btol") + (() if kind == "cg" else ("show",)):
            add(f"{kind}-only-{key}", handover(kind, 2, lambda env, n, k=key, f=kw: {k: f(env, n)[k]}, ("vec", "mat")))
        add(f"{kind}-history", history(kind))
    add("cg-solve-1", solve("cg", 1))
    add("cg-solve-2", solve("cg", 2))
    add("cg-solve-3", solve("cg", 3))
    if tier == "thorough":
        add("cg-solve-diagonal", solve("cg", 2, diag=True))
    add("hessian", rectangular)
    return out
