"""C18: trace, diagonal and norm estimators are unbiased, repeated estimates independent."""
import numpy as np

from symtorch import expr as E
from symtorch import nd, rng
from symtorch.harness import as_obj, flat, snapshot, stackify

from .lib import dots
from .np_lib import MatLO, contracts, orthonormal, symmetric

BOUNDS = {
    "matrices": "all real (also non-symmetric; for the norm also rectangular) matrices of size 1-4 "
    "(estimators) and 1-4 with bases of 1-4 vectors (Hutch++); LinearOperator and plain array",
    "distributions": "rademacher, normal (and the default)",
    "samples": "1-3 estimates per estimator, also interleaved with a second estimator and after reseeding",
    "draws": "expectations are exact sums/integrals over all values of all draws",
    "Hutch++ basis": "QR by contract: orthonormal bases from one Householder reflection (every subspace of dimension or codimension 1; the replay uses the real QR); the expectation is "
    "conditional on everything the basis was computed from",
}
ASSUMPTIONS = [
    "NumPy's random functions return independent draws of their documented distributions",
    "exact real arithmetic",
]

DISTS = ("rademacher", "normal")


def matrix(env, n, how, m=None):
    M = env.array("A", (m or n, n))
    if how == "array":
        return M
    return MatLO(M)


def estimate(kind, A, dist):
    import curvlinops as c

    est = {
        "trace": c.HutchinsonTraceEstimator,
        "diag": c.HutchinsonDiagonalEstimator,
        "norm": c.HutchinsonSquaredFrobeniusNormEstimator,
    }[kind](A)
    return (lambda: est.sample()) if dist is None else (lambda: est.sample(dist))


def truth(kind, A):
    if kind == "trace":
        return [E.esum([A[i, i] for i in range(A.shape[1])])]
    if kind == "diag":
        return [A[i, i] for i in range(A.shape[1])]
    return [E.esum([E.power(a, 2) for a in A.reshape(-1)])]


def aslist(r):
    return list(np.asarray(r, dtype=object).reshape(-1)) if isinstance(r, np.ndarray) else r


def basic(kind, n, dist="rademacher", how="op", m=None, reps=1, kw=False):
    """E[sample] for each of `reps` consecutive estimates."""

    def sc(env):
        A = matrix(env, n, how, m)
        S = env.sp("A")
        f = estimate(kind, A, dist)
        r = f()
        if kind == "diag":
            env.true("shape", tuple(r.shape) == (n,))
        else:
            env.true("scalar", np.ndim(r) == 0 if not isinstance(r, nd.SymNd) else r.a.shape == ())
        for i in range(reps):
            env.eq(f"mean{i}", env.expectation(f), as_obj(truth(kind, S)))

    return sc


def indep(kind, n, dist, m=None, squares=False):
    """E[s1 s2] = E[s1] E[s2] (entrywise), for consecutive estimates of one estimator, and for
    two estimators of the same matrix."""

    def sc(env):
        A = matrix(env, n, "op", m)
        S = env.sp("A")
        t = truth(kind, S)
        prods = as_obj([E.mul(a, b) for a in t for b in t])
        f = estimate(kind, A, dist)
        g = estimate(kind, A, dist)

        def outer(u, v):
            a, b = ([x] if kind != "diag" else [x[i] for i in range(n)] for x in (u, v))
            return [a[i] * b[j] for i in range(len(t)) for j in range(len(t))]

        nodes = 3 if kind == "norm" else 2
        env.eq("consecutive", env.expectation(lambda: outer(f(), f()), nodes=nodes), prods)
        env.eq("third", env.expectation(lambda: (lambda a, b, c: outer(a, c))(f(), f(), f()), nodes=nodes), prods)
        env.eq("other", env.expectation(lambda: outer(f(), g()), nodes=nodes), prods)

    return sc


def hutchpp(n, k, dist="rademacher", bdist="rademacher", reps=2, how="op", default=False):
    def sc(env):
        from curvlinops import HutchPPTraceEstimator

        A = matrix(env, n, how)
        S = env.sp("A")
        kk = k
        Q, _ = orthonormal(env, "Q", n, kk, reflections=1 if n > 1 else None)
        used = set()

        def stub(orig, a, *args, **kw):
            x = nd.lift_arr(a)
            for e in x.reshape(-1):
                used.update(v.a[0] for v in E.free_vars(e) if v.k == "v")
            return env.array_of(Q), env.array_of(np.array([[E.ZERO] * kk] * kk, dtype=object))

        args = [] if default else [kk]
        akw = {} if bdist is None else dict(basis_distribution=bdist)
        est = HutchPPTraceEstimator(A, *args, **akw)
        f = (lambda: est.sample()) if dist is None else (lambda: est.sample(dist))
        tr = truth("trace", S)
        if env.symbolic:
            with contracts(env, qr=stub):
                for i in range(reps):
                    r = [E.lift(x) for x in flat(stackify(snapshot(f())))]
                    names = {v for v in rng.DRAWS if v not in used}
                    env.eq(f"mean{i}", as_obj([rng.expect(x, names) for x in r]), as_obj(tr))
                r1, r2 = f(), f()
                p = [E.mul(E.lift(a), E.lift(b)) for a, b in zip(flat(stackify(snapshot(r1))), flat(stackify(snapshot(r2))))]
                names = {v for v in rng.DRAWS if v not in used}
                env.eq("uncorrelated", as_obj([rng.expect(x, names) for x in p]), as_obj([E.mul(tr[0], tr[0])]))
        else:
            # the real QR; a fresh estimator per outcome of the draws
            def fresh(reps):
                e = HutchPPTraceEstimator(A, *args, **akw)
                s = [e.sample() if dist is None else e.sample(dist) for _ in range(reps)]
                return s

            f()
            for i in range(reps):
                env.eq(f"mean{i}", env.expectation(lambda: fresh(i + 1)[-1:]), as_obj(tr))
            env.eq("uncorrelated", env.expectation(lambda: (lambda s: [s[0] * s[1]])(fresh(2))), as_obj([E.mul(tr[0], tr[0])]))

    return sc


def full_basis(n, dist):
    """With a basis of full dimension every single estimate is the exact trace."""

    def sc(env):
        from curvlinops import HutchPPTraceEstimator

        A = matrix(env, n, "op")
        tr = truth("trace", env.sp("A"))[0]
        Q, _ = orthonormal(env, "Q", n, n, reflections=1 if n > 1 else None)

        def stub(orig, a, *args, **kw):
            return env.array_of(Q), env.array_of(np.array([[E.ZERO] * n] * n, dtype=object))

        with contracts(env, qr=stub):
            est = HutchPPTraceEstimator(A, n)
            env.eq("exact", est.sample(dist), tr)
            env.eq("exact again", est.sample(dist), tr)

    return sc


def rejections():
    def sc(env):
        import curvlinops as c

        n = 2
        R = MatLO(env.array("R", (3, 2)))
        A = MatLO(env.array("A", (n, n)))
        A1 = MatLO(env.array("A1", (1, 1)))
        for cls in (c.HutchinsonTraceEstimator, c.HutchinsonDiagonalEstimator, c.HutchPPTraceEstimator):
            env.raises(cls.__name__ + " tall", lambda: cls(R), ValueError)
            env.raises(cls.__name__ + " wide", lambda: cls(R.T), ValueError)
        for k in (3, 4, 100):
            env.raises(f"basis {k}", lambda: c.HutchPPTraceEstimator(A, k), ValueError)
            env.raises(f"basis kw {k}", lambda: c.HutchPPTraceEstimator(A, basis_dim=k), ValueError)
        env.raises("basis 2 of 1", lambda: c.HutchPPTraceEstimator(A1, 2), ValueError)
        for bad in ("gaussian", "", "Rademacher", "uniform", "NORMAL"):
            for cls in (
                c.HutchinsonTraceEstimator,
                c.HutchinsonDiagonalEstimator,
                c.HutchinsonSquaredFrobeniusNormEstimator,
            ):
                env.raises(f"{cls.__name__} {bad!r}", lambda: cls(A).sample(bad), ValueError)
                env.raises(f"{cls.__name__} kw {bad!r}", lambda: cls(A).sample(distribution=bad), ValueError)
            env.raises(f"basis dist {bad!r}", lambda: c.HutchPPTraceEstimator(A, 1, bad).sample(), ValueError)

    return sc


def integer_basis():
    """Every basis dimension above the operator's dimension is rejected, no smaller one is."""

    def sc(env):
        import curvlinops as c

        n = 3
        A = MatLO(env.array("A", (n, n)))
        k = env.integer("k", "nat1")
        ek = env.sp("k")[()]
        _, err = env.attempt(lambda: c.HutchPPTraceEstimator(A, k))
        large = E.lt(E.const(n), ek)
        env.true("rejected iff too large", large if err is not None else E.bnot(large))
        if err is not None:
            env.true("type", isinstance(err, ValueError))

    return sc


def mixed_seed(n, dist):
    """Estimates after reseeding NumPy's generator repeat; different estimators stay unbiased when
    interleaved."""

    def sc(env):
        A = matrix(env, n, "op")
        S = env.sp("A")
        f, g = estimate("trace", A, dist), estimate("diag", A, dist)
        tr, dg = truth("trace", S), truth("diag", S)
        f()
        g()
        env.eq("interleaved", env.expectation(lambda: [f(), *g()]), as_obj(tr + dg))
        exp = as_obj([E.mul(tr[0], d) for d in dg])
        env.eq("across", env.expectation(lambda: (lambda a, b: [a * b[i] for i in range(n)])(f(), g())), exp)

    return sc


def configs(tier):
    out = []
    for kind in ("trace", "diag", "norm"):
        for dist in DISTS:
            for n in (1, 2, 3) + ((4,) if tier == "thorough" or kind != "norm" else ()):
                out.append((f"{kind}/{dist}/n{n}", basic(kind, n, dist, reps=2 if n < 3 else 1)))
            out.append((f"{kind}/{dist}/array", basic(kind, 2, dist, how="array")))
            out.append((f"{kind}/{dist}/independent/n2", indep(kind, 2, dist)))
            if tier == "thorough" and kind != "norm":
                out.append((f"{kind}/{dist}/independent/n3", indep(kind, 3, dist)))
        out.append((f"{kind}/default", basic(kind, 2, None)))
    for dist in DISTS:
        out.append((f"norm/{dist}/3x2", basic("norm", 2, dist, m=3)))
        out.append((f"norm/{dist}/2x3", basic("norm", 3, dist, m=2)))
        out.append((f"norm/{dist}/1x3", basic("norm", 3, dist, m=1)))
        out.append((f"mixed/{dist}", mixed_seed(2, dist)))
    for dist in DISTS:
        for bdist in DISTS:
            for n, k in ((1, 1), (2, 1), (2, 2)) + (((3, 1),) if bdist == "rademacher" else ()):
                out.append((f"hutchpp/{dist}/{bdist}/{n}-{k}", hutchpp(n, k, dist, bdist)))
        if tier == "thorough":
            for n, k in ((3, 2), (4, 1)):
                out.append((f"hutchpp/{dist}/{n}-{k}", hutchpp(n, k, dist, reps=1)))
        for n in (1, 2, 3):
            out.append((f"hutchpp/full/{dist}/{n}", full_basis(n, dist)))
    out.append(("hutchpp/defaults", hutchpp(2, 1, None, None, default=True)))
    out.append(("hutchpp/array", hutchpp(2, 1, "normal", "normal", how="array")))
    out.append(("rejections", rejections()))
    out.append(("basis dimension", integer_basis()))
    return out
