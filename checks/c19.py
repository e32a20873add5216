"""C19: spectral density approximation follows the normalised Lanczos recipe."""
import math
from fractions import Fraction

import numpy as np

from symtorch import expr as E

from .np_lib import MatLO, contracts

BOUNDS = {
    "lanczos": "2-3 Lanczos vectors (thorough 4), 1-3 repeats (thorough 4); the eigen-decompositions of each run are "
    "arbitrary (symbolic Ritz values and eigenvectors)",
    "bounds": "all real lower < upper bounds; given, partly given or estimated",
    "hyper-parameters": "all kappa > 1, all margins >= 0, all epsilon > 0, their defaults; 2-5 grid points",
    "histories": "up to 5 interleaved queries of cached approximations with changing hyper-parameters, of several "
    "objects at once",
}
ASSUMPTIONS = [
    "exact real arithmetic; the constant 2 pi is the code's double",
    "eigh/eigh_tridiagonal/eigsh by contract: eigsh returns the requested extreme eigenvalues, arbitrary values",
]


class Setting:
    """Operator, stubbed eigensolvers and hyper-parameters."""

    def __init__(self, env, n=3, ncv=2, tag=""):
        self.env, self.ncv, self.tag = env, ncv, tag
        d = env.array(tag + "diag", (n,), "pos")
        M = np.zeros((n, n))
        for i in range(n):
            M[i, i] = d[i]
        self.A = MatLO(M)
        self.runs = []  # (evals, evecs) specification per run

    def new_run(self):
        k = len(self.runs)
        t = self.tag
        env, m = self.env, self.ncv
        ev, V = env.array(f"{t}evals{k}", (m,)), env.array(f"{t}evecs{k}", (m, m))
        self.runs.append((env.sp(f"{t}evals{k}"), env.sp(f"{t}evecs{k}")))
        return ev, V


class Eig:
    """Eigensolver contracts. `owner` is the setting of the running query."""

    def __init__(self, env):
        self.env, self.owner, self.calls = env, None, []
        lo = env.array("lmin", (1,))
        w = env.array("lwidth", (1,), "pos")
        sm, lm = env.array("lsm", (1,)), env.array("llm", (1,))
        self.vals = {"SA": lo, "LA": env.array_of([E.add(env.sp("lmin")[0], env.sp("lwidth")[0])]), "SM": sm, "LM": lm}
        l, h = env.sp("lmin")[0], E.add(env.sp("lmin")[0], env.sp("lwidth")[0])
        self.spec = {"SA": l, "LA": h, "SM": env.sp("lsm")[0], "LM": env.sp("llm")[0]}

    def eigh(self, orig, *a, **kw):
        return self.owner.new_run()

    def eigsh(self, orig, A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0, return_eigenvectors=True, **kw):
        env = self.env
        env.true("eigsh operator", A is self.owner.A)
        env.true("eigsh plain", M is None and sigma is None)
        self.calls.append((which, tol))
        if which == "BE":
            env.true("eigsh k", k == 2)
            r = env.array_of([self.spec["SA"], self.spec["LA"]])
        else:
            env.true("eigsh k", k == 1)
            r = self.vals[which]
        if return_eigenvectors:
            return r, env.array("eigshvec", (A.shape[0], k))
        return r

    def active(self):
        return contracts(self.env, eigh=self.eigh, eigh_tridiagonal=self.eigh, eigsh=self.eigsh)


def average(xs):
    return [E.scale(E.esum(list(c)), Fraction(1, len(xs))) for c in zip(*xs)]


def density_spec(runs, bounds, num_points, kappa, margin, epsilon=None):
    """(grid, density) lists; epsilon: density of log(|A| + eps)."""
    lo, hi = bounds
    if epsilon is not None:
        lo, hi = E.log(E.add(lo, epsilon)), E.log(E.add(hi, epsilon))
    pad = E.mul(margin, E.sub(hi, lo))
    lo, hi = E.sub(lo, pad), E.add(hi, pad)
    c = E.scale(E.add(hi, lo), Fraction(1, 2))
    d = E.scale(E.sub(hi, lo), Fraction(1, 2))
    out = []
    ts = [E.const(Fraction(2 * j, num_points - 1) - 1) for j in range(num_points)]
    xs = [E.add(c, E.mul(t, d)) for t in ts]
    if epsilon is not None:
        xs = [E.exp(x) for x in xs]
    for ev, V in runs:
        m = len(ev)
        sigma = E.div(E.const(Fraction(2, m - 1)), E.sqrt(E.scale(E.log(kappa), 8)))
        two_pi = E.from_float(2 * math.pi)
        norm = E.power(E.mul(sigma, E.sqrt(two_pi)), -1)
        dens = []
        for t, x in zip(ts, xs):
            acc = []
            for i in range(m):
                v = ev[i] if epsilon is None else E.log(E.add(E.absolute(ev[i]), epsilon))
                node = E.div(E.sub(v, c), d)
                z = E.div(E.sub(t, node), sigma)
                bump = E.mul(E.exp(E.scale(E.power(z, 2), Fraction(-1, 2))), norm)
                acc.append(E.mul(E.power(V[0, i], 2), bump))
            jac = d if epsilon is None else E.mul(d, x)
            dens.append(E.div(E.esum(acc), jac))
        out.append(dens)
    return xs, average(out)


class Hyper:
    def __init__(self, env, log, tag="", symbolic=("kappa", "margin", "epsilon"), num_points=3, repeats=1):
        self.kw = {}
        self.log = log
        u = env.scalar(tag + "u", "pos")
        self.kappa = E.add(E.ONE, env.sp(tag + "u")[()])
        self.num_points, self.repeats = num_points, repeats
        if "kappa" in symbolic:
            self.kw["kappa"] = 1 + u
        else:
            self.kappa = None
        if "margin" in symbolic:
            self.kw["margin"] = env.scalar(tag + "margin", "nonneg")
            self.margin = env.sp(tag + "margin")[()]
        else:
            self.margin = E.const(Fraction(5, 100))
        self.epsilon = None
        if log:
            if "epsilon" in symbolic:
                self.kw["epsilon"] = env.scalar(tag + "eps", "pos")
                self.epsilon = env.sp(tag + "eps")[()]
            else:
                self.epsilon = E.const(Fraction(1, 10**5))
        self.kw["num_points"] = num_points
        if repeats is not None:
            self.kw["num_repeats"] = repeats
        else:
            self.repeats = 1

    def spec(self, runs, bounds, default_kappa):
        return density_spec(
            runs[: self.repeats],
            bounds,
            self.num_points,
            self.kappa if self.kappa is not None else E.const(default_kappa),
            self.margin,
            self.epsilon,
        )


def given_bounds(env, how, log, eig):
    """(argument, specification) of the boundaries."""
    if log:
        a, w = env.scalar("blo", "pos"), env.scalar("bw", "pos")
    else:
        a, w = env.scalar("blo", "real"), env.scalar("bw", "pos")
    lo, hi = env.sp("blo")[()], E.add(env.sp("blo")[()], env.sp("bw")[()])
    est = (E.absolute(eig.spec["SM"]), E.absolute(eig.spec["LM"])) if log else (eig.spec["SA"], eig.spec["LA"])
    b = {
        "both": (a, a + w),
        "low": (a, None),
        "high": (None, a + w),
        "none": None,
        "nones": (None, None),
    }[how]
    spec = {"both": (lo, hi), "low": (lo, est[1]), "high": (est[0], hi), "none": est, "nones": est}[how]
    env.assume(E.lt(spec[0], spec[1]))
    return b, spec


def est_calls(how, log):
    """Extreme eigenvalues that have to be estimated."""
    s, l = ("SM", "LM") if log else ("SA", "LA")
    return {"both": [], "low": [l], "high": [s], "none": [s, l], "nones": [s, l]}[how]


def check_calls(env, eig, how, log, tol):
    want = []
    for w, t in eig.calls:
        env.true("tolerance", t == tol)
        want += ["SA", "LA"] if w == "BE" else [w]
    env.true("estimated", sorted(want) == sorted(est_calls(how, log)), f"{eig.calls}")


def functional(log=False, ncv=2, how="both", repeats=1, num_points=3, symbolic=("kappa", "margin", "epsilon"), tol=None):
    def sc(env):
        import curvlinops as c

        fn = c.lanczos_approximate_log_spectrum if log else c.lanczos_approximate_spectrum
        S = Setting(env, ncv=ncv)
        eig = Eig(env)
        eig.owner = S
        b, bs = given_bounds(env, how, log, eig)
        H = Hyper(env, log, "", symbolic, num_points, repeats)
        kw = dict(H.kw)
        if b is not None or how == "nones":
            kw["boundaries"] = b
        if tol is not None:
            kw["boundaries_tol"] = tol
        with eig.active():
            grid, dens = fn(S.A, ncv, **kw)
        check_calls(env, eig, how, log, 1e-2 if tol is None else tol)
        env.true("runs", len(S.runs) == H.repeats)
        g, d = H.spec(S.runs, bs, Fraction(104, 100) if log else 3)
        env.eq("grid", grid, g)
        env.eq("density", dens, d)

    return sc


def cached(log=False, ncv=2, how="both", plan=((1, 3), (2, 3), (1, 2)), tol=None, same=False):
    """Queries of a cached approximation: (repeats, points) each with its own hyper-parameters."""

    def sc(env):
        import curvlinops as c

        S = Setting(env, ncv=ncv)
        eig = Eig(env)
        eig.owner = S
        b, bs = given_bounds(env, how, log, eig)
        kw = {} if tol is None else {"boundaries_tol": tol}
        if b is not None or how == "nones":
            kw["boundaries"] = b
        cls = c.LanczosApproximateLogSpectrumCached if log else c.LanczosApproximateSpectrumCached
        with eig.active():
            obj = cls(S.A, ncv, **kw)
            most = 0
            for q, (reps, pts) in enumerate(plan):
                sym = ("kappa",) if q % 2 else ("margin", "epsilon") if q else ("kappa", "margin", "epsilon")
                H = Hyper(env, log, "" if same else f"q{q}", sym, pts, reps)
                f = obj.approximate_log_spectrum if log else obj.approximate_spectrum
                grid, dens = f(**H.kw)
                most = max(most, H.repeats)
                env.true(f"runs {q}", len(S.runs) == most)
                g, d = H.spec(S.runs, bs, 3)
                env.eq(f"grid {q}", grid, g)
                env.eq(f"density {q}", dens, d)
                # the caller may change what was returned
                grid *= 0
                dens *= 0
        check_calls(env, eig, how, log, 1e-2 if tol is None else tol)

    return sc


def two_objects(log):
    """Two cached approximations, of two operators, used alternately (linear and log)."""

    def sc(env):
        import curvlinops as c

        S1, S2 = Setting(env, tag="a"), Setting(env, tag="b")
        eig = Eig(env)
        eig.owner = S1
        b, bs = given_bounds(env, "both", True, eig)
        with eig.active():
            o1 = c.LanczosApproximateSpectrumCached(S1.A, 2, boundaries=b)
            eig.owner = S2
            cls = c.LanczosApproximateLogSpectrumCached if log else c.LanczosApproximateSpectrumCached
            o2 = cls(S2.A, 2, boundaries=b)
            for q, (w, reps) in enumerate(((1, 2), (2, 1), (1, 1), (2, 2), (1, 3))):
                S = S1 if w == 1 else S2
                eig.owner = S
                lg = log and w == 2
                H = Hyper(env, lg, f"q{q}", ("kappa", "epsilon"), 2, reps)
                o = o1 if w == 1 else o2
                f = o.approximate_log_spectrum if lg else o.approximate_spectrum
                grid, dens = f(**H.kw)
                g, d = H.spec(S.runs, bs, 3)
                env.eq(f"grid {q}", grid, g)
                env.eq(f"density {q}", dens, d)
        env.true("runs", len(S1.runs) == 3 and len(S2.runs) == 2)

    return sc


def boundaries(log):
    """The public-ish boundary helpers return (lower, upper)."""

    def sc(env):
        from curvlinops.papyan2020traces import spectrum as sp

        f = sp.approximate_boundaries_abs if log else sp.approximate_boundaries
        for how in ("both", "low", "high", "none", "nones"):
            S = Setting(env)
            eig = Eig(env)
            eig.owner = S
            b, bs = given_bounds(env, how, log, eig)
            with eig.active():
                r = f(S.A) if b is None else f(S.A, boundaries=b)
                env.true(how, len(r) == 2)
                env.eq(how + " lower", r[0], bs[0])
                env.eq(how + " upper", r[1], bs[1])

    return sc


def configs(tier):
    out = []
    th = tier == "thorough"
    for log in (False, True):
        L = "log" if log else "lin"
        for how in ("both", "low", "high", "none", "nones"):
            out.append((f"{L}/{how}", functional(log, how=how)))
            out.append((f"{L}/cached/{how}", cached(log, how=how, plan=((1, 3), (2, 2)))))
        for reps in (None, 1, 2, 3) + ((4,) if th else ()):
            out.append((f"{L}/repeats{reps}", functional(log, repeats=reps)))
        for ncv in (3,) + ((4,) if th else ()):
            out.append((f"{L}/ncv{ncv}", functional(log, ncv=ncv, num_points=2)))
        for pts in (2, 4, 5):
            out.append((f"{L}/points{pts}", functional(log, num_points=pts)))
        for sym in ((), ("kappa",), ("margin",), ("epsilon",)):
            out.append((f"{L}/defaults except {sym}", functional(log, symbolic=sym, how="none")))
        out.append((f"{L}/tol", functional(log, how="none", tol=0.5)))
        out.append((f"{L}/cached/tol", cached(log, how="none", tol=0.25)))
        out.append((f"{L}/cached/history", cached(log, plan=((2, 3), (1, 2), (3, 2), (None, 3), (2, 2)))))
        out.append((f"{L}/cached/growing", cached(log, plan=((1, 2), (2, 2), (3, 2)), ncv=3)))
        out.append((f"{L}/cached/repeat", cached(log, plan=((2, 2), (2, 2)))))
        out.append((f"{L}/two objects", two_objects(log)))
        out.append((f"{L}/boundaries", boundaries(log)))
    return out
