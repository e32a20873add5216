"""C26: the comparison helpers decide closeness of shapes and values."""
import contextlib
import io
import itertools
from fractions import Fraction

from symtorch import expr as E

BOUNDS = {
    "arrays": "at most 4 entries, ranks 0-2; equal and different shapes (also broadcastable ones)",
    "values": "all real values of both arrays; symbolic non-negative tolerances or the defaults",
    "outside": "NaN and infinity; printed text",
}
ASSUMPTIONS = ["floating-point arithmetic is modelled by exact real arithmetic"]


SLACK = Fraction(1, 10**6)


def within(a, b, rtol, atol, slack):
    """|a - b| <= (atol + rtol |b|) (1 + slack) for all entries."""
    return E.band(
        *[
            E.le(E.absolute(E.sub(x, y)), E.scale(E.add(atol, E.mul(rtol, E.absolute(y))), 1 + slack))
            for x, y in zip(a.reshape(-1), b.reshape(-1))
        ]
    )


def helper(kind, s1, s2, tol):
    def sc(env):
        kw = {}
        if tol == "symbolic":
            kw = dict(rtol=env.scalar("rtol", "nonneg"), atol=env.scalar("atol", "nonneg"))
            r, t = env.sp("rtol")[()], env.sp("atol")[()]
        else:
            r, t = E.const(Fraction(1, 10**5)), E.const(Fraction(1, 10**8))
        mk = env.tensor if kind == "torch" else env.array
        a, b = mk("a", s1), mk("b", s2)
        sides = dict(E.SIDE)
        if kind == "torch":
            from curvlinops.utils import allclose_report

            with contextlib.redirect_stdout(io.StringIO()):
                got = allclose_report(a, b, **kw)
            env.true("bool", isinstance(got, bool))
        else:
            from curvlinops.examples.utils import report_nonclose

            with contextlib.redirect_stdout(io.StringIO()):
                _, e = env.attempt(lambda: report_nonclose(a, b, **kw))
            env.true("error", e is None or type(e) is ValueError, f"{type(e).__name__}: {e}")
            got = e is None
        if env.symbolic:  # divisions in the printed report are not part of the behaviour
            E.SIDE.clear()
            E.SIDE.update(sides)
        if s1 != s2:
            env.true("different shapes", not got)
        elif got:
            env.true("close", within(env.sp("a"), env.sp("b"), r, t, SLACK))
        else:
            env.true("not close", E.bnot(within(env.sp("a"), env.sp("b"), r, t, -SLACK)))

    return sc


def partition(n, sizes):
    def sc(env):
        from curvlinops.utils import split_list

        xs = [env.scalar(f"x{i}") for i in range(n)]
        for name, arg in (("list", list(xs)), ("tuple", tuple(xs))):
            if sum(sizes) != n:
                env.raises(name, lambda: split_list(arg, list(sizes)), ValueError)
                continue
            out = split_list(arg, list(sizes))
            env.true(f"{name}/type", isinstance(out, list) and all(isinstance(o, list) for o in out))
            env.true(f"{name}/sizes", [len(o) for o in out] == list(sizes))
            env.true(f"{name}/entries", all(x is y for x, y in zip(xs, [o for l in out for o in l])))

    return sc


def configs(tier):
    out = []
    for kind, tol in itertools.product(("torch", "numpy"), ("default", "symbolic")):
        for s in ((), (1,), (2,), (2, 1)):
            out.append((f"{kind}/{tol}-{s}", helper(kind, s, s, tol)))
        for s, u in (((2,), (2, 1)), ((1,), (2,)), ((2,), (1,)), ((), (1,)), ((2,), (3,)), ((1, 2), (2, 1))):
            out.append((f"{kind}/{tol}-{s}-{u}", helper(kind, s, u, tol)))
    for n in range(5):
        for k in range(4):
            for sizes in itertools.product(range(4), repeat=k):
                if abs(sum(sizes) - n) <= 1:
                    out.append((f"split/{n}-{sizes}", partition(n, sizes)))
    return out
