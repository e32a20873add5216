"""Scenarios, claims, replay and evidence.

A *scenario* is a Python function ``scenario(env)`` which builds inputs through
``env``, calls the repository's code and yields claims about the results.  It is
executed (a) symbolically over every feasible path, where each claim becomes a
solver query, and (b) concretely with ordinary tensors, to validate the encoding
and to replay counterexamples.
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from . import expr as E
from . import nd, paths, rng, scalars, smt
from . import tensor as T
from . import linalg, ops  # noqa: F401

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


class Claim:
    """``actual`` (from the code) must equal ``expected`` (from the specification)."""

    __slots__ = ("name", "kind", "actual", "expected", "note")

    def __init__(self, name, kind, actual, expected=None, note=""):
        self.name, self.kind, self.actual, self.expected, self.note = name, kind, actual, expected, note


class Env:
    """Input factory shared by the symbolic and the concrete execution."""

    symbolic = None
    dtype = torch.float64

    def __init__(self):
        self.claims = []
        self.specs = {}
        self.kinds = {}

    # --- specification side ---
    def sp(self, name):
        return self.specs[name]

    def _register(self, name, shape, kind):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = E.var(name + "".join(f"_{j}" for j in i), kind)
        self.specs[name] = a
        return a

    # --- claims ---
    def eq(self, name, actual, expected, note=""):
        """Entries, shape equal (expected: object array / nested list of Exprs)."""
        self.claims.append(Claim(name, "eq", snapshot(actual), as_obj(expected), note))

    def true(self, name, cond, note=""):
        """A Python bool computed from the run (e.g. identity, dtype, exception type)
        or a boolean expression."""
        self.claims.append(Claim(name, "true", cond, None, note))

    def same(self, name, actual, expected, note=""):
        """Two results of the code are equal."""
        self.claims.append(Claim(name, "same", snapshot(actual), snapshot(expected), note))

    def raises(self, name, fn, exc):
        """fn() must raise exc (type or tuple)."""
        try:
            r = fn()
        except exc as ex:
            self.true(name, True)
            return ex
        except Exception as ex:
            if isinstance(ex, E.SymbolicError):
                raise
            self.true(name, False, f"raised {type(ex).__name__}: {ex} instead of {exc}")
            return ex
        self.true(name, False, f"no exception, returned {type(r).__name__}")
        return None

    def attempt(self, fn):
        """(result, None) or (None, exception)."""
        try:
            return fn(), None
        except E.SymbolicError:
            raise
        except Exception as ex:
            return None, ex


def as_obj(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        a = x
    elif isinstance(x, E.Expr):
        a = np.empty((), dtype=object)
        a[()] = x
    elif isinstance(x, (list, tuple)):
        parts = [as_obj(y) for y in x]
        if parts and any(p.shape != parts[0].shape for p in parts):
            return list(parts)
        a = np.empty((len(parts),) + (parts[0].shape if parts else ()), dtype=object)
        for i, p in enumerate(parts):
            a[i] = p[()] if isinstance(p, np.ndarray) and p.shape == () else p
        return a
    else:
        a = np.asarray(x, dtype=object)
        if a.shape == ():
            b = np.empty((), dtype=object)
            b[()] = x
            a = b
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = E.lift(a[i])
    return out


def snapshot(x):
    """Copy of a result at this point: object array (symbolic) or float array."""
    if isinstance(x, nd.SymNd):
        return np.array(x.a, dtype=object, copy=True)
    if isinstance(x, T.SymTensor):
        return np.array(T.arr(x), dtype=object, copy=True)
    if isinstance(x, torch.Tensor):
        if T_mode_active():
            return np.array(T.arr(T.from_real(x)), dtype=object)
        t = x.detach()
        return t.to(torch.float64).numpy().copy() if t.dtype != torch.bool else t.numpy().astype(float)
    if isinstance(x, E.Expr):
        return as_obj(x)
    if isinstance(x, (list, tuple)):
        return [snapshot(y) for y in x]
    if isinstance(x, dict):
        return [snapshot(x[k]) for k in x]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return as_obj(x)
        return as_obj(x) if T_mode_active() else np.asarray(x, dtype=float).copy()
    if getattr(x, "sym_expr", None) is not None:
        return as_obj(x.sym_expr)
    if isinstance(x, (bool, int, float, np.generic)):
        return as_obj(E.lift(x)) if T_mode_active() else np.asarray(float(x))
    if x is None:
        return None
    raise E.SymbolicError(f"cannot snapshot {type(x)}")


_ACTIVE = [False]


def T_mode_active():
    return _ACTIVE[0]


class SymEnv(Env):
    symbolic = True

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def tensor(self, name, shape, kind="real", dtype=None, requires_grad=False):
        a = self._register(name, tuple(shape), kind)
        return T.wrap(a, dtype or self.dtype, requires_grad)

    def const(self, values, dtype=None):
        t = torch.tensor(values, dtype=dtype or self.dtype)
        return T.as_sym(t)

    def param(self, name, shape, kind="real", dtype=None):
        return torch.nn.Parameter(self.tensor(name, shape, kind, dtype))

    def scalar(self, name, kind="pos"):
        e = self._register(name, (), kind)[()]
        return scalars.magic(e)

    def exact_casts(self, tol=1e-4):
        """Precision of narrower floating-point types is outside this scenario."""
        T.EXACT[0] = True

    def fork_conditionals(self):
        """Explore the branches of conditional values as separate paths."""
        E.FORK[0] = paths.ctx().decide

    def array_of(self, exprs, dtype=None):
        """Array with the given expressions as entries."""
        return nd.SymNd(as_obj(exprs), dtype or np.dtype("float64"))

    def tensor_of(self, exprs, dtype=None):
        return T.wrap(as_obj(exprs), dtype or self.dtype)

    def integer(self, name, kind="int"):
        return scalars.magic_int(self._register(name, (), kind)[()])

    def array(self, name, shape, kind="real", dtype=None):
        a = self._register(name, tuple(shape), kind)
        return nd.SymNd(a, dtype or np.dtype("float64"))

    def choose(self, n, label=""):
        return self.ctx.choose(n, label)

    def expectation(self, fn, products=False, nodes=None):
        """Entrywise expectation of fn() over its random draws (one flat list); with
        products, also of all pairwise products of entries."""
        r = [E.lift(x) for x in flat(stackify(snapshot(fn())))]
        if products:
            r = r + [E.mul(a, b) for i, a in enumerate(r) for b in r[i:]]
        return as_obj([rng.expect(x) for x in r])

    def decide(self, cond):
        """Case distinction: one path per truth value."""
        return self.ctx.decide(cond)

    def assume(self, cond):
        if cond is E.TRUE:
            return
        r = smt.check(self.ctx.pc + [cond], 5000, "assumption", want_model=False)
        if r.verdict == "unsat":
            raise paths.PathAbort()
        self.ctx.pc.append(cond)


class RealEnv(Env):
    symbolic = False

    def __init__(self, valuation, choices=(), salt=0):
        super().__init__()
        self.valuation = dict(valuation)
        self.choices = list(choices)
        self.salt = salt
        self.bad_assume = False
        self.tol = RTOL

    def _low(self, dtype):
        if dtype in (torch.float32, np.float32, np.dtype("float32")):
            self.tol = max(self.tol, 1e-4)

    def value(self, name, kind):
        if name in self.valuation:
            return self.valuation[name]
        v = E.sample_value(name, kind, self.salt)
        self.valuation[name] = v
        return v

    def _values(self, name, shape, kind):
        self._register(name, tuple(shape), kind)
        out = np.empty(shape, dtype=np.float64)
        for i in np.ndindex(*shape):
            out[i] = float(self.value(name + "".join(f"_{j}" for j in i), kind))
        return out

    def tensor(self, name, shape, kind="real", dtype=None, requires_grad=False):
        self._low(dtype)
        v = self._values(name, tuple(shape), kind)
        t = torch.tensor(v, dtype=dtype or self.dtype).reshape(tuple(shape))
        return t.requires_grad_(requires_grad)

    def const(self, values, dtype=None):
        return torch.tensor(values, dtype=dtype or self.dtype)

    def param(self, name, shape, kind="real", dtype=None):
        return torch.nn.Parameter(self.tensor(name, shape, kind, dtype))

    def scalar(self, name, kind="pos"):
        self._register(name, (), kind)
        v = self.value(name, kind)
        if kind in ("nat1", "nat", "int"):
            return int(v)
        return float(v)

    def exact_casts(self, tol=1e-4):
        self.tol = max(self.tol, tol)

    def fork_conditionals(self):
        pass

    def array_of(self, exprs, dtype=None):
        a = as_obj(exprs)
        ev = E.Evaluator(self.lookup)
        out = np.empty(a.shape, dtype=np.float64)
        for i in np.ndindex(*a.shape):
            out[i] = ev(a[i])
        return out.astype(dtype or np.float64)

    def tensor_of(self, exprs, dtype=None):
        self._low(dtype)
        return torch.tensor(self.array_of(exprs), dtype=dtype or self.dtype)

    def integer(self, name, kind="int"):
        return int(self.scalar(name, kind))

    def array(self, name, shape, kind="real", dtype=None):
        self._low(dtype)
        v = self._values(name, tuple(shape), kind)
        return v.astype(dtype or np.float64)

    def choose(self, n, label=""):
        return self.choices.pop(0) if self.choices else 0

    def expectation(self, fn, products=False, nodes=None):
        def go():
            r = [float(x) for x in flat(stackify(snapshot(fn())))]
            if products:
                r = r + [a * b for i, a in enumerate(r) for b in r[i:]]
            return r

        return np.array(rng.real_expectation(go, nodes or (3 if products else 2)))

    def decide(self, cond):
        return bool(E.Evaluator(self.lookup)(cond))

    def assume(self, cond):
        if not E.Evaluator(self.lookup)(cond):
            self.bad_assume = True

    def lookup(self, name, kind):
        if name in self.valuation:
            return self.valuation[name]
        return E.sample_value(name, kind, self.salt)


# --- comparing ---------------------------------------------------------------------
def flat(x):
    if isinstance(x, list):
        out = []
        for y in x:
            out.extend(flat(y))
        return out
    if x is None:
        return []
    return list(np.asarray(x).reshape(-1))


def shapes(x):
    if isinstance(x, list):
        return [shapes(y) for y in x]
    if x is None:
        return None
    return tuple(np.shape(x))


def norm_shapes(a, b):
    """Do two (nested) results have the same structure?  A list of arrays of equal
    shape is also comparable with their stacked array."""
    return shapes(a) == shapes(b)


def stackify(x):
    if isinstance(x, list):
        parts = [stackify(y) for y in x]
        if parts and all(isinstance(p, np.ndarray) and p.shape == parts[0].shape for p in parts):
            return np.stack(parts)
        return parts
    return x


RTOL = 1e-9


def num_differs(act, exp, tol=None):
    """Numeric disagreement of two flat lists of floats."""
    a = np.array([float(x) for x in act])
    e = np.array([float(x) for x in exp])
    bad = np.isnan(e) | np.isinf(e)
    scale = 1.0 + (np.abs(e[~bad]).max() if (~bad).any() else 0.0)
    with np.errstate(invalid="ignore"):
        d = np.abs(a - e)
    diff = ~(d <= (tol or RTOL) * scale)
    return diff & ~bad


class Violation(Exception):
    pass


class Outcome:
    def __init__(self, config):
        self.config = config
        self.violations = []  # dicts
        self.errors = []
        self.undecided = []  # not encodable, no solver answer or out of time
        self.paths = 0
        self.claims = 0
        self.elements = 0
        self.validated = 0
        self.sample = None
        self.stats = {}
        self.ops = 0
        self.op_names = {}
        self.functions = []
        self.side = 0
        self.wall = 0.0
        self.witness = 0


# --- function coverage -------------------------------------------------------------
class FnRecorder:
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return self
        root = os.path.join(REPO, "curvlinops") + os.sep

        def start(code, off):
            fnm = code.co_filename
            if fnm.startswith(root) and not code.co_name.startswith("<"):
                self.seen.add(os.path.relpath(fnm, REPO) + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        try:
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
        except ValueError:
            pass


def _reset():
    E.reset()
    smt.reset()
    scalars.reset()
    rng.reset()
    linalg.EIGH.clear()
    for k in ("queries", "unsat", "sat", "unknown", "trivial"):
        smt.STATS[k] = 0
    smt.STATS["solver_s"] = 0.0
    smt.STATS["by_kind"] = {}
    T.COUNTS.update(ops=0, elements=0, op_names={})


def run_symbolic(scenario, max_paths=64, assume=()):
    """Yield (ctx, env, exception) for every feasible path."""

    def go(c):
        env = SymEnv(c)
        c.env = env
        rng.reset_draws()
        T.EXACT[0] = False
        E.FORK[0] = None
        exc = None
        _ACTIVE[0] = True
        nd.activate(True)
        try:
            with T.SymMode():
                try:
                    scenario(env)
                except E.SymbolicError as ex:
                    ex.ctx = c
                    raise
                except Exception as ex:
                    exc = ex
                    exc._tb = traceback.format_exc()
        finally:
            E.FORK[0] = None
            _ACTIVE[0] = False
            nd.activate(False)
        return env, exc

    for c, (env, exc) in paths.explore(go, assume, max_paths):
        yield c, env, exc


def run_real(scenario, valuation, choices=(), salt=0, forced=None):
    """Concrete execution of the scenario on the real code."""
    env = RealEnv(valuation, choices, salt)
    exc = None
    with rng.Recorder(env, forced):
        try:
            scenario(env)
        except E.SymbolicError:
            raise
        except Exception as ex:
            exc = ex
            exc._tb = traceback.format_exc()
    return env, exc


def claim_pairs(cl):
    """(actual flat, expected flat) of an eq/same claim, or None on shape mismatch."""
    a, e = stackify(cl.actual), stackify(cl.expected)
    if shapes(a) != shapes(e):
        return None
    return flat(a), flat(e)


def check_real_claims(env, exc, names=None):
    """Names (with details) of the claims the real execution violates."""
    out = []
    if exc is not None:
        return [("exception", f"{type(exc).__name__}: {exc}")]
    ev = E.Evaluator(env.lookup)
    for cl in env.claims:
        if cl.kind == "true":
            v = cl.actual
            if isinstance(v, E.Expr):
                v = ev(v)
            if not v:
                out.append((cl.name, cl.note or "false"))
            continue
        p = claim_pairs(cl)
        if p is None:
            out.append((cl.name, f"shape {shapes(stackify(cl.actual))} instead of {shapes(stackify(cl.expected))}"))
            continue
        a, e = p
        a = [ev(x) if isinstance(x, E.Expr) else x for x in a]
        e = [ev(x) if isinstance(x, E.Expr) else x for x in e]
        if not a:
            continue
        bad = num_differs(a, e, env.tol)
        if bad.any():
            i = int(np.argmax(bad))
            out.append((cl.name, f"entry {i}: code {a[i]!r}, specification {e[i]!r}"))
    return out


def sample_on_path(c, env, tries=20):
    """A valuation satisfying the path condition (sampled, else from the solver)."""
    if True:
        for salt in range(tries):
            ev = E.Evaluator(lambda n, k, s=salt: E.sample_value(n, k, s))
            try:
                if all(ev(b) for b in c.pc):
                    return {}, salt
            except Exception:
                pass
    r = smt.check(list(c.pc), 10000, "path-model")
    if r.verdict == "sat":
        return dict(r.model), 0
    return None, 0


PROVE_TIMEOUT = {"quick": 20000, "thorough": 120000}


def analyse(config, scenario, max_paths=64, validate=True, assume=()):
    """Decide all claims of a scenario over all its paths."""
    out = Outcome(config)
    t0 = time.time()
    _reset()
    E.SEED[0] = seed()
    with FnRecorder() as rec:
        try:
            for c, env, exc in run_symbolic(scenario, max_paths, assume):
                out.paths += 1
                _analyse_path(out, scenario, c, env, exc, validate)
                if len(out.violations) >= 3:
                    break
        except E.SymbolicError as ex:
            if not out.violations and not _refute_concretely(out, scenario, ex):
                out.undecided.append(f"{config}: {type(ex).__name__}: {ex}\n{traceback.format_exc()}")
        out.functions = sorted(rec.seen)
    out.stats = {k: v for k, v in smt.STATS.items()}
    out.ops = T.COUNTS["ops"]
    out.op_names = dict(T.COUNTS["op_names"])
    out.elements = T.COUNTS["elements"]
    out.side = len(E.SIDE)
    out.wall = time.time() - t0
    return out


def _refute_concretely(out, scenario, ex):
    """The code left what can be encoded: look for a concrete counterexample before
    giving up (no verdict is drawn from its absence)."""
    c = getattr(ex, "ctx", None)
    first = _choices(c) if c is not None else []
    for salt in range(6):
        for ch in ([first] if first else []) + [[]]:
            try:
                env, exc = run_real(scenario, {}, ch, salt)
                bad = [] if env.bad_assume else check_real_claims(env, exc)
            except E.SymbolicError:
                continue
            if bad:
                out.violations.append(
                    {
                        "config": out.config,
                        "claim": bad[0][0],
                        "detail": bad[0][1] + f" (symbolic execution stopped: {str(ex)[:200]})",
                        "all": bad[:10],
                        "solver": "not encodable; refuted at a concrete point",
                        "valuation": {k: str(v) for k, v in env.valuation.items()},
                        "choices": ch,
                        "salt": salt,
                        "trace": getattr(exc, "_tb", None),
                    }
                )
                return True
    return False


def _choices(c):
    return [v for v in c.trace if not isinstance(v, bool)]


def _replay(out, scenario, c, valuation, salt, why):
    """Run the real code at a counterexample; record a violation if it reproduces."""
    valuation = dict(valuation)
    forced = {k: v for k, v in valuation.items() if k.startswith("draw")}
    for fz in (None, forced) if forced else (None,):
        env, exc = run_real(scenario, valuation, _choices(c), salt, fz)
        bad = check_real_claims(env, exc)
        if bad and not env.bad_assume:
            out.violations.append(
                {
                    "config": out.config,
                    "claim": bad[0][0],
                    "detail": bad[0][1],
                    "all": bad[:10],
                    "solver": why,
                    "valuation": {k: str(v) for k, v in env.valuation.items()},
                    "choices": _choices(c),
                    "salt": salt,
                    "trace": getattr(exc, "_tb", None),
                }
            )
            return True
    return False


def _analyse_path(out, scenario, c, env, exc, validate):
    val, salt = sample_on_path(c, env)
    if exc is not None:
        if val is not None:
            if _replay(out, scenario, c, val, salt, "exception on a feasible path"):
                return
        out.errors.append(
            f"{out.config}: exception in symbolic run not reproduced: {type(exc).__name__}: {exc}\n{getattr(exc,'_tb','')}"
        )
        return
    if not env.claims:
        out.errors.append(f"{out.config}: no claim reached")
        return
    ev = None
    if val is not None:
        def look(n, k):
            if n in val:
                return val[n]
            return E.sample_value(n, k, salt)

        ev = E.Evaluator(look)
    # reachability witness: the path condition is satisfiable
    r = smt.check(list(c.pc), 10000, "witness", want_model=False)
    if r.verdict == "unsat":
        out.errors.append(f"{out.config}: infeasible path reached its claims")
        return
    out.witness += r.verdict == "sat"
    failed = False
    for cl in env.claims:
        out.claims += 1
        if cl.kind == "true":
            g = cl.actual
            if isinstance(g, E.Expr):
                res = smt.prove(g, c.pc, PROVE_TIMEOUT[tier()])
                if res.verdict == "sat":
                    failed = True
                    m = dict(val or {})
                    m.update(res.model or {})
                    if not _replay(out, scenario, c, m, salt, f"sat: {cl.name}"):
                        out.errors.append(f"{out.config}: counterexample to {cl.name} does not reproduce")
                elif res.verdict != "unsat":
                    out.undecided.append(f"{out.config}: {cl.name}: solver answered {res.verdict}")
            elif not g:
                failed = True
                if not _replay(out, scenario, c, val or {}, salt, f"refuted: {cl.name}"):
                    out.errors.append(
                        f"{out.config}: refuted claim {cl.name} ({cl.note}) does not reproduce"
                    )
            if failed:
                return
            continue
        p = claim_pairs(cl)
        if p is None:
            if not _replay(out, scenario, c, val or {}, salt, f"shape: {cl.name}"):
                out.errors.append(
                    f"{out.config}: {cl.name}: shapes {shapes(stackify(cl.actual))} vs {shapes(stackify(cl.expected))} do not reproduce"
                )
            return
        acts, exps = p
        if out.sample is None and acts:
            i = next((k for k, x in enumerate(exps) if x.k != "c"), 0)
            out.sample = {
                "config": out.config,
                "claim": cl.name,
                "entry": i,
                "code": E.to_str(acts[i], 5)[:400],
                "specification": E.to_str(exps[i], 5)[:400],
            }
        # quick refutation at the sample point
        if ev is not None and acts:
            try:
                bad = num_differs([ev(x) for x in acts], [ev(x) for x in exps])
            except Exception as ex:
                bad = np.zeros(len(acts), dtype=bool)
            if bad.any():
                i = int(np.argmax(bad))
                fv = E.free_vars([acts[i], exps[i]] + list(c.pc))
                pins = {v: Fraction(look(v.a[0], v.a[1])).limit_denominator(10**9) for v in fv if v.k == "v"}
                res = smt.check(list(c.pc) + [E.bnot(E.eq(acts[i], exps[i]))], 10000, "refutation", pins=pins)
                if _replay(out, scenario, c, val, salt, f"{res.verdict}: {cl.name}[{i}]"):
                    return
                out.errors.append(
                    f"{out.config}: disagreement on {cl.name}[{i}] (solver: {res.verdict}) does not reproduce: "
                    f"code {ev(acts[i])} spec {ev(exps[i])}\n  code: {E.to_str(acts[i],5)[:600]}\n  spec: {E.to_str(exps[i],5)[:600]}"
                )
                return
        for i, (a, e) in enumerate(zip(acts, exps)):
            if a is e:
                smt.STATS["trivial"] += 1
                continue
            res = smt.prove_equal(a, e, c.pc, PROVE_TIMEOUT[tier()])
            if res.verdict == "unsat":
                continue
            if res.verdict == "sat":
                m = dict(val or {})
                m.update(res.model or {})
                if _replay(out, scenario, c, m, salt, f"sat: {cl.name}[{i}]"):
                    return
                out.errors.append(
                    f"{out.config}: counterexample to {cl.name}[{i}] does not reproduce\n  code: {E.to_str(a,6)[:800]}\n  spec: {E.to_str(e,6)[:800]}"
                )
                return
            out.undecided.append(
                f"{out.config}: {cl.name}[{i}]: solver answered {res.verdict}\n  code: {E.to_str(a,5)[:500]}\n  spec: {E.to_str(e,5)[:500]}"
            )
            break  # the other claims may be decided, and the real code is run below
    # validate the encoding: same scenario on ordinary tensors at a point of this path
    if validate and val is not None:
        renv, rexc = run_real(scenario, val, _choices(c), salt)
        if rexc is not None:
            out.errors.append(f"{out.config}: real run raised {type(rexc).__name__}: {rexc}\n{rexc._tb}")
            return
        bad = check_real_claims(renv, None)
        if bad:
            # the real code violates a claim that the solver discharged on this path
            out.violations.append(
                {
                    "config": out.config,
                    "claim": bad[0][0],
                    "detail": bad[0][1] + " (found when validating the encoding)",
                    "all": bad[:10],
                    "solver": "encoding validation",
                    "valuation": {k: str(v) for k, v in renv.valuation.items()},
                    "choices": _choices(c),
                    "salt": salt,
                    "trace": None,
                }
            )
            return
        if not c.fresh_random and len(renv.claims) == len(env.claims):
            ev2 = E.Evaluator(renv.lookup)
            for ca, cb in zip(env.claims, renv.claims):
                if ca.kind == "true":
                    continue
                sa, sb = flat(stackify(ca.actual)), flat(stackify(cb.actual))
                if len(sa) != len(sb):
                    out.errors.append(f"{out.config}: validation shape mismatch in {ca.name}")
                    return
                if not sa:
                    continue
                bad = num_differs(
                    [ev2(x) if isinstance(x, E.Expr) else x for x in sb], [ev2(x) for x in sa], renv.tol
                )
                if bad.any():
                    i = int(np.argmax(bad))
                    out.errors.append(
                        f"{out.config}: encoding disagrees with the real run in {ca.name}[{i}]: "
                        f"{ev2(sa[i])} vs {sb[i]}"
                    )
                    return
            out.validated += 1


# --- running a check ---------------------------------------------------------------
def _child(conn, name, scenario, kw):
    try:
        torch.set_num_threads(1)
        o = analyse(name, scenario, **kw)
    except BaseException as ex:
        o = Outcome(name)
        o.errors.append(f"{name}: {type(ex).__name__}: {ex}\n{traceback.format_exc()}")
    try:
        conn.send(o)
    except Exception as ex:
        o2 = Outcome(name)
        o2.errors.append(f"{name}: result not transferable: {ex}; {o.errors[:1]} {o.violations[:1]}")
        conn.send(o2)
    conn.close()
    os._exit(0)


def run_configs(configs, budget, workers=8, per_config=600):
    """configs: list of (name, scenario, kwargs).  Each runs in a forked process."""
    ctx = mp.get_context("fork")
    todo = list(configs)
    running = []
    outs = []
    t0 = time.time()
    while todo or running:
        while todo and len(running) < workers:
            name, sc, kw = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, name, sc, kw), daemon=True)
            p.start()
            b.close()
            running.append((name, p, a, time.time()))
        time.sleep(0.01)
        still = []
        for name, p, a, ts in running:
            if a.poll():
                try:
                    o = a.recv()
                except EOFError:
                    o = Outcome(name)
                    o.errors.append(f"{name}: worker died (exit {p.exitcode})")
                outs.append(o)
                p.join()
            elif not p.is_alive() and not a.poll():
                o = Outcome(name)
                o.errors.append(f"{name}: worker died (exit {p.exitcode})")
                outs.append(o)
            elif time.time() - ts > per_config or time.time() - t0 > budget:
                p.kill()
                p.join()
                o = Outcome(name)
                o.undecided.append(f"{name}: time limit ({time.time()-ts:.0f} s)")
                outs.append(o)
            else:
                still.append((name, p, a, ts))
        running = still
        if sum(bool(o.violations) for o in outs) >= 12:
            todo = []  # enough counterexamples
    return outs


def known_findings(prop):
    """Entries of known_findings.jsonl for this property."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def run_check(prop, configs, bounds, assumptions, level="model_checking", extra=None):
    """Run all configurations of a property, write evidence, return the exit code."""
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "800" if tier() == "quick" else "7200"))
    outs = run_configs(configs, budget)
    wall = time.time() - t0
    if os.environ.get("VERIF_TIMES"):
        for o in sorted(outs, key=lambda o: -o.wall)[: int(os.environ["VERIF_TIMES"])]:
            print(f"  {o.wall:7.2f} s  solver {o.stats.get('solver_s', 0) if o.stats else 0:7.2f}  paths {o.paths:3d}  {o.config}")
    findings = known_findings(prop)
    viol, known = [], []
    for o in outs:
        for v in o.violations:
            k = next(
                (f for f in findings if f["config"] == v["config"] and f["claim"] == v["claim"]), None
            )
            (known if k else viol).append((v, k))
    errors = [e for o in outs for e in o.errors]
    undecided = [e for o in outs for e in o.undecided]
    code = 0
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    shown = set()
    for v, k in known:
        if id(k) not in shown:
            shown.add(id(k))
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if viol:
        code = 1
        os.makedirs(rep_dir, exist_ok=True)
        for n, (v, _) in enumerate(viol[:5]):
            path = os.path.join(rep_dir, f"{prop}_{n}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "run": f"/opt/venv/bin/python {VERIF}/run.py --replay {path}",
                        **v,
                    },
                    f,
                    indent=1,
                )
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['config']}: {v['claim']}: {v['detail']}"[:400])
    elif errors or 2 * len([o for o in outs if o.undecided]) > len(outs):
        code = 2
    for e in undecided[:20]:
        print(f"UNDECIDED property={prop} " + e[:1500], file=sys.stderr)
    for e in errors[:20]:
        print("ERROR " + e[:3000], file=sys.stderr)
    # aggregate evidence
    agg = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "trivial": 0}
    kinds = {}
    ops_names = {}
    fns = set()
    for o in outs:
        for k in agg:
            agg[k] += o.stats.get(k, 0)
        for k, d in o.stats.get("by_kind", {}).items():
            t = kinds.setdefault(k, {})
            for kk, vv in d.items():
                t[kk] = round(t.get(kk, 0) + vv, 3)
        for k, n in o.op_names.items():
            ops_names[k] = ops_names.get(k, 0) + n
        fns.update(o.functions)
    ev = {
        "property": prop,
        "tier": tier() if tier() in ("quick", "thorough") else "quick",
        "seed": seed(),
        "level": level,
        "coverage": {
            "states": sum(o.paths for o in outs),
            "transitions": sum(o.ops for o in outs),
            "traces_validated_against_impl": sum(o.validated for o in outs),
            "samples": [o.sample for o in outs if o.sample][:4],
            "rule": "states = feasible symbolic paths explored; transitions = tensor operators interpreted symbolically",
            "configurations": sorted(o.config for o in outs),
            "slowest_configurations": {
                o.config: round(o.wall, 1) for o in sorted(outs, key=lambda o: -o.wall)[:8]
            },
            "claims": sum(o.claims for o in outs),
            "symbolic_entries_written": sum(o.elements for o in outs),
            "entries_identical_to_specification": agg["trivial"],
            "solver_queries": agg["queries"],
            "solver_unsat": agg["unsat"],
            "solver_sat": agg["sat"],
            "solver_unknown": agg["unknown"],
            "solver_seconds": round(agg["solver_s"], 2),
            "queries_by_kind": kinds,
            "reachability_witnesses": sum(o.witness for o in outs),
            "definedness_side_conditions": sum(o.side for o in outs),
            "functions_encoded": sorted(fns),
            "operators_encoded": len(ops_names),
            "bounds": bounds,
            "errors": errors[:5],
            "undecided_configurations": sorted({o.config for o in outs if o.undecided}),
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if extra:
        ev["coverage"].update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop}: {len(outs)} configurations, {ev['coverage']['states']} paths, "
        f"{ev['coverage']['claims']} claims, {agg['queries']} queries "
        f"({agg['solver_s']:.1f} s solver), {len(viol)} violations, {len(errors)} errors, {len([o for o in outs if o.undecided])} undecided, {wall:.1f} s"
    )
    return code
