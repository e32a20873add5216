"""C08: products agree across input formats; malformed inputs are rejected."""
import numpy as np
import torch
from torch import nn

from symtorch import expr as E
from symtorch import scalars

from .lib import ALL_MODES, CURV_ASSUMPTIONS, Problem, check_matrix, linear_net, numel, probe
from .torch_lib import make_torch_mat

BOUNDS = {
    "formats": "single tensors and tensor lists, vectors and matrices with 1-3 columns, every listed combination of input and output "
    "shape lists (up to 3 tensors of ranks 0-3)",
    "malformed shapes": "lists of 0-4 tensors with ranks 0-3 and arbitrary (symbolic, unbounded) sizes against 7 input spaces; listed "
    "malformed inputs for every operator class",
    "operators": "custom operators with every real matrix; Hessian, GGN, empirical and Monte-Carlo Fisher, Jacobian and its transpose, "
    "activation Hessian, KFAC and its inverse",
    "values": "all real values",
}
ASSUMPTIONS = CURV_ASSUMPTIONS + [
    "an input that passes the format check is recognised by the first tensor operation applied to it (symbolic sizes only)"
]


# --- symbolic shapes ------------------------------------------------------------------
class Accepted(Exception):
    pass


class SymShape(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return SymShape(r) if isinstance(i, slice) else r


class ShapeTensor(torch.Tensor):
    """A tensor of which only the (symbolic) shape is known."""

    @property
    def shape(self):
        return self._sym

    @property
    def ndim(self):
        return len(self._sym)

    def dim(self):
        return len(self._sym)

    ndimension = dim

    def size(self, i=None):
        return self._sym if i is None else self._sym[i]

    def numel(self):
        return self._sym.numel()

    nelement = numel

    def __len__(self):
        raise E.SymbolicError("length of a symbolic shape")

    def __repr__(self):
        return f"ShapeTensor{tuple(self._sym)}"

    __str__ = __repr__

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        raise Accepted(getattr(func, "__name__", str(func)))


_BASE = torch.empty(0)


def shaped(env, name, rank):
    dims = [env.integer(f"{name}_d{i}", "nat") for i in range(rank)]
    spec = [env.sp(f"{name}_d{i}")[()] for i in range(rank)]
    if env.symbolic:
        with torch._C.DisableTorchFunctionSubclass():
            t = torch.Tensor._make_subclass(ShapeTensor, _BASE)
        t.__dict__["_sym"] = SymShape(dims)
        return t, spec
    return torch.zeros((), dtype=torch.float64).expand(*dims) if rank else torch.zeros((), dtype=torch.float64), spec


def same_shape(spec, shape):
    if len(spec) != len(shape):
        return E.FALSE
    return E.band(*[E.eq(a, E.const(b)) for a, b in zip(spec, shape)]) if shape else E.TRUE


def symbolic_shapes(ins, lengths, max_rank=3, tensor=False):
    """For all sizes: accepted if and only if the shapes match the input space."""

    def sc(env):
        op = make_torch_mat(env, "W", ins, [(2,), ()])
        N = sum(map(numel, ins))
        if tensor:
            rank = env.choose(max_rank + 1)
            X, s = shaped(env, "x", rank)
            ok = E.eq(s[0], E.const(N)) if rank in (1, 2) else E.FALSE
        else:
            L = lengths[env.choose(len(lengths))] if len(lengths) > 1 else lengths[0]
            X, S = [], []
            for i in range(L):
                t, s = shaped(env, f"x{i}", env.choose(max_rank + 1))
                X.append(t)
                S.append(s)
            ok = E.FALSE
            if L == len(ins):
                vec = E.band(*[same_shape(s, i) for s, i in zip(S, ins)])
                mat = E.FALSE
                if all(len(s) == len(i) + 1 for s, i in zip(S, ins)):
                    mat = E.band(
                        *[same_shape(s[:-1], i) for s, i in zip(S, ins)],
                        *[E.eq(s[-1], S[0][-1]) for s in S[1:]],
                    )
                ok = E.bor(vec, mat)
        try:
            op @ X
            accepted = True
        except Accepted:
            accepted = True
        except E.SymbolicError:
            raise
        except Exception as ex:
            accepted = False
            env.true("rejection is a ValueError", isinstance(ex, ValueError), f"{type(ex).__name__}: {ex}")
        if accepted:
            env.true("accepted inputs match", ok)
        else:
            env.true("rejected inputs do not match", E.bnot(ok))

    return sc


# --- formats ------------------------------------------------------------------------
def formats(ins, outs, dtype=torch.float64):
    def sc(env):
        op = make_torch_mat(env, "W", ins, outs, dtype)
        A = env.sp("W")
        check_matrix(env, op, A, ins, outs, modes=ALL_MODES, dtype=dtype)
        env.true(
            "_matmat sees matrices in tensor-list format",
            all(
                len(s) == len(ins) and all(len(x) == len(i) + 1 and x[:-1] == tuple(i) for x, i in zip(s, ins))
                for s in op.seen
            ),
        )
        check_matrix(env, op.adjoint(), A.T.copy(), outs, ins, modes=ALL_MODES[:5], dtype=dtype, tag="adj/")
        # non-contiguous, aliased and graph-attached inputs
        n = sum(map(numel, ins))
        B = env.tensor("B", (3, n), dtype=dtype)
        env.eq("transposed", op @ B.T, _apply(A, env.sp("B").T))
        G = env.tensor("G", (n, 2), dtype=dtype).requires_grad_(True)
        env.eq("attached", op @ G, _apply(A, env.sp("G")))
        x = env.tensor("al", (n,), dtype=dtype)
        env.eq("expanded", op @ x.unsqueeze(-1).expand(n, 3), _apply(A, np.stack([env.sp("al")] * 3, 1)))

    return sc


def _apply(A, v):
    from .lib import apply_spec

    return apply_spec(A, v)


def malformed(ins, dtype=torch.float64, out=None):
    """(name, input) pairs that do not match the input space."""
    n = sum(map(numel, ins))

    def z(*s):
        return torch.ones(s, dtype=dtype)

    def L(tail=(), **rep):
        return [z(*s, *tail) for s in ins]

    yield "tensor n+1", z(n + 1)
    yield "tensor n+1 x 2", z(n + 1, 2)
    yield "tensor 1 x n", z(1, n) if n != 1 else z(2, n)
    yield "tensor 2n", z(2 * n)
    yield "tensor n x 1 x 1", z(n, 1, 1)
    yield "tensor scalar", z()
    yield "tensor empty", z(0)
    if n > 1:
        yield "tensor n-1", z(n - 1)
        yield "tensor 1 (broadcastable)", z(1)
        yield "tensor 1 x 2", z(1, 2)
    yield "array", np.ones(n)
    yield "number", 1.0
    yield "none", None
    yield "tuple", tuple(L())
    yield "tuple of matrices", tuple(L((2,)))
    yield "empty list", []
    yield "too few", L()[:-1]
    yield "too many", L() + [z(*ins[-1])]
    yield "too many matrices", L((2,)) + [z(*ins[0], 2)]
    yield "list of arrays", [np.ones(s) for s in ins]
    yield "list with none", L()[:-1] + [None]
    yield "extra dimension", L((1, 1))
    yield "leading columns", [z(4, *s) for s in ins]
    yield "nested", [L()]
    for i, s in enumerate(ins):
        for nm, t in (
            ("bigger", (*s[:-1], s[-1] + 1) if s else (2, 2)),
            ("one less", (*s[:-1], max(s[-1] - 1, 0)) if s else (0, 3)),
            ("broadcastable", tuple(1 for _ in s) if numel(s) > 1 else None),
            ("flattened", (numel(s),) if len(s) > 1 else None),
            ("transposed", s[::-1] if s[::-1] != tuple(s) else None),
        ):
            if t is None:
                continue
            X = L()
            X[i] = z(*t)
            yield f"vector {nm}[{i}]", X
            X = L((2,))
            X[i] = z(*t, 2)
            yield f"matrix {nm}[{i}]", X
        if len(ins) > 1:
            X = L((2,))
            X[i] = z(*s, 3)
            yield f"inconsistent columns[{i}]", X
            X = L((2,))
            X[i] = z(*s, 1)
            yield f"broadcastable columns[{i}]", X
            X = L()
            X[i] = z(*s, 1)
            yield f"mixed matrix[{i}]", X
            X = L((1,))
            X[i] = z(*s)
            yield f"mixed vector[{i}]", X
    if len(ins) > 1 and list(ins) != list(ins)[::-1]:
        yield "reversed", L()[::-1]
        yield "reversed matrices", L((2,))[::-1]


def valid_format(ins, X):
    """The documented formats, decided from the shapes."""
    n = sum(map(numel, ins))
    if isinstance(X, torch.Tensor):
        return X.ndim in (1, 2) and X.shape[0] == n
    if not isinstance(X, list) or not all(isinstance(x, torch.Tensor) for x in X) or len(X) != len(ins):
        return False
    if all(tuple(x.shape) == tuple(s) for x, s in zip(X, ins)):
        return True
    return all(x.ndim == len(s) + 1 and tuple(x.shape[:-1]) == tuple(s) for x, s in zip(X, ins)) and len(
        {x.shape[-1] for x in X}
    ) == 1


def rejections(env, op, ins, tag="", dtype=torch.float64):
    for nm, X in malformed([tuple(s) for s in ins], dtype):
        if not valid_format(ins, X):
            env.raises(f"{tag}{nm}", lambda: op @ X, ValueError)


def reject_custom(ins, outs):
    def sc(env):
        op = make_torch_mat(env, "W", ins, outs)
        rejections(env, op, ins)
        env.true("no product was computed", op.seen == [])
        rejections(env, op.adjoint(), outs, "adj/")

    return sc


def bad_outputs(env):
    """An implementation returning a malformed result is reported."""
    from curvlinops._torch_base import PyTorchLinearOperator

    def op(f):
        class Bad(PyTorchLinearOperator):
            def _matmat(self, X):
                K = X[0].shape[-1]
                return f([torch.ones(2, 2, K, dtype=torch.float64), torch.ones(3, K, dtype=torch.float64)], K)

        return Bad([(2,)], [(2, 2), (3,)])

    x = env.tensor("x", (2,))
    X = env.tensor("X", (2, 2))
    good = op(lambda r, K: r)
    env.eq("good", good @ x, [E.ONE] * 7)
    for nm, f in (
        ("short", lambda r, K: r[:1]),
        ("long", lambda r, K: r + r[:1]),
        ("reversed", lambda r, K: r[::-1]),
        ("no columns", lambda r, K: [t[..., 0] for t in r]),
        ("extra column", lambda r, K: [torch.cat([t, t], -1) for t in r]),
        ("flat", lambda r, K: [r[0].reshape(4, K), r[1]]),
        ("leading columns", lambda r, K: [torch.ones(K + 3, 2, 2), r[1]]),
    ):
        for nn_, v in (("vector", x), ("matrix", X), ("list", [x])):
            env.raises(f"{nm}/{nn_}", lambda: op(f) @ v, ValueError)


# --- the library's operators ----------------------------------------------------------
def agree(env, op, ins, outs, tag="", dtype=torch.float64):
    """All formats give the same numbers, column by column."""
    n = sum(map(numel, ins))
    X = env.tensor(tag + "fX", (n, 3), dtype=dtype)
    R = op @ X
    env.true(tag + "matrix shape", tuple(R.shape) == (op.shape[0], 3) and R.dtype == dtype)
    env.true(tag + "operator shape", tuple(op.shape) == (sum(map(numel, outs)), n))
    sizes = [numel(s) for s in ins]
    for j in range(3):
        r = op @ X[:, j]
        env.true(f"{tag}vector shape {j}", tuple(r.shape) == (op.shape[0],) and r.dtype == dtype)
        env.same(f"{tag}column {j}", r, R[:, j])
        xl = [t.reshape(s) for t, s in zip(X[:, j].split(sizes), ins)]
        rl = op @ xl
        ok = isinstance(rl, list) and [tuple(t.shape) for t in rl] == [tuple(s) for s in outs]
        env.true(f"{tag}vector list shapes {j}", ok and all(t.dtype == dtype for t in rl))
        env.same(f"{tag}vector list {j}", torch.cat([t.reshape(-1) for t in rl]), R[:, j])
    for K in (1, 3):
        XL = [t.reshape(*s, K) for t, s in zip(X[:, :K].split(sizes), ins)]
        RL = op @ XL
        ok = isinstance(RL, list) and [tuple(t.shape) for t in RL] == [(*s, K) for s in outs]
        env.true(f"{tag}matrix list shapes {K}", ok and all(t.dtype == dtype for t in RL))
        env.same(f"{tag}matrix list {K}", torch.cat([t.reshape(-1, K) for t in RL]), R[:, :K])
        R1 = op @ X[:, :K]
        env.same(f"{tag}{K} columns", R1, R[:, :K])


def library(name, reject=True, loss="mse", **pk):
    def sc(env):
        import curvlinops as c

        dt = pk.get("dtype") or torch.float64
        order = 2 if name == "Hessian" else 1
        P = Problem(env, order=order, loss=loss, **pk)
        cls = {
            "Hessian": c.HessianLinearOperator, "GGN": c.GGNLinearOperator, "EF": c.EFLinearOperator,
            "MC": c.FisherMCLinearOperator, "Jacobian": c.JacobianLinearOperator,
            "JacobianT": c.TransposedJacobianLinearOperator,
        }[name]
        jac = name.startswith("Jac")
        kw = dict(check_deterministic=False)
        op = cls(P.model, P.params, P.data, **kw) if jac else cls(P.model, P.loss, P.params, P.data, **kw)
        ins, outs = P.pshapes, P.pshapes
        osh = [(P.N_true, P.C, *P.extra) if loss == "ce" else (P.N_true, *P.extra, P.C)]
        if jac:
            ins, outs = (P.pshapes, osh) if name == "Jacobian" else (osh, P.pshapes)
        agree(env, op, ins, outs, dtype=dt)
        if reject:
            rejections(env, op, ins, dtype=dt)
            # and still the same after the failures
            if not jac:
                agree(env, op, ins, outs, "after/", dt)

    return sc


def activation(env):
    from curvlinops.experimental import ActivationHessianLinearOperator

    net = linear_net(widths=(1, 2, 2))(env, "", torch.float64)
    X, y = env.tensor("X", (2, 1)), env.tensor("y", (2, 2))
    name = [n for n, m in net.module.named_modules() if isinstance(m, nn.Linear)][0]
    op = ActivationHessianLinearOperator(net.module, nn.MSELoss(), (name, "output", 0), [(X, y)])
    agree(env, op, [(2, 2)], [(2, 2)])
    rejections(env, op, [(2, 2)])


def kfac(inverse, **kw):
    def sc(env):
        from curvlinops import KFACInverseLinearOperator

        from .kfac_lib import Lin, fabricated

        P, op, _ = fabricated(env, [Lin(1, 2), "tanh", Lin(2, 1, bias=False)], (1,), kind="psd" if inverse else "any", **kw)
        if inverse:
            op = KFACInverseLinearOperator(op, damping=env.scalar("damping", "pos"))
        ins = P.pshapes
        agree(env, op, ins, ins)
        rejections(env, op, ins)

    return sc


def scipy_ops(env):
    """The SciPy-side operators reject mismatching lengths."""
    import curvlinops as c
    from curvlinops.outer import OuterProductLinearOperator

    from .np_lib import MatLO

    M = env.array("M", (3, 3))
    A = MatLO(M)
    ops = {
        "sub": (c.SubmatrixLinearOperator(A, [0, 2], [1, 0]), 2),
        "neumann": (c.NeumannInverseLinearOperator(A, num_terms=1), 3),
        "outer": (OuterProductLinearOperator(env.array("c", (2,)), env.array("B", (3, 2))), 3),
        "export": (make_torch_mat(env, "W", [(3,)], [(2,)]).to_scipy(), 3),
    }
    for nm, (op, n) in ops.items():
        X = env.array("X" + nm, (n, 3))
        R = op @ X
        for j in range(3):
            env.same(f"{nm}/column {j}", op @ X[:, j], R[:, j])
            env.same(f"{nm}/column vector {j}", (op @ X[:, j : j + 1]), R[:, j : j + 1])
        env.same(f"{nm}/matmat", op.matmat(X), R)
        for m in (n + 1, n - 1, 1, 0, 2 * n):
            if m != n:
                env.raises(f"{nm}/length {m}", lambda: op @ np.ones(m), ValueError)
                env.raises(f"{nm}/matrix {m}", lambda: op @ np.ones((m, 2)), ValueError)
                env.raises(f"{nm}/matvec {m}", lambda: op.matvec(np.ones(m)), ValueError)
                env.raises(f"{nm}/matmat {m}", lambda: op.matmat(np.ones((m, 2))), ValueError)


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw))

    spaces = {
        "one": [(2,)],
        "scalar": [()],
        "matrix": [(2, 3)],
        "two": [(2,), (3,)],
        "equal": [(2,), (2,)],
        "mixed": [(), (2,)],
        "ranks": [(2, 2), (2,)],
    }
    for k, ins in spaces.items():
        add(f"sizes/{k}-tensor", symbolic_shapes(ins, (), tensor=True, max_rank=4), max_paths=4000)
        n = len(ins)
        add(f"sizes/{k}-list", symbolic_shapes(ins, (n,)), max_paths=4000)
        add(f"sizes/{k}-length", symbolic_shapes(ins, [l for l in range(4) if l != n], max_rank=1), max_paths=4000)
        add(f"reject-sizes/{k}", reject_custom(ins, [(3,), ()]))
    add("sizes/three-list", symbolic_shapes([(1,), (2,), ()], (3,), max_rank=2), max_paths=8000)
    shapes = {
        "one-one": ([(2,)], [(2,)]),
        "scalar-scalar": ([()], [()]),
        "scalar-lists": ([()], [(2,), ()]),
        "lists-scalar": ([(2,), ()], [()]),
        "two-two": ([(2,), (1, 2)], [(1,), (2, 1)]),
        "three-one": ([(1,), (2,), ()], [(3,)]),
        "equal": ([(2,), (2,)], [(2,), (2,)]),
        "rank3": ([(1, 2, 1)], [(2, 1, 1), (1,)]),
        "ones": ([(1,), (1, 1)], [(1,), (1,)]),
    }
    for k, (i, o) in shapes.items():
        add(f"formats/{k}", formats(i, o))
        add(f"reject/{k}", reject_custom(i, o))
    add("formats/float32", formats(*shapes["two-two"], dtype=torch.float32))
    add("bad-outputs", bad_outputs)
    for nm in ("Hessian", "GGN", "EF", "MC", "Jacobian", "JacobianT"):
        add(f"lib/{nm}", library(nm, shapes=((2,), ()), batches=(1, 1)))
        add(f"lib/{nm}-matrix", library(nm, shapes=((2, 1), (1,)), batches=(1, 1), C=1))
        add(f"lib/{nm}-one", library(nm, shapes=((2,),), batches=(2,)))
        add(f"lib/{nm}-rows", library(nm, reject=nm.startswith("Jac"), shapes=((2,),), batches=(1, 1), extra=(2,)))
        add(f"lib/{nm}-ce", library(nm, reject=nm.startswith("Jac"), shapes=((2,),), batches=(1, 1), loss="ce",
                                    **({"extra": (2,)} if nm.startswith("Jac") else {})))
        add(f"lib/{nm}-float32", library(nm, reject=False, shapes=((2,),), batches=(1,), dtype=torch.float32))
    for inv in (False, True):
        for sep in (True, False):
            t = f"lib/{'KFAC inverse' if inv else 'KFAC'}-{'sep' if sep else 'joint'}"
            add(t, kfac(inv, separate=sep))
            add(t + "-order", kfac(inv, separate=sep, select=(2, 1, 0)))
            add(t + "-bias", kfac(inv, separate=sep, select=(1,)))
    add("lib/activation", activation)
    add("lib/scipy", scipy_ops)
    return out
