"""C21: operators leave inputs, model, data and gradients as they were; failures leave nothing behind."""
import random
from collections.abc import Mapping

import numpy as np
import torch
from torch import nn
from torch.utils._mode_utils import no_dispatch

from symtorch import expr as E

from .kfac_lib import Conv, KProblem, Lin, fabricated, spectral
from .lib import CURV_ASSUMPTIONS, Problem, apply_spec, claim_product, linear_net, numel, probe
from .np_lib import MatLO
from .torch_lib import make_torch_mat

BOUNDS = {
    "operators": "Hessian, GGN, empirical and Monte-Carlo Fisher, Jacobian and its transpose, activation Hessian, KFAC and its inverse "
    "(exact, damped, heuristic), SciPy export, Neumann, submatrix, outer product and CG/LSMR inverses by contract",
    "operations": "construction (with and without determinism check), products with vectors and matrices in both formats, "
    "gradient and loss, KFAC's queries and state",
    "histories": "1-4 operations on one operator, results overwritten in between",
    "faults": "exceptions (Exception and BaseException) at every position up to the 8th access of the data, call of a layer, call of the "
    "loss, or gradient of a layer's output during an operation; followed by one or two retries",
    "data": "1-3 mini-batches of 1-2 data",
    "values": "all real values",
}
ASSUMPTIONS = CURV_ASSUMPTIONS + [
    "models do not change their own state in the forward pass",
    "determinism check: draws one probing vector from the global random state by design; excluded from the claim on random states",
]

HOOKS = ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks", "_forward_hooks_with_kwargs",
         "_forward_pre_hooks_with_kwargs", "_forward_hooks_always_called", "_state_dict_hooks", "_load_state_dict_pre_hooks")


class Fault(Exception):
    pass


class Stop(BaseException):
    pass


class Trap:
    """Raises at the k-th of the events it is told about, once armed."""

    def __init__(self):
        self.left = None
        self.exc = None

    def arm(self, k, exc):
        self.left, self.exc = k, exc

    def disarm(self):
        self.left = None

    def __call__(self, *a, **kw):
        if self.left is None:
            return None
        self.left -= 1
        if self.left < 0:
            self.left = None
            raise self.exc("injected")
        return None


class Data:
    """Re-iterable data, trapped at every access and at its end."""

    def __init__(self, data, trap):
        self.data, self.trap = data, trap

    def __iter__(self):
        for d in self.data:
            self.trap()
            yield d
        self.trap()


def random_states():
    with no_dispatch():
        return (torch.default_generator.get_state().numpy().tobytes(), repr(np.random.get_state()), repr(random.getstate()))


class Guard:
    """What must stay as it is: modules, parameters, gradients, data, and the vectors added later."""

    def __init__(self, env, modules, params, data, grads=()):
        """params: [(name or None, tensor)]; grads: indices of parameters given a gradient."""
        self.env, self.modules, self.params = env, modules, params
        self.data = data
        self.vectors = []
        self.n = 0
        mods = [m for mod in modules for m in mod.modules()]
        for i, m in enumerate(mods):
            m.training = i % 2 == 0
        for i in grads:
            p = params[i][1]
            p.grad = env.tensor(f"grad{i}", tuple(p.shape), dtype=p.dtype)
        self.grads = [p.grad for _, p in params]
        self.preset = set(grads)
        self.before = self.state()
        self.containers = self.content()
        self.rng = random_states()

    def watch(self, x, names):
        """x: tensor or list of tensors named `names` in the environment."""
        xs = x if isinstance(x, list) else [x]
        self.vectors.append((x, list(xs), [y.requires_grad for y in xs] if isinstance(xs[0], torch.Tensor) else None, names))

    def state(self):
        mods = [m for mod in self.modules for m in mod.modules()]
        out = []
        for m in mods:
            hooks = tuple(tuple((k, id(f)) for k, f in getattr(m, h, {}).items()) for h in HOOKS)
            ps = tuple((k, id(p)) for k, p in m._parameters.items())
            bs = tuple((k, id(p)) for k, p in m._buffers.items())
            ch = tuple((k, id(c)) for k, c in m._modules.items())
            out.append((id(m), m.training, hooks, ps, bs, ch, frozenset(m.__dict__)))
        ts = [(id(p), p.requires_grad, id(p.grad), bool(p._backward_hooks), tuple(p.shape), p.dtype) for _, p in self.params]
        return out, ts

    def content(self):
        def walk(x):
            if isinstance(x, torch.Tensor):
                return (id(x), tuple(x.shape), x.dtype, x.requires_grad, id(x.grad))
            if isinstance(x, Mapping):
                return tuple((k, walk(v)) for k, v in x.items())
            return tuple(walk(v) for v in x)

        return walk(self.data)

    def check(self, tag, rng=True):
        env = self.env
        tag = f"{tag}/{self.n}/"
        self.n += 1
        now = self.state()
        env.true(tag + "modules", now[0] == self.before[0])
        env.true(tag + "flags, gradients and tensors' hooks", now[1] == self.before[1])
        env.true(tag + "data containers", self.content() == self.containers)
        if rng:
            env.true(tag + "random states", random_states() == self.rng)
        self.rng = random_states()
        for i, (name, p) in enumerate(self.params):
            if name is not None:
                env.eq(f"{tag}{name}", p.detach(), env.sp(name))
            if i in self.preset:
                env.eq(f"{tag}grad{i}", self.grads[i], env.sp(f"grad{i}"))
        for b, (X, y) in enumerate(self.data):
            x = X["x"] if isinstance(X, Mapping) else X
            env.eq(f"{tag}X{b}", x, env.sp(f"X{b}"))
            if f"y{b}" in env.specs:
                env.eq(f"{tag}y{b}", y, env.sp(f"y{b}"))
        for x, xs, rg, names in self.vectors:
            now = x if isinstance(x, list) else [x]
            env.true(tag + "vector list", len(now) == len(xs) and all(a is b for a, b in zip(now, xs)))
            if rg is not None:
                env.true(tag + "vectors' flags", [y.requires_grad for y in xs] == rg and all(y.grad is None for y in xs))
            for y, nm in zip(xs, names):
                env.eq(f"{tag}{nm}", y.detach() if isinstance(y, torch.Tensor) else y, env.sp(nm))


def vector(env, G, name, shapes, K, fmt, requires_grad=False):
    x, s = probe(env, name, shapes, K, fmt)
    names = [name] if fmt == "tensor" else [f"{name}{i}" for i in range(len(shapes))]
    if requires_grad:
        for y in [x] if fmt == "tensor" else x:
            y.requires_grad_(True)
    G.watch(x, names)
    return x, s


def overwrite(r):
    """Destroy a result."""
    if isinstance(r, (list, tuple)):
        for x in r:
            overwrite(x)
    elif isinstance(r, torch.Tensor):
        r.detach().zero_() if r.dtype != torch.bool else None
    elif isinstance(r, np.ndarray) and r.shape:
        r[...] = 0
    if isinstance(r, list):
        r.clear()


def names_of(P):
    """[(name, parameter)] of every parameter of the model."""
    if isinstance(P, KProblem):
        out = []
        for (mod, kind), p in P.net.params.items():
            out.append((f"{P.net.pf}{'W' if kind == 'weight' else 'b'}{mod.replace('.', '_')}", p))
        return out
    if P.kind == "net":
        return list(zip(P.net.names, P.net.params))
    return [(f"{P.prefix}p{i}", p) for i, p in enumerate(P.all_params)]


MODES = ((None, "tensor"), (2, "list"), (None, "list"), (2, "tensor"))


# --- operators --------------------------------------------------------------------
class Built:
    """problem, operator factory, matrix, in and output shapes."""

    def __init__(self, P, make, A, ins, outs, params=None, loss=None, needs_data=True):
        self.P, self.make, self.A, self.ins, self.outs = P, make, A, ins, outs
        self.loss = loss


def curvature(name, **pk):
    def build(env, trap, **kw):
        import curvlinops as c

        pk.setdefault("loss", "mse")
        P = Problem(env, order=2 if name == "Hessian" else 1, **pk)
        cls = {
            "Hessian": c.HessianLinearOperator, "GGN": c.GGNLinearOperator, "EF": c.EFLinearOperator,
            "Jacobian": c.JacobianLinearOperator, "JacobianT": c.TransposedJacobianLinearOperator,
        }[name]
        jac = name.startswith("Jac")
        head = (P.model,) if jac else (P.model, P.loss)
        data = Data(P.data, trap)
        make = lambda **k: cls(*head, P.params, data, **P.kwargs(**kw, **k))
        if jac:
            J = P.jacobian()
            osh = [(P.N_true, P.C)]
            return Built(P, make, J if name == "Jacobian" else J.T.copy(), *((P.pshapes, osh) if name == "Jacobian" else (osh, P.pshapes)))
        A = {"Hessian": P.hessian, "GGN": P.ggn, "EF": P.ef}[name]()
        return Built(P, make, A, P.pshapes, P.pshapes, loss=P.grad_loss())

    return build


def kfac(layers, in_shape, inverse=False, **kw):
    pk = {k: kw.pop(k) for k in ("loss", "batches", "target", "reduction", "frozen", "select") if k in kw}

    def build(env, trap, **op_kw):
        from curvlinops import KFACInverseLinearOperator

        P = KProblem(env, layers, in_shape, **pk)
        P.raw = P.data
        P.data_ = Data(P.raw, trap)
        from curvlinops import KFACLinearOperator

        opts = dict(fisher_type="type-2", separate_weight_and_bias=True)
        opts.update(kw)
        opts.update(op_kw)
        make = lambda **k: KFACLinearOperator(P.model, P.loss, P.params, P.data_, **P.kwargs(**opts, **k))
        sep = opts["separate_weight_and_bias"]
        F = P.factors(opts.get("kfac_approx", "expand"), opts["fisher_type"], sep)
        return Built(P, make, P.assemble(F, sep), P.pshapes, P.pshapes)

    return build


def purity(build, modes=MODES, grads=(0,), rg=False, checked=False, adjoint=False):
    """Products one after another, their results overwritten: everything else stays."""

    def sc(env):
        trap = Trap()
        B = build(env, trap)
        P = B.P
        G = Guard(env, [P.model, P.loss], names_of(P), P.data, grads)
        plist = list(P.params)
        op = B.make(**({"check_deterministic": True} if checked else {}))
        G.check("construction", rng=not checked)
        if adjoint:
            op = op.adjoint()
        ins, outs, A = (B.outs, B.ins, B.A.T.copy()) if adjoint else (B.ins, B.outs, B.A)
        for i, (K, fmt) in enumerate(modes):
            x, s = vector(env, G, f"v{i}", ins, K, fmt, requires_grad=rg)
            r = op @ x
            claim_product(env, f"product{i}", r, A, s, outs, fmt)
            G.check(f"product{i}")
            overwrite(r)
            G.check(f"overwritten{i}")
        claim_product(env, "again", op @ x, A, s, outs, fmt)
        if B.loss is not None:
            g, l = op.gradient_and_loss()
            env.eq("gradient", torch.cat([t.reshape(-1) for t in g]), B.loss[0])
            env.eq("loss", l, B.loss[1])
            G.check("gradient")
            overwrite(list(g))
            overwrite(l)
            G.check("gradient overwritten")
            claim_product(env, "after gradient", op @ x, A, s, outs, fmt)
        op.to_device(torch.device("cpu"))
        G.check("moved to its own device")
        claim_product(env, "after moving", op @ x, A, s, outs, fmt)
        env.true("parameter list", len(P.params) == len(plist) and all(a is b for a, b in zip(P.params, plist)))

    return sc


SITES = ("data", "layer", "loss", "gradient")


def install_trap(P, trap, site):
    """Trap the accesses of one site; the hooks belong to the user and must stay."""
    if site == "layer":
        for m in P.model.modules():
            if not list(m.children()) or m is P.model:
                m.register_forward_pre_hook(lambda *a: trap())
    elif site == "loss":
        P.loss.register_forward_pre_hook(lambda *a: trap())
    elif site == "loss-after":
        P.loss.register_forward_hook(lambda *a: trap())
    elif site == "layer-after":
        for m in P.model.modules():
            m.register_forward_hook(lambda *a: trap())
    elif site == "gradient":
        def hook(mod, args, out):
            if isinstance(out, torch.Tensor) and out.requires_grad:
                out.register_hook(lambda g: trap())

        for m in P.model.modules():
            m.register_forward_hook(hook)


def faults(build, site, last, operations=("product",), retries=1, checked=False, exc=(Fault, Stop), query=None):
    """An exception at any position of an operation: state as before, retry as specified."""

    def sc(env):
        trap, off = Trap(), Trap()
        B = build(env, trap if site == "data" else off)
        P = B.P
        install_trap(P, trap, site)
        G = Guard(env, [P.model, P.loss], names_of(P), P.data, (0,))
        kind = operations[env.choose(len(operations))] if len(operations) > 1 else operations[0]
        op = None if kind == "construct" else B.make()
        x, s = vector(env, G, "v", B.ins, None if kind != "matrix" else 2, "list" if kind == "matrix" else "tensor")
        fmt = "list" if kind == "matrix" else "tensor"
        k = env.choose(last + 1)
        ex = exc[env.choose(len(exc))] if len(exc) > 1 else exc[0]
        fn = {
            "product": lambda: op @ x,
            "matrix": lambda: op @ x,
            "gradient": lambda: op.gradient_and_loss(),
            "construct": lambda: B.make(check_deterministic=True),
            "query": lambda: query(op),
        }[kind]
        trap.arm(k, ex)
        fired = False
        try:
            r = fn()
        except (Fault, Stop) as e:
            fired = True
            env.true("the exception itself", type(e) is ex)
        left = trap.left
        env.true("exceptions are not swallowed", fired or left is not None)
        trap.disarm()
        G.check("after the fault", rng=kind != "construct")
        if not fired and kind in ("product", "matrix"):
            claim_product(env, "no fault", r, B.A, s, B.outs, fmt)
        if op is None:
            op = B.make(check_deterministic=checked)
        if kind == "query":
            fn()
        for i in range(retries):
            claim_product(env, f"retry{i}", op @ x, B.A, s, B.outs, fmt)
        if B.loss is not None and kind == "gradient":
            g, l = op.gradient_and_loss()
            env.eq("gradient", torch.cat([t.reshape(-1) for t in g]), B.loss[0])
            env.eq("loss", l, B.loss[1])
        G.check("after the retry", rng=kind != "construct" and not checked)

    return sc


def sampled(which, **pk):
    """Operators with random draws: compared with a fresh operator of the same seed."""

    def build(env, trap):
        if which == "MC":
            from curvlinops import FisherMCLinearOperator

            P = Problem(env, order=1, **pk)
            make = lambda **k: FisherMCLinearOperator(P.model, P.loss, P.params, Data(P.data, trap), **P.kwargs(**k))
        else:
            from curvlinops import KFACLinearOperator

            P = KProblem(env, [Lin(1, 1), "tanh", Lin(1, 2)], (1,), **pk)
            make = lambda **k: KFACLinearOperator(P.model, P.loss, P.params, Data(P.data, trap), **P.kwargs(fisher_type="mc", **k))
        return Built(P, make, None, P.pshapes, P.pshapes)

    return build


def cat(r):
    return torch.cat([t.reshape(-1) for t in r]) if isinstance(r, list) else r


def sampled_purity(build, site=None, last=0):
    def sc(env):
        trap, off = Trap(), Trap()
        B = build(env, trap if site == "data" else off)
        P = B.P
        if site:
            install_trap(P, trap, site)
        G = Guard(env, [P.model, P.loss], names_of(P), P.data, (0,))
        op = B.make()
        x, _ = vector(env, G, "v", B.ins, None, "tensor")
        if site:
            k = env.choose(last + 1)
            ex = (Fault, Stop)[env.choose(2)]
            trap.arm(k, ex)
            try:
                op @ x
            except (Fault, Stop) as e:
                env.true("the exception itself", type(e) is ex)
            trap.disarm()
            G.check("after the fault")
        r = op @ x
        ref = B.make() @ x
        env.same("product", r, ref)
        G.check("product")
        overwrite(r)
        env.same("again", op @ x, ref)
        y, _ = vector(env, G, "w", B.ins, 2, "list")
        r = op @ y
        env.same("matrix", cat(r), cat(B.make() @ y))
        G.check("matrix")

    return sc


def activation(env):
    from curvlinops.experimental import ActivationHessianLinearOperator

    net = linear_net(widths=(1, 2, 2))(env, "", torch.float64)
    X, y = env.tensor("X0", (2, 1)), env.tensor("y0", (2, 2))
    trap = Trap()
    loss = nn.MSELoss()
    which = env.choose(3)
    P = type("P", (), {"model": net.module, "loss": loss})
    install_trap(P, trap, ("layer", "layer-after", "loss")[which])
    data = [(X, y)]
    G = Guard(env, [net.module, loss], list(zip(net.names, net.params)), data, (0,))
    name = [n for n, m in net.module.named_modules() if isinstance(m, nn.Linear)][0]
    make = lambda: ActivationHessianLinearOperator(net.module, loss, (name, "output", 0), data, check_deterministic=False)
    op = make()
    G.check("construction")
    x, s = vector(env, G, "v", [(2, 2)], None, "tensor")
    k = env.choose(8)
    ex = (Fault, Stop)[env.choose(2)]
    trap.arm(k, ex)
    try:
        op @ x
    except (Fault, Stop) as e:
        env.true("the exception itself", type(e) is ex)
    trap.disarm()
    G.check("after the fault")
    r = op @ x
    ref = make() @ x
    env.same("retry", r, ref)
    overwrite(r)
    env.same("again", op @ x, ref)
    trap.arm(k, ex)
    try:
        make()
    except (Fault, Stop):
        pass
    trap.disarm()
    G.check("construction failed")


def rejected(build):
    """Failing calls: malformed vectors, unknown attributes, failing construction."""

    def sc(env):
        trap = Trap()
        B = build(env, trap)
        P = B.P
        G = Guard(env, [P.model, P.loss], names_of(P), P.data, (0,))
        op = B.make()
        x, s = vector(env, G, "v", B.ins, None, "tensor")
        n = sum(map(numel, B.ins))
        bad, _ = vector(env, G, "bad", [(n + 1,)], None, "tensor")
        env.raises("length", lambda: op @ bad, ValueError)
        lst, _ = vector(env, G, "lst", list(B.ins) + [(1,)], None, "list")
        env.raises("number", lambda: op @ lst, ValueError)
        G.check("rejected vectors")
        if not isinstance(P, KProblem) and B.loss is not None:
            params = list(P.params) + [env.param("stranger", (2,))]
            env.attempt(lambda: type(op)(P.model, P.loss, params, [], check_deterministic=True))
            G.check("construction failed")
        claim_product(env, "product", op @ x, B.A, s, B.outs, "tensor")
        G.check("product")

    return sc


def queries(layers, in_shape, separate, inverse=None, **kw):
    """KFAC's queries, state and inverse leave the operator, its factors and the vectors alone."""

    def sc(env):
        from curvlinops import KFACInverseLinearOperator

        P, op, F = fabricated(env, layers, in_shape, separate=separate,
                              **(dict(make=lambda n, k: spectral(env, n, k)[0]) if inverse and inverse.get("use_exact_damping") else
                                 dict(kind="any" if inverse is None else "definite" if inverse.get("use_heuristic_damping") else "psd")), **kw)
        G = Guard(env, [P.model, P.loss], names_of(P), P.data, (0,))
        A = P.assemble(F, separate)
        x, s = vector(env, G, "v", P.pshapes, None, "tensor")
        y, sy = vector(env, G, "w", P.pshapes, 2, "list")
        env_check = lambda tag: (claim_product(env, tag, op @ x, A, s, P.pshapes, "tensor"), G.check(tag))
        env_check("fresh")
        if inverse is None:
            t = op.trace
            fr = op.frobenius_norm
            env_check("trace and norm")
            if all(n is None or n <= 2 for f in F.values() for n in (None if f[0] is None else len(f[0]), len(f[1]))):
                op.det
                env_check("determinant")
            sd = op.state_dict()
            env_check("state")
            for d in ("input_covariances", "gradient_covariances"):
                for k in list(sd[d]):
                    sd[d].pop(k)
            sd.clear()
            env_check("state emptied")
            env.same("trace again", op.trace, t)
            env.same("norm again", op.frobenius_norm, fr)
            return
        opts = dict(inverse)
        d = env.scalar("damping", "pos")
        opts["damping"] = (d, env.scalar("damping2", "pos")) if opts.pop("pair", False) else d
        make = lambda: KFACInverseLinearOperator(op, **opts)
        inv = make()
        env_check("inverse built")
        r = inv @ x
        ref = inv @ x
        env.same("repeated", r, ref)
        env_check("inverse product")
        rl = inv @ y
        ref_l = cat([t.clone() for t in rl])
        env_check("inverse matrix product")
        overwrite(rl)
        env.same("repeated matrix", cat(inv @ y), ref_l)
        fresh = make()
        env.same("fresh", fresh @ x, ref)
        overwrite(r)
        env.same("after overwriting", inv @ x, ref)
        env_check("end")

    return sc


def exported(env):
    """SciPy export: vectors and operator untouched by products."""
    op = make_torch_mat(env, "W", [(2,), ()], [(1,), (2,)])
    S = op.to_scipy()
    A = env.sp("W")
    G = Guard(env, [], [], [])
    for name, K, B, M in (("v", None, S, A), ("m", 2, S, A), ("c", 1, S, A), ("t", 2, S.T, A.T)):
        x = env.array(name, (3,) if K is None else (3, K))
        G.watch(x, [name])
        r = B @ x
        env.eq("product " + name, r, apply_spec(M, env.sp(name)))
        G.check(name)
        r[...] = 0
        G.check(name + " overwritten")
        env.eq("again " + name, B @ x, apply_spec(M, env.sp(name)))
    env.eq("operator", op.W, A)


def scipy_side(which):
    def sc(env):
        import curvlinops as c
        from curvlinops.outer import OuterProductLinearOperator

        G = Guard(env, [], [], [])
        M = env.array("M", (3, 3))
        G.watch(M, ["M"])
        S = env.sp("M")
        extra = []
        if which == "neumann":
            op = c.NeumannInverseLinearOperator(MatLO(M), num_terms=2, scale=0.5)
        elif which == "submatrix":
            rows, cols = [0, 2, 1], [1, 0, 2]
            op = c.SubmatrixLinearOperator(MatLO(M), rows, cols)
            extra = [(rows, [0, 2, 1]), (cols, [1, 0, 2])]
        else:
            cs, B = env.array("cs", (2,)), env.array("B", (3, 2))
            G.watch(cs, ["cs"])
            G.watch(B, ["B"])
            op = OuterProductLinearOperator(cs, B)
        for name, K in (("v", None), ("c", 1), ("m", 2)):
            x = env.array(name, (3,) if K is None else (3, K))
            G.watch(x, [name])
            r = op @ x
            ref = np.array(r, dtype=object) if not env.symbolic else r.copy()
            G.check(name)
            r[...] = 0
            G.check(name + " overwritten")
            env.same("again " + name, op @ x, ref)
        env.true("index lists", all(a == b for a, b in extra))

    return sc


def configs(tier):
    out = []

    def add(name, sc, **kw):
        out.append((name, sc, kw) if kw else (name, sc))

    big = dict(max_paths=400)
    small = dict(shapes=((2,),), batches=(2, 1))
    curv = ("Hessian", "GGN", "EF", "Jacobian", "JacobianT")
    for n in curv:
        add(f"pure/{n}", purity(curvature(n)))
        add(f"pure/{n}-ce", purity(curvature(n, loss="ce", batches=(1, 2), shapes=((1,), (2,)), frozen=(0,)), modes=MODES[:2], grads=(0, 1)))
        add(f"pure/{n}-checked", purity(curvature(n, **small), checked=True, modes=MODES[:2]))
        add(f"pure/{n}-dict", purity(curvature(n, dict_input="userdict", **small), modes=MODES[1:3], grads=()))
        add(f"pure/{n}-grad", purity(curvature(n, **small), rg=True))
        add(f"pure/{n}-net", purity(curvature(n, model=linear_net(act="tanh"), batches=(1, 1)), modes=MODES[:2], grads=(1,)))
        add(f"rejected/{n}", rejected(curvature(n, **small)))
        for site, last in (("data", 3), ("layer", 3), ("loss", 2), ("gradient", 3)):
            if n.startswith("Jac") and site == "loss":
                continue
            ops = ("product", "matrix") + (() if n.startswith("Jac") else ("gradient",))
            add(f"fault/{n}/{site}", faults(curvature(n, **small), site, last, ops, retries=2), **big)
        add(f"fault/{n}/construct-data", faults(curvature(n, **small), "data", 7, ("construct",)), **big)
        add(f"fault/{n}/construct-layer", faults(curvature(n, **small), "layer", 7, ("construct",)), **big)
    add("pure/GGN-bce", purity(curvature("GGN", loss="bce", **small), modes=MODES[:2]))
    add("pure/Jacobian-adjoint", purity(curvature("Jacobian"), adjoint=True))
    add("pure/JacobianT-adjoint", purity(curvature("JacobianT"), adjoint=True))
    nets = {
        "deep": ([Lin(1, 2), "tanh", Lin(2, 1, bias=False)], (1,), {}),
        "relu": ([Lin(2, 1), "relu", Lin(1, 2)], (2,), dict(loss="ce")),
        "inplace": ([Lin(1, 2), "relu_", Lin(2, 1)], (1,), {}),
        "seq": ([Lin(1, 1), "id", Lin(1, 2)], (2, 1), {}),
        "conv": ([Conv(1, 1, (1, 2)), "flatten", Lin(1, 1)], (1, 1, 2), {}),
        "frozen": ([Lin(1, 1), "tanh", Lin(1, 1)], (1,), dict(frozen=(0,), select=(2, 3))),
    }
    for n, (layers, shape, kw) in nets.items():
        for sep in (True, False):
            t = "sep" if sep else "joint"
            add(f"pure/KFAC-{n}-{t}", purity(kfac(layers, shape, batches=(2, 1), separate_weight_and_bias=sep, **kw), modes=MODES[:3]))
    layers, shape, kw = nets["deep"]
    for ft in ("empirical", "forward-only"):
        add(f"pure/KFAC-{ft}", purity(kfac(layers, shape, batches=(2, 1), fisher_type=ft), modes=MODES))
        add(f"fault/KFAC-{ft}/gradient", faults(kfac(layers, shape, batches=(1, 1), fisher_type=ft), "gradient", 4), **big)
    add("pure/KFAC-reduce", purity(kfac(*nets["seq"][:2], batches=(1, 1), kfac_approx="reduce"), modes=MODES))
    add("pure/KFAC-checked", purity(kfac(layers, shape, batches=(1, 1)), checked=True, modes=MODES[:2]))
    add("pure/KFAC-grad", purity(kfac(layers, shape, batches=(1, 1)), rg=True))
    add("rejected/KFAC", rejected(kfac(layers, shape, batches=(1, 1))))
    for site, last in (("data", 3), ("layer", 7), ("layer-after", 7), ("loss", 3), ("loss-after", 3), ("gradient", 7)):
        for sep in (True, False):
            if not sep and site in ("layer", "loss", "loss-after"):
                continue
            add(f"fault/KFAC/{site}-{'sep' if sep else 'joint'}",
                faults(kfac(layers, shape, batches=(1, 1), separate_weight_and_bias=sep), site, last, ("product",), retries=2), **big)
    for q, fn in (("trace", lambda op: op.trace), ("norm", lambda op: op.frobenius_norm), ("state", lambda op: op.state_dict())):
        add(f"fault/KFAC/query-{q}", faults(kfac(layers, shape, batches=(1, 1)), "layer", 4, ("query",), query=fn, exc=(Fault,)), **big)
        add(f"fault/KFAC/query-{q}-gradient", faults(kfac(layers, shape, batches=(1, 1)), "gradient", 4, ("query",), query=fn, exc=(Stop,)), **big)
    add("fault/KFAC/construct", faults(kfac(layers, shape, batches=(1, 1)), "layer", 9, ("construct",), exc=(Fault,)), **big)
    for loss in ("mse", "ce", "bce"):
        add(f"pure/MC-{loss}", sampled_purity(sampled("MC", loss=loss, target="bit" if loss == "bce" else "default", **small)))
        add(f"pure/KFAC-mc-{loss}", sampled_purity(sampled("KFAC", loss=loss, batches=(1, 1))))
    for site, last in (("data", 2), ("layer", 2), ("gradient", 2)):
        add(f"fault/MC/{site}", sampled_purity(sampled("MC", loss="mse", **small), site, last), **big)
        add(f"fault/KFAC-mc/{site}", sampled_purity(sampled("KFAC", loss="mse", batches=(1, 1)), site, last), **big)
    add("activation", activation, **big)
    for sep in (True, False):
        t = "sep" if sep else "joint"
        add(f"kfac/queries-{t}", queries(layers, shape, sep))
        add(f"kfac/queries-1-{t}", queries([Lin(1, 2)], (1,), sep))
        add(f"kfac/inverse-{t}", queries([Lin(1, 2)], (1,), sep, {}))
        add(f"kfac/inverse-pair-{t}", queries([Lin(2, 1)] if sep else [Lin(1, 1)], (2,) if sep else (1,), sep, {"pair": True}))
        add(f"kfac/inverse-heuristic-{t}", queries([Lin(1, 1)], (1,), sep, {"use_heuristic_damping": True}))
        add(f"kfac/inverse-exact-{t}", queries([Lin(1, 1)], (1,), sep, {"use_exact_damping": True}))
    add("kfac/inverse-exact-2", queries([Lin(1, 2)], (1,), True, {"use_exact_damping": True}))
    add("kfac/inverse-nocache", queries([Lin(1, 2)], (1,), True, {"cache": False}))
    add("kfac/inverse-exact-nocache", queries([Lin(1, 1)], (1,), True, {"cache": False, "use_exact_damping": True}))
    add("scipy/export", exported)
    for w in ("neumann", "submatrix", "outer"):
        add(f"scipy/{w}", scipy_side(w))
    return out
