"""SMT back end: division-free polynomial encoding of expressions for z3/cvc5."""
import math
import time
from fractions import Fraction

import z3

from . import expr as E

STATS = {
    "queries": 0,
    "unsat": 0,
    "sat": 0,
    "unknown": 0,
    "solver_s": 0.0,
    "by_kind": {},
    "trivial": 0,
}


def _note(kind, res, dt):
    STATS["queries"] += 1
    STATS[res] = STATS.get(res, 0) + 1
    STATS["solver_s"] += dt
    k = STATS["by_kind"].setdefault(kind, {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "s": 0.0})
    k["queries"] += 1
    k[res] = k.get(res, 0) + 1
    k["s"] += dt


def _q(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


class Encoder:
    """Translate Exprs to z3 terms; one instance per group of related queries."""

    def __init__(self, prescan=()):
        self.memo = {}
        self.bmemo = {}
        self.rootvar = {}
        self.consts = {}
        self.roots = set()  # variables encoded as squares
        self.halves = set()  # other bases with square roots: 1/b is counted as sqrt(b)^-2
        self.dom = {}  # z3 id -> list of constraints for atoms
        self.atoms = {}  # expr -> z3 var
        self.dens = {}  # denominators atoms: expr -> z3 term (must be nonzero)
        self._scan(prescan)

    def _scan(self, es):
        seen = set()
        stack = list(es)
        while stack:
            x = stack.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.k == "*":
                for b, p in x.a:
                    if type(p) is not int and b.k in ("v", "f") and Fraction(p).denominator == 2:
                        if E.nonneg(b):
                            self.roots.add(b)
                    elif b.k == "+" and type(p) is not int and Fraction(p).denominator == 2:
                        self.halves.add(b)
            stack.extend(E.children(x))

    # -- atoms -------------------------------------------------------------
    def atom(self, e):
        z = self.atoms.get(e)
        if z is not None:
            return z
        cons = []
        if e.k == "v":
            name, kind = e.a
            if e in self.roots:
                r = z3.Real(f"r!{name}")
                cons.append(r > 0 if kind in ("pos", "unit") else r >= 0)
                z = r * r
                self.rootvar[e] = r
            else:
                z = z3.Real(f"v!{name}")
                if kind == "pos":
                    cons.append(z > 0)
                elif kind == "nonneg":
                    cons.append(z >= 0)
                elif kind == "unit":
                    cons += [z > 0, z < 1]
                elif kind == "bit":
                    cons.append(z3.Or(z == 0, z == 1))
                elif kind == "sign":
                    cons.append(z3.Or(z == 1, z == -1))
                elif isinstance(kind, tuple) and kind[0] == "class":
                    cons.append(z3.Or([z == c for c in range(kind[1])]))
                elif kind in ("nat1", "nat", "int"):
                    i = z3.Int(f"i!{name}")
                    cons.append(z == z3.ToReal(i))
                    if kind == "nat1":
                        cons.append(i >= 1)
                    elif kind == "nat":
                        cons.append(i >= 0)
        elif e.k == "f":
            nm = e.a[0]
            if e in self.roots:
                r = z3.Real(f"rf!{e.id}")
                cons.append(r > 0 if nm == "exp" else r >= 0)
                z = r * r
                self.rootvar[e] = r
            else:
                z = z3.Real(f"f!{nm}!{e.id}")
                if nm == "exp":
                    cons.append(z > 0)
            self.atoms[e] = z
            if nm == "abs":
                n, d = self.ratio(e.a[2][0])
                x = n / self.den(d) if d else n
                cons += [z >= 0, z3.Or(z == x, z == -x)]
            elif nm == "tanh":
                cons += [z < 1, z > -1]
            elif nm in ("floor", "trunc"):
                n, d = self.ratio(e.a[2][0])
                x = n / self.den(d) if d else n
                i = z3.Int(f"fi!{e.id}")
                cons += [z == z3.ToReal(i)]
                if nm == "floor":
                    cons += [z <= x, x < z + 1]
                else:
                    cons += [z3.If(x >= 0, z3.And(z <= x, x < z + 1), z3.And(z >= x, x > z - 1))]
        else:
            raise E.SymbolicError(f"atom {e.k}")
        self.atoms[e] = z
        self.dom[e] = cons
        return z

    def root(self, b):
        """z3 term for sqrt(b)."""
        if b in self.roots:
            self.atom(b)
            return self.rootvar[b]
        r = self.rootvar.get(b)
        if r is None:
            r = z3.Real(f"rt!{b.id}")
            self.rootvar[b] = r
            n, d = self.ratio(b)
            self.dom[("root", b)] = [r >= 0, r * r * self.den(d) == n if d else r * r == n]
        return r

    # -- ratios --------------------------------------------------------------
    def den(self, d):
        t = None
        for key, k in d.items():
            for x in self._keypow(key, k):
                t = x if t is None else t * x
        return t if t is not None else z3.RealVal(1)

    def _keypow(self, key, k):
        """Factors of a denominator key to the power k."""
        b, half = key
        if not half:
            return [self.base(b)] * k
        if b in self.halves and not self.ratio(b)[1]:
            return [self.base(b)] * (k // 2) + [self.root(b)] * (k % 2)
        return [self.root(b)] * k

    def base(self, b):
        n, d = self.ratio(b)
        if d:
            raise E.SymbolicError("nested denominator")
        return n

    def _lcm(self, ds):
        L = {}
        for d in ds:
            for k, v in d.items():
                if v > L.get(k, 0):
                    L[k] = v
        return L

    def _scale_to(self, n, d, L):
        t = n
        for k, v in L.items():
            for x in self._keypow(k, v - d.get(k, 0)):
                t = t * x
        return t

    def ratio(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        k, a = e.k, e.a
        if k == "c":
            r = (_q(a[0]), {})
        elif k in ("v", "f"):
            r = (self.atom(e), {})
        elif k == "+":
            parts = [(self.ratio(t), c) for t, c in a[1]]
            L = self._lcm([p[0][1] for p in parts])
            ts = []
            if a[0] != 0:
                ts.append(self._scale_to(_q(a[0]), {}, L))
            for (n, d), c in parts:
                t = self._scale_to(n, d, L)
                ts.append(t if c == 1 else _q(c) * t)
            r = (z3.Sum(ts) if len(ts) > 1 else ts[0], L)
        elif k == "*":
            num = []
            den = {}
            for b, p in a:
                self._pow(b, p, num, den)
            t = None
            for x in num:
                t = x if t is None else t * x
            r = (t if t is not None else z3.RealVal(1), den)
        elif k == "ite":
            c = self.boolean(a[0])
            n1, d1 = self.ratio(a[1])
            n2, d2 = self.ratio(a[2])
            L = self._lcm([d1, d2])
            r = (z3.If(c, self._scale_to(n1, d1, L), self._scale_to(n2, d2, L)), L)
        elif k in E._BOOLK:
            r = (z3.If(self.boolean(e), z3.RealVal(1), z3.RealVal(0)), {})
        else:
            raise E.SymbolicError(k)
        self.memo[e] = r
        return r

    def _pow(self, b, p, num, den):
        f = Fraction(p)
        if f.denominator not in (1, 2):
            # other roots: a fresh variable
            r = self.rootvar.get((b, f.denominator))
            q = f.denominator
            if r is None:
                r = z3.Real(f"rt{q}!{b.id}")
                self.rootvar[(b, q)] = r
                n, d = self.ratio(b)
                t = r
                for _ in range(q - 1):
                    t = t * r
                self.dom[("root", b, q)] = [r >= 0, t * self.den(d) == n]
            m = f.numerator
            if m < 0:
                raise E.SymbolicError("negative odd root")
            num.extend([r] * m)
            return
        ip = math.floor(f)
        half = f.denominator == 2
        n, d = self.ratio(b)
        if half:
            # b^(ip + 1/2)
            if ip >= 0:
                num.append(self.root(b))
                self._ipow(b, n, d, ip, num, den)
            else:
                # b^(-m-1/2) with m = -ip-1
                key = (b, True)
                den[key] = den.get(key, 0) + 1
                self.dens[key] = None
                self._ipow(b, n, d, ip + 1, num, den)
        else:
            self._ipow(b, n, d, ip, num, den)

    def _ipow(self, b, n, d, ip, num, den):
        if ip == 0:
            return
        if ip > 0:
            num.extend([n] * ip)
            for k, v in d.items():
                den[k] = den.get(k, 0) + v * ip
            return
        m = -ip
        if d:
            # 1/(n/d)^m = d^m / n^m ; n becomes a new atom denominator
            nb = self._num_atom(b)
            key = (nb, False)
            den[key] = den.get(key, 0) + m
            self.dens[key] = None
            for k, v in d.items():
                num.extend(self._keypow(k, v * m))
        else:
            key = (b, b in self.halves)
            den[key] = den.get(key, 0) + (2 * m if key[1] else m)
            self.dens[key] = None

    def _num_atom(self, b):
        """A pseudo expression standing for the numerator of ratio(b)."""
        p = self.rootvar.get(("num", b))
        if p is None:
            p = E.Expr()
            p.k, p.a, p.id, p.fp = "num", (b,), -b.id, None
            self.rootvar[("num", b)] = p
            self.memo[p] = (self.ratio(b)[0], {})
        return p

    # -- booleans --------------------------------------------------------------
    def boolean(self, e):
        r = self.bmemo.get(e)
        if r is not None:
            return r
        k, a = e.k, e.a
        if k == "T":
            r = z3.BoolVal(True)
        elif k == "F":
            r = z3.BoolVal(False)
        elif k == "bv":
            r = z3.Bool(f"b!{a[0]}")
        elif k in ("le", "lt", "eq"):
            n, d = self.ratio(a[0])
            if d and k != "eq":
                # sign of n/d: multiply by d^2 via parity
                s = {kk: v for kk, v in d.items() if v % 2 == 1}
                s = {kk: 1 for kk in s if not kk[1] and not self._pos(kk[0])}
                for kk in s:
                    n = n * self.base(kk[0])
            r = n <= 0 if k == "le" else (n < 0 if k == "lt" else n == 0)
        elif k == "not":
            r = z3.Not(self.boolean(a[0]))
        elif k == "and":
            r = z3.And([self.boolean(x) for x in a])
        elif k == "or":
            r = z3.Or([self.boolean(x) for x in a])
        else:
            raise E.SymbolicError(k)
        self.bmemo[e] = r
        return r

    def _pos(self, b):
        return b.k != "num" and E.positive(b)

    def constraints(self):
        """Domain facts of every atom met so far and nonzero denominators."""
        out = []
        done = -1
        while done != len(self.dom):
            done = len(self.dom)
            out = []
            for c in list(self.dom.values()):
                out.extend(c)
        for (b, half) in list(self.dens):
            if not self._pos(b):
                out.append((self.root(b) if half else self.base(b)) != 0)
        return out


_TACTICS = {}


def _solver(timeout_ms, simp=True, logic=None):
    t = z3.Then(z3.With("simplify", som=True, som_blowup=10**7), z3.With("simplify", som=True, som_blowup=10**7), "smt") if simp else z3.Tactic("smt")
    s = t.solver()
    s.set("timeout", int(timeout_ms))
    return s


class Result:
    def __init__(self, verdict, model=None, secs=0.0):
        self.verdict = verdict
        self.model = model
        self.secs = secs


def _model_lookup(enc, model):
    """{var Expr: Fraction/float} for free variables assigned in the model."""
    out = {}
    for e, z in enc.atoms.items():
        if e.k != "v":
            continue
        v = model.eval(z, model_completion=True)
        out[e.a[0]] = _num(v)
    for e in list(enc.bmemo):
        if e.k == "bv":
            out[e.a[0]] = bool(z3.is_true(model.eval(enc.bmemo[e], model_completion=True)))
    return out


def _num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    s = z3.simplify(v)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    raise E.SymbolicError(f"model value {v}")


def check(conds, timeout_ms=20000, kind="query", want_model=True, enc=None, pins=None, simp=True):
    """Satisfiability of a conjunction of boolean Exprs (plus domain facts)."""
    conds = [c for c in conds if c is not E.TRUE]
    t0 = time.time()
    if any(c is E.FALSE for c in conds):
        STATS["trivial"] += 1
        _note(kind, "unsat", time.time() - t0)
        return Result("unsat")
    enc = enc or Encoder(conds)
    zs = [enc.boolean(c) for c in conds]
    verdict, model = "unknown", None
    if pins:
        zs = zs + [enc.atom(v) == _q(x) for v, x in pins.items() if v in enc.atoms]
    cons = enc.constraints()
    s = _solver(timeout_ms, simp)
    s.add(*zs)
    s.add(*cons)
    try:
        r = s.check()
    except z3.Z3Exception as ex:
        raise E.SymbolicError(f"z3: {ex}")
    verdict = str(r)
    lookup = None
    if verdict == "sat" and want_model:
        lookup = _model_lookup(enc, s.model())
    if verdict == "unknown" and not pins:
        # second opinion: nlsat
        s2 = z3.Then("simplify", "solve-eqs", "purify-arith", "nlsat").solver() if False else z3.SolverFor("QF_NRA")
        s2.set("timeout", int(timeout_ms))
        s2.add(*zs)
        s2.add(*cons)
        try:
            r = s2.check()
            verdict = str(r)
            if verdict == "sat" and want_model:
                lookup = _model_lookup(enc, s2.model())
        except z3.Z3Exception:
            verdict = "unknown"
    dt = time.time() - t0
    _note(kind, verdict, dt)
    return Result(verdict, lookup, dt)


def prove(goal, assumptions=(), timeout_ms=20000, kind="obligation"):
    """'unsat' means goal holds for every assignment satisfying assumptions."""
    return check(list(assumptions) + [E.bnot(goal)], timeout_ms, kind)


# --- splitting an identity over free variables ------------------------------------
class _TooBig(Exception):
    pass


def _atoms_of(x, out):
    """Atoms (variables, function applications, conditionals) of a polynomial/rational
    expression, without entering the atoms."""
    seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.k == "+":
            stack.extend(t for t, _ in y.a[1])
        elif y.k == "*":
            stack.extend(b for b, _ in y.a)
        elif y.k != "c":
            out.add(y)


def _occurrence(es, deep):
    """(complex?, atoms at polynomial positions, blocked atoms).

    deep: variables inside function arguments and conditions are blocked as well, so
    that the expressions are genuinely polynomial in the others; otherwise function
    applications and conditionals count as independent atoms (sound, incomplete)."""
    blocked, atoms, seen = set(), set(), set()
    cx = False
    stack = list(es)
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == "f" or x.k == "ite" or x.k in E._BOOLK:
            cx = True
            if deep and x.k == "ite":
                blocked.update(E.free_vars(x.a[0]))
                stack.extend(x.a[1:])
            elif deep:
                blocked.update(E.free_vars(x))
            elif x.k in E._BOOLK:
                blocked.add(x)
            else:
                atoms.add(x)
        elif x.k == "v":
            atoms.add(x)
        elif x.k == "*":
            for b, p in x.a:
                if type(p) is int and p > 0:
                    stack.append(b)
                elif b.k != "c":
                    cx = True
                    if deep:
                        blocked.update(E.free_vars(b))
                    else:
                        _atoms_of(b, blocked)
        elif x.k == "+":
            stack.extend(t for t, _ in x.a[1])
    return cx, atoms, blocked


def _contradict(d):
    """Two different values of one class variable in a product of indicators."""
    seen = {}
    for v in d:
        if v.k == "ite" and v.a[0].k == "eq":
            cl = E.class_test(v.a[0].a[0])
            if cl is not None:
                if cl[0] in seen:
                    return True
                seen[cl[0]] = cl[1]
    return False


def coefficients(e, V, limit=4000, blocked=None):
    """{monomial in V: coefficient Expr} of an expression polynomial in V."""
    memo, has = {}, {}

    def hasv(x):
        r = has.get(x)
        if r is None:
            if x.k == "ite":
                r = x not in blocked if blocked is not None else (hasv(x.a[1]) or hasv(x.a[2]))
            elif x.k in ("v", "f", "ite"):
                r = x in V
            elif x.k == "+":
                r = any(hasv(t) for t, _ in x.a[1])
            elif x.k == "*":
                r = any(hasv(b) for b, _ in x.a)
            else:
                r = False
            has[x] = r
        return r

    def mulp(p, q):
        if len(p) * len(q) > limit * 8:
            raise _TooBig
        acc = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for v, k in m2:
                        d[v] = d.get(v, 0) + k
                        if v.k == "ite" or (v.k == "v" and v.a[1] == "bit"):
                            d[v] = 1
                    if _contradict(d):
                        continue
                    m = tuple(sorted(d.items(), key=lambda t: t[0].id))
                acc.setdefault(m, []).append(E.mul(c1, c2))
        if len(acc) > limit:
            raise _TooBig
        return {m: (cs[0] if len(cs) == 1 else E.esum(cs)) for m, cs in acc.items()}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not hasv(x):
            r = {(): x}
        elif x.k in ("v", "f"):
            r = {((x, 1),): E.ONE}
        elif x.k == "ite" and blocked is None:
            c, p, q = x.a
            gp, gq = go(p), go(q)
            r = {m: E.ite(c, gp.get(m, E.ZERO), gq.get(m, E.ZERO)) for m in {**gp, **gq}}
        elif x.k == "ite":
            # indicator form: I*p + (1-I)*q with I*I = I
            c, p, q = x.a
            if c.k == "not":
                c, p, q = c.a[0], q, p
            elif c.k == "lt":
                c, p, q = E.bnot(c), q, p
            if c.k in ("and", "or"):
                t = q if c.k == "and" else p
                y = t
                for b in reversed(c.a):
                    y = E.ite(b, p if y is t and b is c.a[-1] else y, t) if c.k == "and" else E.ite(
                        b, t, q if y is t and b is c.a[-1] else y
                    )
                r = go(y)
                memo[x] = r
                return r
            ind = E._mk("ite", (c, E.ONE, E.ZERO))
            r = dict(go(q))
            for m, co in mulp({((ind, 1),): E.ONE}, {m: co for m, co in go(E.sub(p, q)).items()}).items():
                r[m] = E.add(r[m], co) if m in r else co
        elif x.k == "+":
            acc = {}
            if x.a[0] != 0:
                acc[()] = [E.const(x.a[0])]
            for t, c in x.a[1]:
                for m, co in go(t).items():
                    acc.setdefault(m, []).append(E.scale(co, c))
            if len(acc) > limit:
                raise _TooBig
            r = {m: (cs[0] if len(cs) == 1 else E.esum(cs)) for m, cs in acc.items()}
        else:
            r = {(): E.ONE}
            for b, p in x.a:
                if not hasv(b):
                    r = {m: E.mul(c, E.power(b, p)) for m, c in r.items()}
                    continue
                g = go(b)
                for _ in range(p):
                    r = mulp(r, g)
        memo[x] = r
        return r

    return {m: c for m, c in go(e).items() if c is not E.ZERO}


def _rawsub(x, y):
    """x - y as a node (no cancellation here: that is the solver's job)."""
    return E._mk("+", (0, ((x, 1), (y, -1)))) if x.k != "c" and y.k != "c" else E.sub(x, y)


def _split(a, b, assumptions, deep):
    """Pairs of coefficients whose equality implies a == b, or None."""
    cx, atoms, blocked = _occurrence([a, b], deep)
    if not cx:
        return None
    if deep:
        for c in assumptions:
            blocked |= set(E.free_vars(c))
        V = {v for v in atoms if v.k == "v" and v not in blocked and v.a[1] in ("real", "pos", "nonneg", "unit")}
    else:
        V = atoms - blocked
    if not V:
        return None
    bl = None if deep else blocked
    order = sorted(V, key=lambda v: v.id)
    while True:
        try:
            ca, cb = coefficients(a, V, blocked=bl), coefficients(b, V, blocked=bl)
            break
        except _TooBig:
            # fewer variables (the youngest ones are the probing vectors)
            if not deep or len(order) <= 1:
                return None
            order = order[-(len(order) // 2) :]
            V = set(order)
    out = {}
    for m in list(ca) + [m for m in cb if m not in ca]:
        out[(ca.get(m, E.ZERO), cb.get(m, E.ZERO))] = None
    return list(out)


def _separate(a, b):
    """Pairs over disjoint sets of atoms whose equality implies a == b."""
    terms = []
    for e, sgn in ((a, 0), (b, 1)):
        if e.k == "+":
            terms += [(E.scale(t, c), sgn) for t, c in e.a[1]]
            if e.a[0] != 0:
                terms.append((E.const(e.a[0]), sgn))
        elif e is not E.ZERO:
            terms.append((e, sgn))
    if len(terms) < 3:
        return [(a, b)]
    parent = {}

    def find(x):
        while parent.setdefault(x, x) is not x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    keys = []
    for t, _ in terms:
        at = set()
        _atoms_of(t, at)
        at = list(at)
        for y in at[1:]:
            parent[find(at[0])] = find(y)
        keys.append(at[0] if at else None)
    groups = {}
    for (t, sgn), k in zip(terms, keys):
        groups.setdefault(None if k is None else find(k), ([], []))[sgn].append(t)
    if len(groups) < 2:
        return [(a, b)]
    return [(E.esum(x), E.esum(y)) for x, y in groups.values()]


class Expander:
    """Numerators as explicit sums of monomials (exponents counted in halves), denominators as
    products of bases."""

    def __init__(self, limit, roots=False, inverses=False, exps=False):
        """roots / inverses: fractional / negative powers of sums count as independent
        positive unknowns (sufficient for equality, not necessary).
        exps: exponentials of sums are products of the terms' exponentials."""
        self.limit = limit
        self.exps = exps
        self.sums = False  # exponentials of sums occurred
        self.atom_roots, self.atom_inverses = roots, inverses
        self.memo = {}
        self.nums = {}
        self.signs = set()  # variables whose square is one
        self.work = 0

    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        self.work += len(p) * len(q)
        if self.work > self.limit:
            raise _TooBig
        out = {}
        signs = self.signs
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    d = dict(m1)
                    for v, k in m2:
                        t = d.get(v, 0) + k
                        if v in signs:
                            t %= 4
                        if t:
                            d[v] = t
                        else:
                            d.pop(v, None)
                    m = tuple(sorted(d.items()))
                c = out.get(m, 0) + c1 * c2
                if c:
                    out[m] = c
                else:
                    out.pop(m, None)
        return out

    def add(self, ps):
        out = {}
        for p in ps:
            for m, c in p.items():
                c = out.get(m, 0) + c
                if c:
                    out[m] = c
                else:
                    out.pop(m, None)
        self.work += len(out)
        return out

    def _known(self, e):
        if e.k == "v" and e.a[1] == "sign":
            self.signs.add(e.id)
            return True

    def atom(self, e, p):
        """Monomial of the unknown (or exponential) e to the power p."""
        if e.k == "f" and e.a[0] == "exp" and e.a[2][0].k == "+":
            self.sums = True
            if not self.exps:
                return ((e.id, int(2 * p)),)
            c0, ts = e.a[2][0].a
            ks = [(t, 2 * Fraction(c) * p) for t, c in ts]
            if all(k.denominator == 1 for _, k in ks):
                m = {E.fn("exp", (t,)).id: int(k) for t, k in ks}
                if c0 != 0:
                    m[E.fn("exp", (E.const(c0),)).id] = int(2 * p)
                return tuple(sorted(m.items()))
        return ((e.id, int(2 * p)),)

    def keypow(self, key, k):
        """Factors of key**k (key: base expression; k a multiple of 1/2)."""
        ip = math.floor(k)
        n = self.nums[key] if isinstance(key, tuple) else self.ratio(key)[0]
        if k != ip and isinstance(key, tuple):
            raise _TooBig
        out = {(): Fraction(1)}
        for _ in range(ip):
            out = self.mul(out, n)
        if k != ip:
            out = self.mul(out, {((key.id, 1),): Fraction(1)})
        return out

    def common(self, parts):
        L = {}
        for _, d in parts:
            for k, v in d.items():
                if v > L.get(k, 0):
                    L[k] = v
        out = []
        for n, d in parts:
            for k, v in L.items():
                m = v - d.get(k, 0)
                if m:
                    n = self.mul(n, self.keypow(k, m))
            out.append(n)
        return out, L

    def fold(self, n):
        """Even powers of roots of sums are powers of the sums."""
        roots = self.roots
        if not roots:
            return n
        todo = {m for m in n if any(v in roots and k >= 2 for v, k in m)}
        if not todo:
            return n
        out = {m: c for m, c in n.items() if m not in todo}
        parts = [out]
        for m in todo:
            r = {(): n[m]}
            for v, k in m:
                if v in roots and k >= 2:
                    r = self.mul(r, self.keypow(roots[v], Fraction(k, 2)))
                else:
                    r = self.mul(r, {((v, k),): Fraction(1)})
            parts.append(r)
        return self.add(parts)

    roots = {}

    def ratio(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        k, a = e.k, e.a
        if k == "c":
            r = ({(): Fraction(a[0])} if a[0] else {}, {})
        elif k == "+":
            ns, L = self.common([self.ratio(t) for t, _ in a[1]])
            ps = [{m: c * x for m, x in n.items()} for n, (_, c) in zip(ns, a[1])]
            if a[0] != 0:
                one, _ = self.common([({(): Fraction(a[0])}, {}), ({}, L)])
                ps.append(one[0])
            r = (self.add(ps), L)
        elif k == "*":
            n, d = {(): Fraction(1)}, {}
            for b, p in a:
                f = Fraction(p)
                if f.denominator > 2:
                    raise _TooBig
                if b.k == "c" and f.denominator == 2:
                    self.roots = {**self.roots, b.id: b}
                    w = Fraction(b.a[0]) ** math.floor(f)
                    n = self.mul(n, {((b.id, 1),): w})
                    continue
                if b.k in ("v", "f"):
                    # monomials with negative exponents
                    if self._known(b):
                        f = f % 2
                        if f == 0:
                            continue
                    n = self.mul(n, {self.atom(b, f): Fraction(1)})
                    continue
                if b.k == "c":
                    n = {m: c * Fraction(b.a[0]) ** int(f) for m, c in n.items()}
                    continue
                if (self.atom_roots and f.denominator == 2) or (self.atom_inverses and f < 0):
                    n = self.mul(n, {((b.id, int(2 * f)),): Fraction(1)})
                    continue
                bn, bd = self.ratio(b)
                if b.k != "+" or bd:
                    if f.denominator != 1 or not bn:
                        raise _TooBig
                    if f < 0:
                        key = ("numerator", frozenset(bn.items()))
                        self.nums[key] = bn
                        d[key] = d.get(key, 0) - f
                        for kk, v in bd.items():
                            n = self.mul(n, self.keypow(kk, -v * f))
                        continue
                if f < 0:
                    d[b] = d.get(b, 0) - f
                    continue
                for _ in range(math.floor(f)):
                    n = self.mul(n, bn)
                    for kk, v in bd.items():
                        d[kk] = d.get(kk, 0) + v
                if f.denominator == 2:
                    if b.id not in self.roots:
                        self.roots = {**self.roots, b.id: b}
                    n = self.mul(n, {((b.id, 1),): Fraction(1)})
            r = (self.fold(n), d)
        else:
            self._known(e)
            r = ({self.atom(e, Fraction(1)): Fraction(1)}, {})
        self.memo[e] = r
        return r


EXPAND_LIMIT = 400000


def expand_equal(a, b, kind, limit=EXPAND_LIMIT):
    """Are the numerators of a and b over a common denominator the same sums of monomials?
    The solver decides it with the monomials as unknowns."""
    t0 = time.time()
    for roots, inverses, exps in ((True, True, False), (True, False, False), (False, False, False), (False, False, True)):
        if exps and not x.sums:
            return False
        x = Expander(limit, roots, inverses, exps)
        try:
            ns, _ = x.common([x.ratio(a), x.ratio(b)])
            na, nb = x.fold(ns[0]), x.fold(ns[1])
        except _TooBig:
            continue
        if na == nb and len(na) <= 20000:
            break
    else:
        return False
    vs = {m: z3.Real(f"m{n}") for n, m in enumerate(na)}
    tot = lambda p: z3.Sum([_q(c) * vs[m] for m, c in p.items()]) if p else z3.RealVal(0)
    s = z3.SolverFor("QF_LRA")
    s.add(tot(na) != tot(nb))
    v = str(s.check())
    _note("obligation over monomials", v, time.time() - t0)
    return v == "unsat"


def _eq_goal(c):
    return E._mk("eq", (_rawsub(*c),))


def _pairs_equal(pairs, assumptions, timeout_ms, kind):
    """Are all pairs proved equal?  Queries in chunks."""
    same = [c for c in pairs if c[0] is c[1]]
    todo = [g for c in pairs if c[0] is not c[1] and c not in PROVED_ZERO for g in _separate(*c)]
    todo = [c for c in dict.fromkeys(todo) if c[0] is not c[1] and c not in PROVED_ZERO]
    if same:
        STATS["normalised"] = STATS.get("normalised", 0) + len(same)
    done = [c for c in todo if expand_equal(*c, kind)]
    if not assumptions:
        PROVED_ZERO.update(done)
    done = set(done)
    todo = [c for c in todo if c not in done]
    for i in range(0, len(todo), 16):
        chunk = todo[i : i + 16]
        goal = E.band(*[_eq_goal(c) for c in chunk])
        r = check(list(assumptions) + [E.bnot(goal)], timeout_ms, kind, want_model=False)
        if r.verdict != "unsat":
            if len(chunk) > 1 and r.verdict == "unknown":
                for c in chunk:
                    r = check(list(assumptions) + [E.bnot(_eq_goal(c))], timeout_ms, kind, want_model=False)
                    if r.verdict != "unsat":
                        return False
            else:
                return False
        if not assumptions:
            PROVED_ZERO.update(chunk)
    return True


def prove_equal(a, b, assumptions=(), timeout_ms=20000, kind="obligation"):
    """a == b for every assignment satisfying the assumptions.

    When both are polynomial in some unconstrained variables, they are equal iff all
    coefficients are; the solver decides the coefficients."""
    if a is b:
        STATS["trivial"] += 1
        return Result("unsat")
    t0 = time.time()
    pairs = _split(a, b, assumptions, True)
    if pairs is None:
        if _split(a, b, assumptions, False) is None:
            sep = _separate(a, b)
            if len(sep) > 1 and _pairs_equal(sep, assumptions, min(timeout_ms, 5000), kind):
                return Result("unsat", None, time.time() - t0)
            if expand_equal(a, b, kind):
                return Result("unsat", None, time.time() - t0)
            return prove(E.eq(a, b), assumptions, timeout_ms, kind)
        pairs = [(a, b)]
    n0 = STATS["queries"]
    decided = set()
    for c in pairs:
        decided.add(c)
        if c[0] is c[1] or c in PROVED_ZERO:
            STATS["normalised"] = STATS.get("normalised", 0) + 1
            continue
        if expand_equal(*c, kind, 50000):
            if not assumptions:
                PROVED_ZERO.add(c)
            continue
        fine = _split(c[0], c[1], assumptions, False)
        if fine is not None and _pairs_equal(fine, assumptions, min(timeout_ms, 1000), kind):
            if not assumptions:
                PROVED_ZERO.add(c)
            continue
        if expand_equal(*c, kind):
            continue
        if len(pairs) == 1:
            break
        if not _pairs_equal([c], assumptions, timeout_ms, kind):
            break
    else:
        if STATS["queries"] == n0:
            # every coefficient pair was brought to the same normal form (or decided
            # before): the solver confirms the equality with coefficients as unknowns
            t1 = time.time()
            s = z3.SolverFor("QF_LRA")
            s.add(z3.Or([z3.Real(f"k{c[0].id}") != z3.Real(f"k{c[0].id if c in decided else c[1].id}") for c in pairs]))
            v = str(s.check())
            _note("obligation over abstracted coefficients", v, time.time() - t1)
            if v != "unsat":
                return Result("unknown")
        return Result("unsat", None, time.time() - t0)
    return prove(E.eq(a, b), assumptions, timeout_ms, kind)


PROVED_ZERO = set()


# --- congruence of function applications ------------------------------------------
class Congruence:
    """Merge f(a) and f(b) when the solver proves a == b."""

    def __init__(self):
        self.by_name = {}
        self.ev = None
        self.assume = []

    def reset(self):
        self.by_name = {}
        self.ev = E.Evaluator(lambda n, k: E.sample_value(n, k, salt=77))

    def canon(self, name, param, args):
        if name == "undef":
            return None
        if self.ev is None:
            self.reset()
        vals = [self.ev(a) for a in args]
        bucket = self.by_name.setdefault((name, param), [])
        if all(v == v for v in vals):
            for node, nargs, nvals in bucket:
                if len(nvals) == len(vals) and all(
                    abs(u - v) <= 1e-9 * (1 + abs(u)) for u, v in zip(nvals, vals)
                ):
                    if all(
                        x is y
                        or prove(E.eq(x, y), self.assume, 5000, "congruence").verdict == "unsat"
                        for x, y in zip(nargs, args)
                    ):
                        return node
        node = E._mk("f", (name, param, args))
        bucket.append((node, args, vals))
        return node


CONG = Congruence()
E.FN_CANON[0] = CONG.canon


def reset():
    CONG.reset()
    PROVED_ZERO.clear()
