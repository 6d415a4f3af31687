"""One contract, two interpretations.

A contract is a Python function  contract(D, **params)  that builds a pre-state from D, calls the *real* lips code and
states its postconditions through D.  SymDomain interprets it over universally quantified symbols (deductive mode:
every obligation is decided for all field elements and all paths).  RealDomain interprets the same text on one of the
real fields (runtime mode: replays a counterexample, and stands in - labelled bounded - where the deductive mode has no
verdict)."""
import contextlib
import copy
import random
import sys
import numpy
import z3 as _z3_probe                                            # noqa: F401  (path set by vc.paths)

from . import sym as S
from .sym import Sym, SymAbs, Unsupported
from .paths import SymTol, Infeasible

import lips
import lips.particle
import lips.particles
from lips import Particle, Particles
from syngular import Field


class ObligationFailed(Exception):
    pass


class SymField:
    """Contract of syngular.Field as used by lips: sqrt(x)^2 == x and sqrt is a function of x; random() is an arbitrary
    element; tollerance is an arbitrary non-negative threshold; calling it casts into the field."""
    CHAR = {"mpc": 0, "rational": 0, "gaussian rational": 0, "finite field": 2 ** 31 - 1, "padic": 2 ** 31 - 1}
    DIG = {"mpc": 300, "rational": 0, "gaussian rational": 0, "finite field": 1, "padic": 5}

    def __init__(self, name="finite field"):
        self.name = name
        self.characteristic = self.CHAR[name]
        self.digits = self.DIG[name]
        self._n = 0

    def __call__(self, *args):
        x = args[0]
        if x is None:
            return None
        if isinstance(x, str):
            x = x.strip()
            if x.startswith("symref"):
                return S.lookup(x)
            from fractions import Fraction
            return Sym.const(Fraction(x))
        r = Sym.lift(x)
        if r is None:
            raise Unsupported(f"cast of {type(x)} to the symbolic field")
        return r

    def sqrt(self, x):
        if self.name in ("rational", "gaussian rational"):
            raise Exception(f"Field sqrt not implemented: {self.name}")
        return S.ctx.sqrt(x)

    def random(self, *a, **k):
        self._n += 1
        return Sym.var(f"rnd{self._n}")

    random_element = random

    @property
    def tollerance(self):
        return SymTol(S.ctx.tol)

    @property
    def j(self):
        return S.IMAG()

    i = I = j

    @property
    def one(self):
        return Sym.const(1)

    @property
    def zero(self):
        return S.ZERO()

    @property
    def is_algebraically_closed(self):
        return self.name == "mpc"

    def __contains__(self, o):
        return isinstance(o, Sym)

    def __eq__(self, o):
        return isinstance(o, SymField) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"SymField({self.name!r})"


class _Patch:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, val):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def undo(self):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)
        self.saved = []


def _lips_modules():
    return [m for k, m in list(sys.modules.items()) if (k == "lips" or k.startswith("lips.")) and m is not None]


# ------------------------------------------------------------------ common API

class Domain:
    symbolic = False

    @contextlib.contextmanager
    def pristine(self):
        """for closed computations (no symbolic scalar involved): the library as it is, without stand-ins for randomness"""
        cur = [(o, n, getattr(o, n)) for o, n, _ in self.patch.saved]
        for o, n, v in reversed(self.patch.saved):
            setattr(o, n, v)
        try:
            yield
        finally:
            for o, n, v in cur:
                setattr(o, n, v)

    def arr(self, rows):
        a = numpy.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
        return a

    def col(self, tag):
        return self.arr([[self.scalar(f"{tag}1")], [self.scalar(f"{tag}2")]])

    def row(self, tag):
        return self.arr([[self.scalar(f"{tag}1"), self.scalar(f"{tag}2")]])

    def mat(self, tag):
        return self.arr([[self.scalar(f"{tag}11"), self.scalar(f"{tag}12")], [self.scalar(f"{tag}21"), self.scalar(f"{tag}22")]])

    def vec4(self, tag, real=False):
        a = numpy.empty((4,), dtype=object)
        for k in range(4):
            a[k] = self.scalar(f"{tag}_{k}")
            if real and not self.symbolic and self.fname == "mpc":
                import mpmath
                a[k] = mpmath.mpc(a[k].real, 0)
        return a

    def massless(self, tag):
        """an arbitrary massless particle: arbitrary |tag> and [tag|."""
        with self.setup():
            return Particle((self.col(f"r{tag}_"), self.row(f"l{tag}_")), field=self.field)

    def massive(self, tag):
        """an arbitrary momentum, given as a rank-two spinor."""
        with self.setup():
            return Particle(self.mat(f"P{tag}_"), field=self.field)

    def point(self, n, massive=(), conserve=False, legs=None):
        """n arbitrary particles (no momentum conservation unless asked, then solved for the square ("square"/True) or
        angle ("angle") spinors of the last two legs, or of the legs given)."""
        with self.setup():
            ps = [self.massive(i) if i in massive else self.massless(i) for i in range(1, n + 1)]
            oPs = Particles(ps, field=self.field, fix_mom_cons=False)
            if conserve:
                A, B = legs or (n - 1, n)
                (self.conserve_angle if conserve == "angle" else self.conserve)(oPs, A, B)
            return oPs

    def conserve_angle(self, oPs, A, B):
        """the same, solved for |A>, |B>:  sum_k |k>[k| = 0  =>  |A> = -K|B]/[A|B], |B> = K|A]/[A|B]  with K the others' P_{a ad}"""
        K = sum_mats([oPs[k].r2_sp_b for k in range(1, len(oPs) + 1) if k not in (A, B)], self)
        lA, lB = oPs[A].l_sp_d, oPs[B].l_sp_d
        AB = lA[0, 0] * lB[0, 1] - lA[0, 1] * lB[0, 0]
        rA = [K[i, 0] * lB[0, 1] - K[i, 1] * lB[0, 0] for i in range(2)]
        rB = [K[i, 0] * lA[0, 1] - K[i, 1] * lA[0, 0] for i in range(2)]
        self.nonzero(AB)
        oPs[A].r_sp_d = self.arr([[-rA[0] / AB], [-rA[1] / AB]])
        oPs[B].r_sp_d = self.arr([[rB[0] / AB], [rB[1] / AB]])

    def conserve(self, oPs, A, B):
        """independent solution of momentum conservation for |A], |B] (spec code, does not use lips' fix_mom_cons):
        with K^{ad,a} = sum of the others' P^{ad a},  P = |p] <p| :  |A] = -K|B>/<A|B>, |B] = K|A>/<A|B>."""
        K = sum_mats([oPs[k].r2_sp for k in range(1, len(oPs) + 1) if k not in (A, B)], self)
        rA, rB = oPs[A].r_sp_d, oPs[B].r_sp_d
        AB = rA[1, 0] * rB[0, 0] - rA[0, 0] * rB[1, 0]          # <A|B> = eps^{ab} A_b B_a
        lA = K @ rB
        lB = K @ rA
        self.nonzero(AB)
        oPs[A].l_sp_u = self.arr([[-lA[0, 0] / AB], [-lA[1, 0] / AB]])
        oPs[B].l_sp_u = self.arr([[lB[0, 0] / AB], [lB[1, 0] / AB]])

    # ---- obligations
    def eq(self, name, a, b):
        fa, fb = _entries(a), _entries(b)
        if fa is None or fb is None:
            return self.true(name, fa is None and fb is None, f"one of {a!r}, {b!r} is undefined")
        sa, sb = getattr(a, "shape", ()), getattr(b, "shape", ())
        if tuple(sa) != tuple(sb):
            return self.true(name, False, f"shape {sa} != {sb}")
        ok = True
        for k, (x, y) in enumerate(zip(fa, fb)):
            ok = self._eq1(name if len(fa) == 1 else f"{name}[{k}]", x, y) and ok
        return ok

    def same(self, name, a, b):
        return self.true(name, type(a) is type(b) and a == b, f"{a!r} != {b!r}")


def _entries(a):
    if a is None:
        return None
    if isinstance(a, numpy.ndarray):
        fl = list(a.flatten())
        return None if fl and all(x is None for x in fl) else fl
    if isinstance(a, (list, tuple)):
        return [x for e in a for x in (_entries(e) or [None])]
    return [a]


def sum_mats(ms, D):
    if not ms:
        z = D.zero()
        return D.arr([[z, z], [z, z]])
    t = ms[0]
    for m in ms[1:]:
        t = t + m
    return t


# ------------------------------------------------------------------ symbolic

class SymDomain(Domain):
    symbolic = True

    def __init__(self, path, fname="finite field"):
        self.path = path
        self.field = SymField(fname)
        self.fname = fname
        self.patch = _Patch()
        self.choices = {}
        self.paths_log = path.log

    def __enter__(self):
        P = self.patch
        cnt = [0]

        frames = {}

        def rand_frac():
            # a retry loop that redraws state-independently: two rounds are explored, later rounds repeat the same
            # obligation on renamed fresh symbols (cut, listed among the assumptions)
            f = sys._getframe(1)
            frames[f] = frames.get(f, 0) + 1
            if frames[f] > 12:
                raise Infeasible()
            cnt[0] += 1
            return Sym.var(f"frac{cnt[0]}")
        for m in _lips_modules():
            if "rand_frac" in vars(m):
                P.set(m, "rand_frac", rand_frac)

        def sample(population, k, **kw):
            pop = list(population)
            if len(pop) > 12 or k > 2:
                return pop[:k]
            import itertools
            r = self.path.choose(list(itertools.permutations(pop, k)))
            self.choices.setdefault("random.sample", []).append(list(r))
            self.path.log.append(("random.sample", r))
            return list(r)
        P.set(random, "sample", sample)
        import mpmath
        orig_sqrt = mpmath.sqrt

        def mp_sqrt(x, *a, **k):
            if isinstance(x, Sym):
                return S.ctx.sqrt(x)
            if isinstance(x, int) and x > 1 and self.fname == "mpc" and int(x ** .5 + .5) ** 2 != x:
                return S.ctx.sqrt(Sym.const(x))
            return orig_sqrt(x, *a, **k)
        P.set(mpmath, "sqrt", mp_sqrt)
        return self

    def __exit__(self, *a):
        self.patch.undo()

    @contextlib.contextmanager
    def setup(self):
        self.path.generic_setup += 1
        try:
            yield
        finally:
            self.path.generic_setup -= 1

    def scalar(self, tag):
        return Sym.var(str(tag))

    def zero(self):
        return S.ZERO()

    def const(self, k):
        return Sym.const(k)

    def choose(self, label, options):
        r = self.path.choose(list(options))
        self.path.log.append(("choose", label, r))
        return r

    def nonzero(self, x):
        x = Sym.lift(x)
        if x.is_const():
            if x.iszero():
                raise Infeasible()
            return
        self.path.assume_nonzero(x)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def nonsmall(self, x):
        """requires |x| > tolerance"""
        if Sym.lift(x).iszero():
            raise Infeasible()
        self.path.assume(self.path.cmp_formula(SymAbs(x), SymTol(self.path.tol), ">"))

    def sqrt(self, x):
        return S.ctx.sqrt(x)

    def imag(self):
        return S.IMAG()

    @contextlib.contextmanager
    def stub(self, obj, name, fn):
        old = obj.__dict__.get(name, None)
        had = name in obj.__dict__
        setattr(obj, name, fn)
        try:
            yield
        finally:
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)

    def _eq1(self, name, x, y):
        if x is y:
            self.path.results.append((name, "path", True, ""))
            return True
        if x is None or y is None:
            return self.true(name, x is None and y is None, f"{x!r} vs {y!r}")
        lx, ly = Sym.lift(x), Sym.lift(y)
        if lx is None or ly is None:
            raise Unsupported(f"obligation {name} compares {type(x).__name__} and {type(y).__name__}")
        d = lx - ly
        return self._record_zero(name, d)

    def _record_zero(self, name, d):
        if d.iszero():
            self.path.results.append((name, "poly-normal-form", True, ""))
            return True
        p = self.path.apply_subst(d.n) if self.path.subst else d.n
        if not p:
            self.path.results.append((name, "poly-normal-form+eliminated-path-equality", True, ""))
            return True
        f = self.path.zero_formula(d)
        if not self.path._sat(_not(f)):
            self.path.results.append((name, "z3", True, ""))
            return True
        if self.path.eqs:
            from .singular import in_ideal
            if in_ideal(p, self.path.eqs):
                self.path.results.append((name, "Singular ideal membership", True, ""))
                return True
        self.path.results.append((name, "poly-normal-form", False, f"residual {S.pstr(p)} != 0"))
        return False

    def true(self, name, cond, detail=""):
        """cond: Python bool (already decided on this path) or z3 formula."""
        if isinstance(cond, (bool, numpy.bool_)):
            self.path.results.append((name, "path", bool(cond), "" if cond else f"{detail}"))
            return bool(cond)
        ok = not self.path._sat(_not(cond))
        self.path.results.append((name, "z3", ok, "" if ok else f"{detail}"))
        return ok

    def is_real(self, x):
        """x is written without the imaginary unit (symbols stand for reals)"""
        x = Sym.lift(x)
        return not (any(m & S.ONE_MASK for m in x.n) or any(any(m & S.ONE_MASK for m in S.FACT[k]) for k, _ in x.d))

    # logic over path atoms (used by predicates' contracts)
    def f_zero(self, x):
        return self.path.zero_formula(Sym.lift(x))

    def f_le_tol(self, x):
        return self.path.cmp_formula(SymAbs(Sym.lift(x)), SymTol(self.path.tol), "<=")

    def f_cmp(self, x, op, y):
        return self.path.cmp_formula(SymAbs(Sym.lift(x)), y if not isinstance(y, Sym) else SymAbs(y), op)

    def f_val(self, x, op, k):
        """p-adic valuation of x compared with k"""
        v = self.path.val_term(Sym.lift(x))
        return {"==": v == k, "<": v < k, "<=": v <= k, ">": v > k, ">=": v >= k}[op]

    def f_and(self, *fs):
        import z3
        return z3.And(*fs) if fs else z3.BoolVal(True)

    def f_or(self, *fs):
        import z3
        return z3.Or(*fs) if fs else z3.BoolVal(False)

    def f_not(self, f):
        return _not(f)

    def f_iff(self, value, f):
        import z3
        return f if value else z3.Not(f)


def _not(f):
    import z3
    return z3.Not(f)


# ------------------------------------------------------------------ real fields

PRIME = 2 ** 31 - 1
REAL_FIELDS = {
    "finite field": lambda: Field("finite field", PRIME, 1),
    "padic": lambda: Field("padic", PRIME, 6),
    "mpc": lambda: Field("mpc", 0, 300),
    "rational": lambda: Field("rational", 0, 0),
    "gaussian rational": lambda: Field("gaussian rational", 0, 0),
}


class RealDomain(Domain):
    def __init__(self, fname, seed, hints=None):
        self.fname = fname
        self.field = REAL_FIELDS[fname]()
        self.seed = seed
        self.rng = random.Random(f"{seed}/{fname}")
        self.hints = hints or {}
        self.values = {}
        self.results = []
        self.choice_log = []
        self.patch = _Patch()

    def __enter__(self):
        random.seed(self.rng.randrange(1 << 60))
        if self.hints.get("random.sample"):
            seq = [list(x) for x in self.hints["random.sample"]]
            orig = random.sample

            def sample(population, k, **kw):
                if seq and k == len(seq[0]):
                    return seq.pop(0)
                return orig(population, k, **kw)
            self.patch.set(random, "sample", sample)
        return self

    def __exit__(self, *a):
        self.patch.undo()

    @contextlib.contextmanager
    def setup(self):
        yield

    def _rand(self):
        st = random.getstate()
        random.seed(self.rng.randrange(1 << 60))
        try:
            while True:
                v = self.field.random()
                if v != 0:
                    return v
        finally:
            random.setstate(st)

    def scalar(self, tag):
        tag = str(tag)
        if tag in self.hints.get("values", {}):
            v = self.const(self.hints["values"][tag])
        else:
            v = self._rand()
        self.values[tag] = v
        return v

    def zero(self):
        return self.field(0)

    def const(self, k):
        from fractions import Fraction
        k = Fraction(k)
        return self.field(k.numerator) / self.field(k.denominator) if k.denominator != 1 else self.field(k.numerator)

    def choose(self, label, options):
        options = list(options)
        h = self.hints.get("choices", {}).get(label)
        r = options[self.rng.randrange(len(options))] if h is None else h
        self.choice_log.append((label, repr(r)))
        return r

    def nonzero(self, x):
        pass

    nonsmall = nonzero

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def sqrt(self, x):
        return self.field.sqrt(x)

    def imag(self):
        if self.fname == "gaussian rational":
            from pyadic import GaussianRational
            return GaussianRational(0, 1)
        return self.field.j

    @contextlib.contextmanager
    def stub(self, obj, name, fn):
        old = obj.__dict__.get(name, None)
        had = name in obj.__dict__
        setattr(obj, name, fn)
        try:
            yield
        finally:
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)

    def close(self, x, y):
        if self.fname == "mpc":
            import mpmath
            d = abs(mpmath.mpmathify(x) - mpmath.mpmathify(y))
            scale = max(1, abs(mpmath.mpmathify(x)), abs(mpmath.mpmathify(y)))
            return bool(d <= scale * mpmath.mpf(10) ** (-240))
        d = x - y
        return bool(d == 0)

    def _eq1(self, name, x, y):
        if x is None or y is None:
            ok = x is None and y is None
        else:
            ok = self.close(x, y)
        self.results.append((name, "runtime", ok, "" if ok else f"{x!s:.200} != {y!s:.200}"))
        return ok

    def true(self, name, cond, detail=""):
        self.results.append((name, "runtime", bool(cond), "" if cond else str(detail)[:400]))
        return bool(cond)

    def is_real(self, x):
        return self.close(getattr(x, "imag", 0), 0)

    def f_zero(self, x):
        return self.close(x, 0)

    def f_le_tol(self, x):
        return bool(abs(x) <= self.field.tollerance)

    def f_cmp(self, x, op, y):
        a = abs(x)
        return bool({"<": a < y, "<=": a <= y, ">": a > y, ">=": a >= y, "==": a == y}[op])

    def f_val(self, x, op, k):
        v = abs(x).n
        return bool({"==": v == k, "<": v < k, "<=": v <= k, ">": v > k, ">=": v >= k}[op])

    def f_and(self, *fs):
        return all(fs)

    def f_or(self, *fs):
        return any(fs)

    def f_not(self, f):
        return not f

    def f_iff(self, value, f):
        return bool(value) == bool(f)
