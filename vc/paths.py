"""Path exploration: the real function is executed by CPython on symbolic scalars; every branch on a symbolic
condition is forked (decision replay), so that the union of the paths covers every input.  Path conditions live in
z3 (atoms: "polynomial = 0", order facts about |x|, opaque atoms); algebraic facts live in vc.sym."""
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3                                                          # noqa: E402
from . import sym as S                                             # noqa: E402
from .sym import Sym, SymAbs, Unsupported, BITS, ONE_MASK          # noqa: E402


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    """assume() contradicted the path: drop the path."""


class SymTol:
    """the field's tolerance: an arbitrary non-negative real."""

    def __init__(self, term):
        self.term = term

    def __ge__(self, o): return o <= self
    def __gt__(self, o): return o < self
    def __le__(self, o): return o >= self
    def __lt__(self, o): return o > self


class Path:
    def __init__(self, prefix, max_decisions=400):
        self.prefix = list(prefix)
        self.trace = []            # list of (choice, number of alternatives)
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.atoms = {}            # canonical poly key -> z3 Bool
        self.atom_polys = []
        self.absvars = {}
        self.valvars = {}
        self.n_abs = 0
        self.opaques = {}
        self.opaque_bools = {}
        self.subst = []            # list of (var index, Sym) eliminated on this path
        self.eqs = []              # nonlinear polynomial hypotheses (dict polys) known to vanish on this path
        self.tol = z3.Real("tol")
        self.solver.add(self.tol >= 0)
        self.generic_setup = 0
        self.max_decisions = max_decisions
        self.z3_time = 0.0
        self.z3_calls = 0
        self.results = []          # obligations
        self.div_raises = False
        self.log = []

    # ------------------------------------------------------------ logic
    def _sat(self, f):
        t = time.time()
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.z3_time += time.time() - t
        self.z3_calls += 1
        return r != z3.unsat

    def decide(self, f, descr=None):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        can_t = self._sat(f)
        can_f = self._sat(z3.Not(f))
        if can_t and not can_f:
            return True
        if can_f and not can_t:
            return False
        if not can_t and not can_f:
            raise Infeasible()
        k = self._branch(2)
        b = (k == 0)
        self.solver.add(f if b else z3.Not(f))
        self.log.append((descr, b))
        return b

    def _branch(self, n):
        i = len(self.trace)
        if i >= self.max_decisions:
            raise PathLimit("too many branches on one path")
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

    def choose(self, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._branch(len(options))]

    def assume(self, f):
        self.solver.add(f)
        if self.solver.check() == z3.unsat:
            raise Infeasible()

    # ------------------------------------------------------------ polynomial atoms
    def apply_subst(self, p):
        """numerator polynomial -> polynomial after the path's eliminations (up to a non-zero factor)."""
        for idx, val in self.subst:
            sh = BITS * idx
            if not any((m >> sh) & ONE_MASK for m in p):
                continue
            acc = S.ZERO()
            byexp = {}
            for m, c in p.items():
                e = (m >> sh) & ONE_MASK
                byexp.setdefault(e, {})[m - (e << sh)] = c
            old, S.ctx = S.ctx, None
            try:
                for e, q in byexp.items():
                    acc = acc + Sym(q) * (val ** e)
            finally:
                S.ctx = old
            p = acc.n
        return p

    def zero_formula(self, s):
        p = self.apply_subst(s.n) if self.subst else s.n
        if not p:
            return z3.BoolVal(True)
        # monomial content
        it = iter(p)
        common = None
        for m in it:
            if common is None:
                common = m
            else:
                common = _mon_gcd(common, m)
            if common == 0:
                break
        parts = []
        if common:
            mm, i = common, 0
            while mm:
                if mm & ONE_MASK:
                    parts.append(self._atom({1 << (BITS * i): 1}) if i not in S.SQ else self._root_zero(i))
                mm >>= BITS
                i += 1
            p = {m - common: c for m, c in p.items()}
        if not (len(p) == 1 and 0 in p):
            parts.append(self._atom(S.pcanon(p)))
        if not parts:
            return z3.BoolVal(False)
        return z3.Or(*parts) if len(parts) > 1 else parts[0]

    def _root_zero(self, i):
        rad = S.SQ[i]
        return self.zero_formula(Sym(rad))

    def _atom(self, p):
        if len(p) == 1 and (0 in p or 1 in p):
            return z3.BoolVal(False)
        k = frozenset(p.items())
        a = self.atoms.get(k)
        if a is None:
            a = self.atoms[k] = z3.Bool(f"z{len(self.atoms)}")
            self.atom_polys.append(p)
            if len(p) == 2 and 0 in p:
                # v - c == 0 excludes other values of v (linear univariate atoms)
                self._univariate_axioms(p, a)
            if len(p) == 1:
                self._univariate_axioms(p, a)
        return a

    def _univariate_axioms(self, p, a):
        ms = [m for m in p if m != 0]
        if len(ms) != 1:
            return
        m = ms[0]
        for q, b in [(q, self.atoms[frozenset(q.items())]) for q in self.atom_polys[:-1]]:
            qs = [x for x in q if x != 0]
            if len(qs) == 1 and qs[0] == m and (q.get(0, 0) * p[m] != p.get(0, 0) * q[m]):
                self.solver.add(z3.Not(z3.And(a, b)))

    def decide_zero(self, s):
        f = self.zero_formula(s)
        if self.generic_setup:
            if z3.is_true(z3.simplify(f)):
                return True
            if self._sat(z3.Not(f)):
                self.solver.add(z3.Not(f))
                return False
            return True
        b = self.decide(f, ("zero?", repr(s)[:160]))
        if b:
            self._learn_zero(s)
        return b

    def _learn_zero(self, s):
        p = self.apply_subst(s.n) if self.subst else s.n
        if not p:
            return
        # a linear variable with constant coefficient?
        allm = list(p.items())
        for m, c in allm:
            if m and (m & (m - 1)) == 0 and (m.bit_length() - 1) % BITS == 0:
                idx = (m.bit_length() - 1) // BITS
                if idx in S.SQ:
                    continue
                sh = BITS * idx
                if any((mm >> sh) & ONE_MASK for mm, _ in allm if mm != m):
                    continue
                # v = -(rest)/c ; v must not occur inside a radicand
                if any(any((mm >> sh) & ONE_MASK for mm in rad) for rad in S.SQ.values()):
                    continue
                rest = {mm: -cc for mm, cc in allm if mm != m}
                val = Sym(rest) / Sym.const(c) if rest else S.ZERO()
                self.subst.append((idx, val))
                self._relink(idx)
                return
        self.eqs.append(p)

    def _relink(self, idx):
        """facts recorded before the elimination of a variable, restated in the remaining variables"""
        sh = BITS * idx
        new = False
        for q in list(self.atom_polys):
            if any((m >> sh) & ONE_MASK for m in q):
                a = self.atoms[frozenset(q.items())]
                self.solver.add(a == self.zero_formula(Sym(dict(q))))
                new = True
        if new and self.solver.check() == z3.unsat:
            raise Infeasible()

    def assume_nonzero(self, s):
        if s.iszero():
            raise Infeasible()
        self.solver.add(z3.Not(self.zero_formula(s)))

    def require_nonzero(self, s):
        """called before dividing by s: the real field raises ZeroDivisionError when s == 0."""
        f = z3.simplify(self.zero_formula(s))
        if z3.is_false(f):
            return
        if self.div_raises and not self.generic_setup:
            if self.decide(f, ("divisor zero?", repr(s)[:160])):
                self._learn_zero(s)
                raise ZeroDivisionError("symbolic division by zero")
            return
        if not self._sat(z3.Not(f)):
            raise ZeroDivisionError("symbolic division by zero")
        self.solver.add(z3.Not(f))

    # ------------------------------------------------------------ |x|
    def abs_term(self, a):
        if isinstance(a, SymTol):
            return a.term
        if isinstance(a, SymAbs):
            x = a.x
            if self.subst and x.n:
                p = self.apply_subst(x.n)
                if not p:
                    x = S.ZERO()
            if x.is_const():
                v = x.as_fraction()
                return z3.RealVal(str(abs(v)))
            h = S.evalp(x)
            bucket = self.absvars.setdefault(min(h, S.P - h), [])
            v = None
            for y, w in bucket:
                if y is x or (x - y).iszero() or (x + y).iszero():
                    v = w
                    break
            if v is None:
                self.n_abs += 1
                v = z3.Real(f"abs{self.n_abs}")
                bucket.append((x, v))
                self.solver.add(v >= 0)
                self.solver.add((v == 0) == self.zero_formula(x))
            return v
        if isinstance(a, Sym):
            if a.is_const():
                return z3.RealVal(str(a.as_fraction()))
            raise Unsupported("comparison of |x| with a symbolic value")
        tn = type(a).__name__
        if tn == "PAdic":
            # |0 + O(p^n)| : used as a threshold; an arbitrary non-negative value
            return self.opaque_real(("padic", str(a)))
        try:
            if isinstance(a, int):
                return z3.RealVal(a)
            from fractions import Fraction
            if tn in ("mpf",):
                return z3.RealVal(str(S._lift_mp(a).as_fraction()))
            return z3.RealVal(str(Fraction(a)))
        except Exception:
            raise Unsupported(f"comparison of |x| with {tn}")

    def val_term(self, x):
        """the valuation of x: an arbitrary integer, a function of x up to sign"""
        if self.subst and x.n:
            p = self.apply_subst(x.n)
            if not p:
                x = S.ZERO()
        h = S.evalp(x)
        bucket = self.valvars.setdefault(min(h, S.P - h), [])
        for y, w in bucket:
            if y is x or (x - y).iszero() or (x + y).iszero():
                return w
        self.n_abs += 1
        v = z3.Int(f"val{self.n_abs}")
        bucket.append((x, v))
        return v

    def opaque_real(self, k):
        v = self.opaques.get(k)
        if v is None:
            v = self.opaques[k] = z3.Real(f"thr{len(self.opaques)}")
            self.solver.add(v >= 0)
        return v

    def cmp_formula(self, a, o, op):
        x, y = self.abs_term(a), self.abs_term(o)
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y}[op]

    def decide_abs(self, a, o, op):
        f = self.cmp_formula(a, o, op)
        if self.generic_setup and isinstance(o, SymTol):
            # generic pre-states: every value that is not identically zero is above the tolerance
            big = z3.And(self.abs_term(a) > self.tol)
            if self._sat(big):
                self.solver.add(big)
        return self.decide(f, ("abs", op, repr(a)[:120]))

    def decide_opaque(self, k):
        v = self.opaque_bools.get(k)
        if v is None:
            v = self.opaque_bools[k] = z3.Bool(f"o{len(self.opaque_bools)}")
        if self.generic_setup:
            if self._sat(z3.Not(v)):
                self.solver.add(z3.Not(v))
                return False
            return True
        return self.decide(v, ("opaque", str(k)[:80]))

    def opaque(self, k, name):
        v = self.opaques.get(k)
        if v is None:
            v = self.opaques[k] = Sym.var(f"{name}{len(self.opaques)}")
        return v

    # ------------------------------------------------------------ square roots
    def sqrt(self, x):
        x = Sym.lift(x)
        if x.iszero():
            return S.ZERO()
        if x.is_const():
            from math import isqrt
            f = x.as_fraction()
            if f > 0:
                a, b = isqrt(f.numerator), isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return Sym.const(f.__class__(a, b))
            elif f < 0:
                return S.IMAG() * self.sqrt(-x)
        # x = N / (c * prod f^e);  sqrt(x) = s / (c * prod f^ceil(e/2)) with s^2 = N * c * prod f^(odd part)
        rad, den = x.n, {}
        for k, e in x.d:
            if e % 2:
                rad = S.pmul(rad, S.FACT[k])
            den[k] = (e + 1) // 2
        rad = S.pscale(rad, x.c)
        kk = frozenset(rad.items())
        s = S.SQ_MEMO.get(kk)
        if s is None:
            idx = S.newvar(f"rt{len(S.SQ)}")
            S._register_sqrt(idx, rad)
            s = S.SQ_MEMO[kk] = {1 << (BITS * idx): 1}
        return Sym(dict(s), x.c, tuple(sorted(den.items())))._tidy()


def _mon_gcd(a, b):
    out, sh = 0, 0
    while a and b:
        e = min(a & ONE_MASK, b & ONE_MASK)
        out |= e << sh
        a >>= BITS
        b >>= BITS
        sh += BITS
    return out


def explore(fn, max_paths=600, deadline=None, on_path=None):
    """Run fn(path) over all feasible decision sequences.  Returns the list of finished paths."""
    work = [[]]
    done = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > max_paths:
            raise PathLimit(f"more than {max_paths} paths")
        if deadline and time.time() > deadline:
            raise PathLimit("time budget of the case exhausted")
        S.reset()
        path = Path(prefix)
        S.ctx = path
        try:
            fn(path)
            done.append(path)
        except Infeasible:
            pass
        finally:
            S.ctx = None
        for i in range(len(prefix), len(path.trace)):
            c, k = path.trace[i]
            for alt in range(c + 1, k):
                work.append([t[0] for t in path.trace[:i]] + [alt])
        if on_path:
            on_path(path)
    return done
