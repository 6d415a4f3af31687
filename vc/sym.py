"""Exact symbolic scalars.

A Sym is an element of  Frac( Z[x_1..x_N][s_1..s_M] / (s_k^2 - e_k) )  written as  num / (c * prod f_i^e_i)
with a fully expanded integer-coefficient numerator and a factored denominator.  x_k are universally
quantified field elements (fresh symbols), s_k are square roots returned by the field's sqrt contract, and the
imaginary unit is the square root of -1.  "== 0" holds for *every* value of the symbols at which no
denominator factor vanishes if the reduced numerator is the zero polynomial: that is the deciding step of
every algebraic obligation.  No floating point, no sampling.
"""
from fractions import Fraction
import numbers

BITS = 10
ONE_MASK = (1 << BITS) - 1

NAMES = []            # index -> name
INDEX = {}            # name -> index
SQ = {}               # index of sqrt symbol -> polynomial e (dict) with s^2 = e
SQ_MASK2 = 0          # mask with bit 1 of every sqrt symbol's exponent
SQ_MEMO = {}          # canonical key of radicand -> Sym
FACT = []             # id -> dict polynomial (denominator factors)
FACT_ID = {}          # frozenset(items) -> id
ROOTDEF = {}          # sqrt symbol index -> (radicand Sym) for evaluation
STATS = {"mul": 0, "terms": 0}
TERM_LIMIT = [4_000_000]


class Unsupported(BaseException):
    """The engine cannot represent what the code did: no verdict (never a violation)."""


class TooBig(Unsupported):
    pass


def reset():
    global SQ_MASK2
    NAMES.clear(), INDEX.clear(), SQ.clear(), SQ_MEMO.clear(), FACT.clear(), FACT_ID.clear(), ROOTDEF.clear()
    SQ_MASK2 = 0
    newvar("I")
    _register_sqrt(0, {0: -1})


def newvar(name):
    if name in INDEX:
        k = 2
        while f"{name}_{k}" in INDEX:
            k += 1
        name = f"{name}_{k}"
    INDEX[name] = len(NAMES)
    NAMES.append(name)
    return INDEX[name]


def _register_sqrt(idx, poly):
    global SQ_MASK2
    SQ[idx] = poly
    SQ_MASK2 |= (2 << (BITS * idx))


# -------------------------------------------------------------- polynomials

def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v += c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pscale(a, c):
    if c == 1:
        return a
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if m1 == 0:
            return pscale(b, c1)
        r = {m1 + m: c1 * c for m, c in b.items()}
    else:
        if len(a) * len(b) > TERM_LIMIT[0]:
            raise TooBig(f"product of {len(a)} x {len(b)} terms")
        STATS["mul"] += 1
        STATS["terms"] += len(a) * len(b)
        r = {}
        get = r.get
        bi = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
    mask = SQ_MASK2
    for m in r:
        if m & mask:
            return _reduce(r)
    return r


def _reduce(r):
    """Replace s^2 by its radicand, highest symbols first, until every exponent of every root is <= 1."""
    while True:
        bad = None
        for m in r:
            mm = m & SQ_MASK2
            if mm:
                idx = (mm.bit_length() - 1) // BITS
                if bad is None or idx > bad:
                    bad = idx
        if bad is None:
            return r
        sh = BITS * bad
        keep, parts = {}, {}
        for m, c in r.items():
            e = (m >> sh) & ONE_MASK
            if e >= 2:
                k = e // 2
                base = m - ((2 * k) << sh)
                parts.setdefault(k, {})
                parts[k][base] = parts[k].get(base, 0) + c
            else:
                keep[m] = keep.get(m, 0) + c
        out = {m: c for m, c in keep.items() if c}
        rad = SQ[bad]
        for k, p in parts.items():
            q = rad
            for _ in range(k - 1):
                q = pmul(q, rad)
            out = padd(out, pmul({m: c for m, c in p.items() if c}, q))
        r = out


def ppow(a, k):
    r = {0: 1}
    while k:
        if k & 1:
            r = pmul(r, a)
        k >>= 1
        if k:
            a = pmul(a, a)
    return r


def pvars(p):
    out = 0
    for m in p:
        out |= m
    return [i for i in range(len(NAMES)) if (out >> (BITS * i)) & ONE_MASK]


def content(p):
    from math import gcd
    g = 0
    for c in p.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def lead(p):
    return max(p)


def pcanon(p):
    """Primitive, sign-normalised: canonical for the zero set up to a rational constant."""
    if not p:
        return p
    g = content(p)
    if p[lead(p)] < 0:
        g = -g
    if g == 1:
        return p
    return {m: c // g for m, c in p.items()}


def pdiv(a, b):
    """Exact division a/b or None (lexicographic, no sqrt reduction: used only to cancel)."""
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    steps = 0
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    while r:
        while heap and -heap[0] not in r:
            heapq.heappop(heap)
        m = -heap[0]
        d = m - lb
        # component-wise divisibility
        if d < 0 or not _divides(lb, m):
            return None
        c = r[m]
        if c % cb:
            return None
        qc = c // cb
        q[d] = qc
        for mb, cbb in b.items():
            t = mb + d
            v = r.get(t)
            if v is None:
                r[t] = -qc * cbb
                heapq.heappush(heap, -t)
            else:
                v -= qc * cbb
                if v:
                    r[t] = v
                else:
                    del r[t]
        steps += 1
        if steps > 20000:
            return None
    return q


def _divides(a, b):
    while a:
        if (a & ONE_MASK) > (b & ONE_MASK):
            return False
        a >>= BITS
        b >>= BITS
    return True


def pstr(p, limit=12):
    if not p:
        return "0"
    out = []
    for k, (m, c) in enumerate(sorted(p.items(), reverse=True)):
        if k >= limit:
            out.append(f"... ({len(p)} terms)")
            break
        t = []
        i = 0
        mm = m
        while mm:
            e = mm & ONE_MASK
            if e == 1:
                t.append(NAMES[i])
            elif e:
                t.append(f"{NAMES[i]}^{e}")
            mm >>= BITS
            i += 1
        if not t:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(t))
        elif c == -1:
            out.append("-" + "*".join(t))
        else:
            out.append(f"{c}*" + "*".join(t))
    return " + ".join(out).replace("+ -", "- ")


def fact_id(p):
    key = frozenset(p.items())
    i = FACT_ID.get(key)
    if i is None:
        i = FACT_ID[key] = len(FACT)
        FACT.append(p)
    return i


# -------------------------------------------------------------- scalars

ctx = None     # the active path context (vc.paths.Path), set by the engine


class Sym:
    __slots__ = ("n", "c", "d", "__weakref__")

    def __init__(self, n, c=1, d=()):
        self.n = n
        self.c = c
        self.d = d          # tuple of (fact id, exponent), sorted

    # ---- construction
    @staticmethod
    def var(name):
        return Sym({1 << (BITS * newvar(name)): 1})

    @staticmethod
    def const(x):
        x = Fraction(x)
        return Sym({0: x.numerator} if x else {}, x.denominator)

    @staticmethod
    def lift(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, bool):
            return Sym.const(int(x))
        if isinstance(x, numbers.Rational) or isinstance(x, Fraction):
            return Sym.const(Fraction(int(x.numerator), int(x.denominator)))
        if isinstance(x, (int,)):
            return Sym.const(x)
        if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "shape", None) == ():
            return Sym.lift(x.item())
        if isinstance(x, float):
            return Sym.const(Fraction(x))
        if isinstance(x, complex):
            r, i = Fraction(x.real), Fraction(x.imag)
            res = Sym.const(r)
            return res + IMAG() * Sym.const(i) if i else res
        tn = type(x).__name__
        if tn in ("mpf", "mpc"):
            return _lift_mp(x)
        if tn == "GaussianRational":
            return Sym.const(x.real) + IMAG() * Sym.const(x.imag)
        if tn in ("Integer", "Rational", "Half", "Zero", "One", "NegativeOne"):   # sympy numbers
            return Sym.const(Fraction(int(x.p), int(x.q)))
        return None

    # ---- arithmetic
    def _dpoly(self, other_d):
        """polynomial by which the numerator must be multiplied to reach the common denominator."""
        raise NotImplementedError

    def __add__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if not self.n:
            return o
        if not o.n:
            return self
        if self.d == o.d:
            if self.c == o.c:
                return Sym(padd(self.n, o.n), self.c, self.d)._tidy()
            from math import lcm
            c = lcm(self.c, o.c)
            return Sym(padd(pscale(self.n, c // self.c), pscale(o.n, c // o.c)), c, self.d)._tidy()
        from math import lcm
        c = lcm(self.c, o.c)
        d1, d2 = dict(self.d), dict(o.d)
        dm = dict(d1)
        for k, e in d2.items():
            if dm.get(k, 0) < e:
                dm[k] = e
        a, b = self.n, o.n
        for k, e in dm.items():
            e1, e2 = e - d1.get(k, 0), e - d2.get(k, 0)
            if e1:
                a = pmul(a, ppow(FACT[k], e1))
            if e2:
                b = pmul(b, ppow(FACT[k], e2))
        r = Sym(padd(pscale(a, c // self.c), pscale(b, c // o.c)), c, tuple(sorted(dm.items())))
        return r._tidy()._cancel()

    __radd__ = __add__

    def _tidy(self):
        if not self.n:
            self.c, self.d = 1, ()
        elif self.c != 1:
            from math import gcd
            g = gcd(content(self.n), self.c)
            if g > 1:
                self.n = {m: v // g for m, v in self.n.items()}
                self.c //= g
        return self

    def _cancel(self):
        """try to cancel denominator factors (purely cosmetic: keeps expressions small)."""
        if not self.d or len(self.n) > 20000:
            return self
        d = dict(self.d)
        changed = False
        for k in list(d):
            f = FACT[k]
            if len(f) > 200:
                continue
            while d.get(k, 0) > 0 and len(self.n) >= 1:
                q = pdiv(self.n, f)
                if q is None:
                    break
                self.n = q
                d[k] -= 1
                changed = True
                if d[k] == 0:
                    del d[k]
        if changed:
            self.d = tuple(sorted(d.items()))
        return self

    def __neg__(self):
        return Sym(pscale(self.n, -1), self.c, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if not self.n or not o.n:
            return ZERO()
        if not self.d and not o.d:
            r = Sym(pmul(self.n, o.n), self.c * o.c, ())
            return r._tidy() if r.c != 1 else r
        d = dict(self.d)
        for k, e in o.d:
            d[k] = d.get(k, 0) + e
        # cancel a whole numerator against a factor
        n1, n2 = self.n, o.n
        for nn in (1, 2):
            p = n1 if nn == 1 else n2
            if 1 < len(p) <= 400:
                pc = pcanon(p)
                k = FACT_ID.get(frozenset(pc.items()))
                if k is not None and d.get(k, 0) > 0:
                    lm = lead(p)
                    q = p[lm] // pc[lm]
                    d[k] -= 1
                    if d[k] == 0:
                        del d[k]
                    if nn == 1:
                        n1 = {0: q}
                    else:
                        n2 = {0: q}
        r = Sym(pmul(n1, n2), self.c * o.c, tuple(sorted(d.items())))
        return r._tidy()._cancel()

    __rmul__ = __mul__

    def inverse(self):
        if not self.n:
            raise ZeroDivisionError("division by symbolic zero")
        if ctx is not None:
            ctx.require_nonzero(self)
        p = self.n
        # rationalise a single-root constant such as I
        if len(p) == 1:
            (m, c), = p.items()
            num = {0: 1}
            for k, e in self.d:
                num = pmul(num, ppow(FACT[k], e))
            num = pscale(num, self.c * (1 if c > 0 else -1))
            dd, mm, i = {}, m, 0
            while mm:
                e = mm & ONE_MASK
                if e:
                    if i in SQ:      # 1/s = s/rad
                        num = pmul(num, {1 << (BITS * i): 1})
                        rad = SQ[i]
                        if rad == {0: -1}:
                            num = pscale(num, -1)
                        else:
                            cr = pcanon(rad)
                            q = rad[lead(rad)] // cr[lead(cr)]
                            if q < 0:
                                num = pscale(num, -1)
                            c = c * abs(q)
                            if cr != {0: 1}:
                                k = fact_id(cr)
                                dd[k] = dd.get(k, 0) + 1
                    else:
                        k = fact_id({1 << (BITS * i): 1})
                        dd[k] = dd.get(k, 0) + e
                mm >>= BITS
                i += 1
            return Sym(num, abs(c), tuple(sorted(dd.items())))._tidy()._cancel()
        pc = pcanon(p)
        q = p[lead(p)] // pc[lead(pc)]
        num = {0: 1}
        for k, e in self.d:
            num = pmul(num, ppow(FACT[k], e))
        num = pscale(num, self.c * (1 if q > 0 else -1))
        return Sym(num, abs(q), ((fact_id(pc), 1),))._tidy()

    def __truediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if not o.d and len(o.n) == 1 and 0 in o.n:
            q = o.n[0]
            r = Sym(pscale(self.n, o.c if q > 0 else -o.c), self.c * abs(q), self.d)
            return r._tidy()
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, k):
        if isinstance(k, Sym) and k.is_const():
            k = k.as_fraction()
        k = Fraction(k)
        if k.denominator != 1:
            if k.denominator == 2 and ctx is not None:
                return ctx.sqrt(self) ** k.numerator
            raise Unsupported(f"power {k}")
        k = int(k)
        if k < 0:
            return (self ** (-k)).inverse()
        r = Sym({0: 1})
        a = self
        while k:
            if k & 1:
                r = r * a
            k >>= 1
            if k:
                a = a * a
        return r

    # ---- predicates
    def iszero(self):
        return not self.n

    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def as_fraction(self):
        return Fraction(self.n.get(0, 0), self.c)

    def __eq__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        return decide_zero(self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __bool__(self):
        return not decide_zero(self)

    def __hash__(self):
        return hash(("Sym", evalp(self)))

    def __abs__(self):
        return SymAbs(self)

    def _order(self, o, op):
        if ctx is None:
            raise Unsupported("ordering of symbolic values")
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        diff = self - o
        if diff.is_const():
            v = diff.as_fraction()
            return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
        return ctx.decide_opaque(("ord", op, key(diff)))

    def __lt__(self, o): return self._order(o, "<")
    def __le__(self, o): return self._order(o, "<=")
    def __gt__(self, o): return self._order(o, ">")
    def __ge__(self, o): return self._order(o, ">=")

    @property
    def real(self):
        return ctx.opaque(("re", key(self)), "re")

    @property
    def imag(self):
        return ctx.opaque(("im", key(self)), "im")

    def conjugate(self):
        raise Unsupported("complex conjugation of a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return f"symref{register(self)}"

    def __repr__(self):
        s = pstr(self.n)
        if self.c == 1 and not self.d:
            return f"<{s}>"
        den = "*".join(([str(self.c)] if self.c != 1 else []) + [f"({pstr(FACT[k])})" + (f"^{e}" if e > 1 else "") for k, e in self.d])
        return f"<({s})/({den})>"

    def __float__(self):
        if self.is_const():
            return float(self.as_fraction())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const() and self.as_fraction().denominator == 1:
            return int(self.as_fraction())
        raise Unsupported("int() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, *a):
        raise Unsupported("round() of a symbolic value")

    def __mod__(self, o):
        raise Unsupported("% of a symbolic value")

    def sqrt(self):
        return ctx.sqrt(self)


_ZERO = None
REG = []


def register(s):
    REG.append(s)
    return len(REG) - 1


def lookup(text):
    text = text.strip()
    neg = False
    if text.startswith("symref"):
        return REG[int(text[6:])]
    raise Unsupported(f"cannot parse {text!r} as a symbolic value")


def ZERO():
    return Sym({})


def IMAG():
    return Sym({1: 1})


def key(s):
    return (frozenset(s.n.items()), s.c, s.d)


def _lift_mp(x):
    """mpmath numbers are exact dyadic numbers; recognise the usual constants' square roots."""
    import mpmath
    if type(x).__name__ == "mpc":
        re, im = _lift_mp(x.real), _lift_mp(x.imag)
        return re + IMAG() * im if im.n else re
    if x == 0:
        return ZERO()
    sq = x * x
    near = mpmath.nint(sq)
    if abs(sq - near) < mpmath.mpf(10) ** (-mpmath.mp.dps + 8) and x != mpmath.nint(x) and abs(near) < 10 ** 6:
        s = ctx.sqrt(Sym.const(int(near)))
        return s if x > 0 else -s
    sign, man, exp, bc = x._mpf_
    f = Fraction(int(man)) * (Fraction(2) ** int(exp))
    return Sym.const(-f if sign else f)


def decide_zero(s):
    if not s.n:
        return True
    if len(s.n) == 1:
        (m, c), = s.n.items()
        if m == 0 or m == 1:          # non-zero constant (or multiple of I)
            return False
    if ctx is None:
        raise Unsupported("branch on symbolic equality outside the path engine")
    return ctx.decide_zero(s)


class SymAbs:
    """|x|: a value of a totally ordered set with minimum 0 = |0| (the contract assumed of abs())."""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def _cmp(self, o, op):
        return ctx.decide_abs(self, o, op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return decide_zero(self.x)
        return self._cmp(o, "==")

    def __ne__(self, o):
        return not self.__eq__(o)

    def __bool__(self):
        return not decide_zero(self.x)

    def __abs__(self):
        return self

    def __hash__(self):
        return hash(("SymAbs", evalp(self.x * self.x)))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"|{self.x!r}|"

    def __str__(self):
        return "symabs"

    @property
    def n(self):
        """valuation of a p-adic absolute value: an arbitrary integer attached to x"""
        return SymVal(ctx.val_term(self.x))


class SymVal:
    """an integer-valued unknown (p-adic valuation)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def _t(o):
        if isinstance(o, SymVal):
            return o.t
        if isinstance(o, int):
            return o
        raise Unsupported(f"valuation combined with {type(o).__name__}")

    def __add__(self, o): return SymVal(self.t + self._t(o))
    __radd__ = __add__
    def __sub__(self, o): return SymVal(self.t - self._t(o))
    def __rsub__(self, o): return SymVal(self._t(o) - self.t)
    def __neg__(self): return SymVal(-self.t)
    def __pos__(self): return self
    def __eq__(self, o): return ctx.decide(self.t == self._t(o), ("valuation ==",))
    def __ne__(self, o): return not self.__eq__(o)
    def __lt__(self, o): return ctx.decide(self.t < self._t(o), ("valuation <",))
    def __le__(self, o): return ctx.decide(self.t <= self._t(o), ("valuation <=",))
    def __gt__(self, o): return ctx.decide(self.t > self._t(o), ("valuation >",))
    def __ge__(self, o): return ctx.decide(self.t >= self._t(o), ("valuation >=",))
    def __bool__(self): return ctx.decide(self.t != 0, ("valuation != 0",))
    def __abs__(self):
        return self if self >= 0 else -self
    def __hash__(self): return 0
    def __repr__(self): return f"val({self.t})"


# -------------------------------------------------------------- evaluation mod a prime (hashing, refutation)

P = (1 << 61) - 1


def _rand_for(i):
    x = (i + 1) * 0x9E3779B97F4A7C15 & ((1 << 64) - 1)
    x ^= x >> 31
    x = x * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
    x ^= x >> 29
    return x % P


class F2:
    """tower-free evaluation: roots are evaluated as independent random points; only used for hashing values whose
    canonical forms agree, i.e. equal Syms hash equal because evalp is applied to reduced numerators cross-multiplied."""


_POINT = {}


def evalp_poly(p, point=None):
    tot = 0
    cache = {}
    for m, c in p.items():
        t = c % P
        mm, i = m, 0
        while mm:
            e = mm & ONE_MASK
            if e:
                kk = (i, e)
                v = cache.get(kk)
                if v is None:
                    base = (point or {}).get(i)
                    if base is None:
                        base = _POINT.get(i)
                        if base is None:
                            base = _POINT[i] = _rand_for(i)
                    v = cache[kk] = pow(base, e, P)
                t = t * v % P
            mm >>= BITS
            i += 1
        tot += t
    return tot % P


def evalp(s, point=None):
    num = evalp_poly(s.n, point)
    den = s.c % P
    for k, e in s.d:
        den = den * pow(evalp_poly(FACT[k], point), e, P) % P
    if den == 0:
        return 0
    return num * pow(den, -1, P) % P


reset()
