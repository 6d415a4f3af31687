"""P25 exported kinematics read back as the same point."""
import os
import re
import tempfile
import mpmath
from syngular import Field
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["Mathematica's reading of a number is modelled by the parser below: signed decimal mantissa, optional *^exponent, imaginary part marked I, +- read as minus",
               "dependency contract: the repr of an mpf is mpf('<decimal number>') with enough digits to recover the value (mpmath)",
               "closed cases: numbers are opaque digit strings of each enumerated shape (sign x exponent form), the text functions are parametric in the digits; the value-level round trip is run on random and extreme points",
               "the double-precision export (as_spinors=True) is checked at run time to double precision",
               "legs are light-like (massive legs have no spinors to export)"]
NUM = r"[+-]?(?:\d+\.?\d*|\.\d+|[\ue000-\uf8ff.]+0?)(?:\*\^[+-]?(?:\d+|[\ue000-\uf8ff]+))?"


class TokR(mpmath.mpf):
    """a real number whose printed digits are opaque"""

    def __repr__(self):
        return f"mpf('{self.text}')"


def tok_real(value, text):
    r = TokR(value)
    r.text = text
    return r


class TokC(mpmath.mpc):
    @property
    def real(self):
        return self.re_

    @property
    def imag(self):
        return self.im_


SHAPES = [("", ""), ("-", ""), ("", "e-1"), ("-", "e-1"), ("", "e+1"), ("-", "e+1")]
LENGTHS = (1, 2, 3, 17, 301)


class Tokens:
    def __init__(self):
        self.k, self.table = 0, {}

    def number(self, shape, length):
        sign, exp = shape
        self.k += 1
        body = "".join(chr(0xe000 + self.k) for _ in range(length))
        body = body[:1] + "." + body[1:] if length > 1 else body + ".0"
        text = sign + body + (exp and exp[:2] + chr(0xf000 + self.k))
        v = mpmath.mpf(self.k) / 7 * (-1 if sign else 1)
        self.table[text.replace("e", "*^").replace("^+", "^")] = v
        return tok_real(v, text)

    def complex(self, s1, s2, length):
        a, b = self.number(s1, length), self.number(s2, length)
        z = TokC(mpmath.mpf(a), mpmath.mpf(b))
        z.re_, z.im_ = a, b
        return z

    def value(self, text):
        t = text.strip().replace("^+", "^").lstrip("+")
        if t.startswith("--"):
            t = t[2:]
        if t in self.table:
            return self.table[t]
        if t.startswith("-") and t[1:] in self.table:
            return -self.table[t[1:]]
        return mpmath.mpf(t.replace("*^", "e"))


def read(text, tok):
    """the complex number Mathematica reads"""
    t = text.replace(" ", "")
    while re.fullmatch(r"\(.*\)", t):
        t = t[1:-1]
    t = t.replace("+-", "-").replace("*I", "I")
    m = re.fullmatch(rf"(?:(?P<re>{NUM})(?=[+-]|$))?(?:(?P<im>{NUM})I)?", t)
    if not m or not t:
        return None
    z = lambda x: tok.value(x) if x else mpmath.mpf(0)
    return mpmath.mpc(z(m["re"]), z(m["im"]))


def same(D, nm, got, want, tol):
    D.true(nm, got is not None and abs(got - want) <= tol * max(abs(want), mpmath.mpf(10) ** -320), (str(got)[:60], str(want)[:60]))


def spinor_lines(text):
    """[(kind, leg, component, number)] in the order of the text"""
    out = []
    for line in text.split(";"):
        line = line.strip()
        if not line:
            continue
        m = re.fullmatch(r"Subscript\[(?P<what>\\\[Lambda\]|\\!\\\(\\\*OverscriptBox\[\\\(\\\[Lambda\]\\\), \\\(_\\\)\]\\\)), ?(?P<leg>\d+), ?(?P<c>[12])\] ?= ?(?P<v>.*)", line, re.S)
        out.append((("r" if m["what"] == r"\[Lambda]" else "l"), int(m["leg"]), int(m["c"]), m["v"]) if m else (None, None, None, line))
    return out


def spins(o, i):
    return {("r", 1): o[i].r_sp_d[0, 0], ("r", 2): o[i].r_sp_d[1, 0], ("l", 1): o[i].l_sp_d[0, 0], ("l", 2): o[i].l_sp_d[0, 1]}


def judge_spinors(D, text, o, tok, tol, kinds="rl"):
    rows = spinor_lines(text)
    n = len(o)
    D.true("every component of every leg once, in order", [r[:3] for r in rows] == [(k, i, c) for k in kinds for i in range(1, n + 1) for c in (1, 2)], [r[:3] for r in rows][:6])
    for k, i, c, v in rows:
        if k is not None and 1 <= i <= n:
            same(D, f"leg {i}, {'angle' if k == 'r' else 'square'} component {c} reads back", read(v, tok), spins(o, i)[(k, c)], tol)


def judge_momenta(D, text, o, tok, tol):
    rows = [x for x in text.split("\n") if x.strip()]
    D.true("one declaration per leg", len(rows) == len(o), len(rows))
    for i, line in enumerate(rows, start=1):
        m = re.fullmatch(r"DeclareSpinorMomentum\[(\d+), ?\{(.*)\}\]", line.strip())
        D.true(f"leg {i}: declaration", m is not None and int(m[1]) == i, line[:80])
        parts = re.findall(r"SetPrecision\[([^,\]]*), ?(\d+)\]", m[2]) if m else []
        D.true(f"leg {i}: four components at the working precision", m is not None and len(parts) == 4 and re.sub(r"SetPrecision\[[^,\]]*, ?\d+\]", "", m[2]).replace(" ", "") == ",,,"
               and all(int(x[1]) == mpmath.mp.dps for x in parts), line[:80])
        for mu, (v, _) in enumerate(parts):
            same(D, f"leg {i}: momentum component {mu} reads back", read(v, tok), o[i].four_mom[mu], tol)


def judge_declared_spinors(D, text, o, tok, tol):
    rows = [x for x in text.split("\n") if x.strip()]
    D.true("one declaration per leg", len(rows) == len(o), len(rows))
    for i, line in enumerate(rows, start=1):
        m = re.fullmatch(r"DeclareSpinorMomentum\[Sp\[(\d+)\], ?\{\{(.*?)\}, ?\{(.*?)\}\}, ?\{\{(.*?), ?(.*?)\}\}\]", line.strip())
        D.true(f"leg {i}: declaration", m is not None and int(m[1]) == i, line[:80])
        if m:
            for key, v in zip((("r", 1), ("r", 2), ("l", 1), ("l", 2)), m.groups()[1:]):
                same(D, f"leg {i}: {key} reads back", read(v, tok), spins(o, i)[key], tol)


class scratch:
    """an empty working directory, removed afterwards"""

    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.TemporaryDirectory()
        os.chdir(self.dir.name)
        return self.dir.name

    def __exit__(self, *a):
        os.chdir(self.old)
        self.dir.cleanup()


def save(D, o, invariant, tok, tol):
    with scratch() as d:
        r = o.save_phase_space_point(invariant) if invariant else o.save_phase_space_point()
        D.true("saving returns nothing", r is None)
        D.true("only the cache folder is written", os.listdir(d) == ["phase_space_cache"], os.listdir(d))
        files = os.listdir(os.path.join(d, "phase_space_cache"))
        want = (invariant or "NoLimit").translate(str.maketrans("⟨⟩[]|", "AASSV")) + "1.m"
        D.true("file named after the invariant", files == [want], files)
        first = os.path.join(d, "phase_space_cache", files[0])
        text = open(first).read()
        judge_spinors(D, text, o, tok, tol)
        o.save_phase_space_point(*([invariant] if invariant else []))
        D.true("saving again keeps the first file and adds a second", open(first).read() == text and len(os.listdir(os.path.join(d, "phase_space_cache"))) == 2)
        for f in os.listdir(os.path.join(d, "phase_space_cache")):
            judge_spinors(D, open(os.path.join(d, "phase_space_cache", f)).read(), o, tok, tol)
        o.save_phase_space_point("other")
        D.true("another name, another file", open(first).read() == text and "other1.m" in os.listdir(os.path.join(d, "phase_space_cache")))


def opaque(D, n, what, length, rot):
    """closed: digits opaque, every combination of shapes of real and imaginary part"""
    tok = Tokens()
    pairs = [(a, b) for a in SHAPES for b in SHAPES]
    pairs = pairs[rot:] + pairs[:rot]
    o = Particles(n, field=Field("mpc", 0, 300), fix_mom_cons=False, seed=1)
    it = iter(pairs * 10)
    for p in list.__iter__(o):
        if what == "momenta":
            v = numpy.array([tok.complex(*next(it), length) for _ in range(4)], dtype=object)
            p.four_mom = v
        else:
            p.r_sp_d = numpy.array([[tok.complex(*next(it), length)], [tok.complex(*next(it), length)]], dtype=object)
            p.l_sp_d = numpy.array([[tok.complex(*next(it), length), tok.complex(*next(it), length)]], dtype=object)
    tol = mpmath.mpf(10) ** -290
    if what == "momenta":
        judge_momenta(D, o.four_momenta_for_mathematica(), o, tok, tol)
    else:
        save(D, o, "⟨1|2⟩", tok, tol)


def values(D, n, size, phase):
    """real numbers of every size and phase"""
    tok = Tokens()
    o = D.point(n)
    s = mpmath.mpf(10) ** size
    f = {"generic": mpmath.mpc(3, -4) / 5, "real": mpmath.mpc(1, 0), "imaginary": mpmath.mpc(0, -1), "negative": mpmath.mpc(-1, 0), "exact": mpmath.mpc(2, -3)}[phase]
    for k, p in enumerate(list.__iter__(o)):
        g = (s if k % 2 else 1 / s) * f
        if phase == "exact":
            p.r_sp_d = numpy.array([[mpmath.mpc(k, 1)], [mpmath.mpc(-7, 0)]], dtype=object) * s
            p.l_sp_d = numpy.array([[mpmath.mpc(0, 0), mpmath.mpc(0, -k)]], dtype=object) * s
        elif phase == "generic":
            p.r_sp_d, p.l_sp_d = p.r_sp_d * g, p.l_sp_d / s
        else:
            p.r_sp_d = numpy.vectorize(lambda x: mpmath.mpc(abs(x)) * g, otypes=[object])(p.r_sp_d)
            p.l_sp_d = numpy.vectorize(lambda x: mpmath.mpc(abs(x)) * f, otypes=[object])(p.l_sp_d)
    tol = mpmath.mpf(10) ** -295
    before = [snapshot(p) for p in list.__iter__(o)]
    judge_momenta(D, o.four_momenta_for_mathematica(), o, tok, tol)
    judge_declared_spinors(D, o.four_momenta_for_mathematica(as_spinors=True), o, tok, mpmath.mpf(10) ** -14)
    save(D, o, ("", "[3|4]", "⟨1|(2+3)|1]", "s_123")[n % 4], tok, tol)
    for k, (p, b) in enumerate(zip(list.__iter__(o), before)):
        unchanged(D, f"leg {k + 1}", p, b)


def cases(tier):
    out = []
    q = tier == "quick"
    T = ("Particles.four_momenta_for_mathematica", "Particles._r_sp_d_for_mathematica", "Particles._l_sp_d_for_mathematica", "Particles.save_phase_space_point")
    for what in ("spinors", "momenta"):
        for n in (1, 2, 5, 9, 10) if q else range(1, 13):
            for length in LENGTHS:
                out.append(Case(f"opaque {what} n={n} length={length}", "opaque", dict(n=n, what=what, length=length, rot=(7 * n + length) % 36), real=("mpc",), closed=True, target=T))
    for n in (3, 4, 5, 6, 11):
        for size in (0, 1, -3, 20, 150):
            for phase in ("generic", "real", "imaginary", "negative", "exact"):
                out.append(Case(f"values n={n} size={size} {phase}", "values", dict(n=n, size=size, phase=phase), real=("mpc",), seeds=1, deductive=False, target=T))
    return out
