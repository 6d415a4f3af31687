"""P20 relabelling an ideal matches relabelling the point."""
import itertools
import random
import re
from .common import *                                              # noqa
from syngular import Ideal, Ring
from lips.algebraic_geometry.covariant_ideal import LipsIdeal
from lips.algebraic_geometry.invariant_ideal import SpinorIdeal
from lips.algebraic_geometry.tools import conversionIdeal, lips_covariant_symbols, lips_invariant_symbols

LEVEL = "proof"
ASSUMPTIONS = ["generators are enumerated polynomials (every single variable, products, powers, random ones by seed); kinematics universally quantified",
               "Singular (elimination, membership, validity of ideals) and syngular's Ideal are trusted",
               "ideals in Lorentz invariants: generators homogeneous in mass dimension (all ideals lips builds are), conjugation maps them up to an overall sign",
               "one-digit labels (multiplicity at most nine): permutations are written as digit strings"]


class no_singular:
    """the validity test of syngular's Ideal starts an external process: not needed for the string transformation"""

    def __enter__(self):
        self.old = Ideal.test_valid_ideal
        Ideal.test_valid_ideal = lambda s: None

    def __exit__(self, *a):
        Ideal.test_valid_ideal = self.old


def evaluate(poly, values, D):
    """value of a polynomial string in Singular syntax"""
    t = re.sub(r"\^", "**", str(poly))
    t = re.sub(r"(?<![A-Za-z0-9_])(\d+)(?![\d]*[A-Za-z_])", r"K(\1)", t)
    t = re.sub(r"\*\*\s*K\((\d+)\)", r"**\1", t)
    return eval(t, {"K": D.const, **values})


def components(o):
    v = {}
    for i in range(1, len(o) + 1):
        r, l = o[i].r_sp_d, o[i].l_sp_d
        v.update({f"a{i}": r[0, 0], f"b{i}": r[1, 0], f"c{i}": l[0, 0], f"d{i}": l[0, 1]})
    return v


def invariants(o):
    s, v = sp.Snap(o), {}
    for k, (i, j) in enumerate(itertools.combinations(range(1, len(o) + 1), 2), start=1):
        v[f"A{k}"], v[f"B{k}"] = sp.ang(s, i, j), sp.sqr(s, i, j)
    return v


def cov_polys(n, seed):
    rng = random.Random(seed * 31 + n)
    out = [f"{x}{i}" for i in range(1, n + 1) for x in "abcd"]
    var = list(out)
    out += ["a1*b2-b1*a2", f"c1*d{n}-d1*c{n}", "a1^2*b2^3-17*c1*d2^2+3*a2", f"-a{n}*c{n}-12*b1^2+4", "(a1+b2)*(c1-d2)-a1*(b1-2*c2)^2", "12*a1*a2+21*b1*b2-2*d2*d1", f"a{n}^10-1", "3"]
    for _ in range(6):
        terms = []
        for _ in range(rng.randrange(1, 5)):
            terms.append("*".join([str(rng.randrange(1, 99))] + [f"{rng.choice(var)}^{rng.randrange(1, 4)}" for _ in range(rng.randrange(1, 5))]))
        out.append(rng.choice(("+", "-")).join(terms))
    return out


def inv_polys(n, seed):
    m = n * (n - 1) // 2
    rng = random.Random(seed * 37 + n)
    var = [f"{x}{i}" for x in "AB" for i in range(1, m + 1)]
    out = list(var)
    out += [f"A1*B1-A{m}*B{m}", "A1*A2-B1*B2", "A1^2*B1-3*B2^3", f"-A{m}*B1+2*A2*B{m}-12*A1*A2", "(A1+2*B2)*(B1-A2)", f"A{m}^3-21*A1*B2*A{m}"]
    for _ in range(6):
        deg = rng.randrange(1, 5)
        out.append(rng.choice(("+", "-")).join("*".join([str(rng.randrange(1, 99))] + [rng.choice(var) for _ in range(deg)]) for _ in range(rng.randrange(1, 4))))
    return out


def covariant(D, n, rules, seed=1):
    P = D.point(n)
    polys = cov_polys(n, seed)
    vals = components(P)
    before = [evaluate(p, vals, D) for p in polys]
    for rule in rules:
        with no_singular():
            I = LipsIdeal(n, list(polys))
            J = I.image(rule)
            K = I(*rule)
        D.true(f"{rule}: original ideal untouched", list(I.generators) == polys)
        D.true(f"{rule}: call is image", list(map(str, K.generators)) == list(map(str, J.generators)))
        D.true(f"{rule}: one generator each", len(J.generators) == len(polys) and isinstance(J, LipsIdeal) and J.multiplicity == n)
        D.true(f"{rule}: same variables", str(J.ring.variables) == str(I.ring.variables))
        Q = components(P.image(rule))
        for p, g, b in zip(polys, J.generators, before):
            D.eq(f"{rule}: {p} on the point = {g} on the image", evaluate(g, Q, D), b)


def invariant(D, n, rules, seed=1):
    P = D.point(n)
    polys = inv_polys(n, seed)
    vals = invariants(P)
    before = [evaluate(p, vals, D) for p in polys]
    for rule in rules:
        with no_singular():
            I = SpinorIdeal(n, list(polys))
            J = I.image(rule)
            K = I(*rule)
        D.true(f"{rule}: original ideal untouched", list(I.generators) == polys)
        D.true(f"{rule}: call is image", list(map(str, K.generators)) == list(map(str, J.generators)))
        D.true(f"{rule}: one generator each", len(J.generators) == len(polys) and isinstance(J, SpinorIdeal) and J.multiplicity == n)
        Q = invariants(P.image(rule))
        for p, g, b in zip(polys, J.generators, before):
            deg = 1 if re.fullmatch(r"[AB]\d+", p) else len(re.findall(r"[AB]", re.split(r"(?<=[\d)])[+-]", p)[0])) if "(" not in p else 2
            if "^" in p:
                deg = 3
            sign = -1 if rule[1] and deg % 2 else 1
            v = evaluate(g, Q, D)
            D.eq(f"{rule}: {p} on the point = {g} on the image (up to the sign of conjugation)", v if sign > 0 else -v, b)


def construct(D, n, covs, mc):
    """generators of an ideal built from covariant expressions"""
    with D.pristine():
        I = LipsIdeal(n, tuple(covs)) if mc is None else LipsIdeal(n, tuple(covs), mc)
    P = D.point(n)
    s, vals = sp.Snap(P), components(P)
    want = []
    for c in covs:
        want += covariant_value(s, c)
    names = [f"component {k}" for k in range(len(want))]
    if mc in (None, True):
        want += sp.flat(sp.comb(s.up, "+".join(map(str, range(1, n + 1)))))
        names += [f"momentum conservation {k}" for k in range(4)]
    gens = list(I.generators)
    if not want:
        D.true("no generator", gens in ([], ["0"]), gens)
        return
    D.true("one generator per component, and momentum conservation as requested", len(gens) == len(want), gens)
    D.true("variables", tuple(map(str, I.ring.variables)) == tuple(f"{x}{i}" for i in range(1, n + 1) for x in "abcd"), I.ring.variables)
    D.true("multiplicity", I.multiplicity == n)
    for g, w, nm in zip(gens, want, names):
        v = evaluate(g, vals, D)
        # equal up to a non-zero rational constant, fixed once by a random point
        D.true(f"{nm}: {g} proportional to the definition", proportional(D, v, w), (str(v)[:80], str(w)[:80]))


def proportional(D, v, w):
    for c in (1, 4, 2, -1, -4, -2, 8, 16):
        d = v - c * w
        if D.symbolic:
            from vc.sym import Sym
            if Sym.lift(d).iszero():
                return True
        elif d == 0:
            return True
    return False


def covariant_value(s, c):
    if re.fullmatch(r"⟨\d\||\|\d⟩|\[\d\||\|\d\]", c):
        i = int(re.findall(r"\d", c)[0])
        M = {"⟨": lambda: sp.r_up(s.r[i]), "[": lambda: s.l[i]}.get(c[0], lambda: s.r[i] if c[-1] == "⟩" else sp.l_up(s.l[i]))()
        return sp.flat(M)
    m = re.fullmatch(r"\|(.*)\|(\d)([⟩\]])", c)
    if m:
        mids = m.group(1).split("|")
        # the number of slashes and the closing bracket fix the first index
        low = (len(mids) % 2 == 0) == (m.group(3) == "⟩")
        return sp.flat(sp.chain(s, None, mids, int(m.group(2)), "lo" if low else "up"))
    m = re.fullmatch(r"(⟨|\[)(\d)\|(.*)\|", c)
    if m:
        return sp.flat(sp.chain(s, int(m.group(2)), m.group(3).split("|"), None, "a" if m.group(1) == "⟨" else "s"))
    m = re.fullmatch(r"\|(.*)\|", c)
    if m:
        return sp.flat(sp.chain(s, None, m.group(1).split("|"), None, "lo"))
    return [sp.value(s, c)]


def convert(D, n):
    """conversion ideal: A_k = <i|j>, B_k = [i|j] in the order of the pairs"""
    with D.pristine():
        I = conversionIdeal(n)
    P = D.point(n)
    vals = components(P)
    inv = invariants(P)
    m = n * (n - 1) // 2
    sym = {f"{x}{k}": D.scalar(f"{x}{k}_free") for x in "AB" for k in range(1, m + 1)}
    D.true("variables", tuple(map(str, I.ring.variables)) == tuple(f"{x}{i}" for i in range(1, n + 1) for x in "abcd") + tuple(f"A{k}" for k in range(1, m + 1)) + tuple(f"B{k}" for k in range(1, m + 1)))
    want = {f"{x}{k}": inv[f"{x}{k}"] - sym[f"{x}{k}"] for x in "AB" for k in range(1, m + 1)}
    D.true("one relation per invariant", len(I.generators) == len(want))
    for g, (k, w) in zip(I.generators, want.items()):
        D.eq(f"{k}: {g}", evaluate(g, {**vals, **sym}, D), w)


def symbols(D):
    for n in range(1, 10):
        m = n * (n - 1) // 2
        D.true(f"covariant symbols {n}", tuple(map(str, lips_covariant_symbols(n))) == tuple(f"{x}{i}" for i in range(1, n + 1) for x in "abcd"))
        D.true(f"invariant symbols {n}", tuple(map(str, lips_invariant_symbols(n))) == tuple(f"A{k}" for k in range(1, m + 1)) + tuple(f"B{k}" for k in range(1, m + 1)))


def subst(poly, n):
    """A_k, B_k -> components"""
    pairs = list(itertools.combinations(range(1, n + 1), 2))
    t = re.sub(r"A(\d+)", lambda m: "(b{0}*a{1}-a{0}*b{1})".format(*pairs[int(m[1]) - 1]), str(poly))
    return re.sub(r"B(\d+)", lambda m: "(c{0}*d{1}-d{0}*c{1})".format(*pairs[int(m[1]) - 1]), t)


def singular_member(polys, gens, n):
    """independent membership test: all polys in the ideal of gens"""
    import subprocess
    prog = f"ring r=0,({','.join(f'{x}{i}' for i in range(1, n + 1) for x in 'abcd')}),dp;ideal J={','.join(map(str, gens))};J=std(J);"
    prog += f"ideal K={','.join(polys)};print(size(reduce(K,J))==0);quit;"
    r = subprocess.run(["Singular", "-q", "--no-rc"], input=prog, capture_output=True, text=True, timeout=120)
    return r.stdout.strip().splitlines()[-1].strip() == "1"


def momcons(n):
    return [("+".join(f"{x}{i}*{y}{i}" for i in range(1, n + 1))) for x in "ab" for y in "cd"]


def explicit(c, n):
    """component polynomial of a closed two-bracket or Mandelstam"""
    i, j = re.findall(r"\d", c)
    if c[0] == "⟨":
        return f"b{i}*a{j}-a{i}*b{j}"
    if c[0] == "[":
        return f"c{i}*d{j}-d{i}*c{j}"
    raise ValueError(c)


def spinor(D, n, covs, mc=None):
    """ideal in Lorentz invariants: every generator vanishes on the component variety, and the requested invariants are members"""
    with D.pristine():
        I = SpinorIdeal(n, tuple(covs)) if mc is None else SpinorIdeal(n, tuple(covs), mc)
        gens = [g for g in map(str, I.generators) if g.strip()]
        base = [explicit(c, n) for c in covs] + (momcons(n) if mc in (None, True) else [])
        D.true("variables", tuple(map(str, I.ring.variables)) == tuple(map(str, lips_invariant_symbols(n))))
        if base:
            D.true("sound: generators vanish on the variety of the components", singular_member([subst(g, n) for g in gens], base, n), gens[:6])
        else:
            D.true("sound: generators vanish identically", all(singular_member([subst(g, n)], ["0"], n) for g in gens))
        pairs = list(itertools.combinations(range(1, n + 1), 2))
        for c in covs:
            i, j = map(int, re.findall(r"\d", c))
            D.true(f"{c} is a member", f"{'A' if c[0] == '⟨' else 'B'}{pairs.index((i, j)) + 1}" in I)
        D.true("Schouten identity is a member", "A3*A4-A2*A5+A1*A6" in I if n == 4 else True)
        D.true("momentum conservation iff requested", ("A1*B1-A6*B6" in I) == (mc is not False) if n == 4 and not covs else True)
        D.true("not the unit ideal", "1" not in I)


def commute(D, n, covs, rules):
    """image of the invariant slice = invariant slice of the image"""
    with D.pristine():
        I = LipsIdeal(n, tuple(covs))
        S = I.invariant_slice()
        for rule in rules:
            D.true(f"{rule}: commutes", I.image(rule).invariant_slice() == S.image(rule))


def membership(D, n, gens, inside, outside):
    with D.pristine():
        I = LipsIdeal(n, gens)
        for c in inside:
            D.true(f"{c} in {gens}", c in I)
        for c in outside:
            D.true(f"{c} not in {gens}", c not in I)
        # the same question asked with the polynomial itself
        import sympy
        o = Particles(n)
        o.make_analytical_d()
        for c in inside + outside:
            v = o(c)
            if not isinstance(v, numpy.ndarray):
                D.true(f"polynomial of {c} in {gens}", (sympy.expand(4 * v) in I) == (c in inside))


def qring(D, n, rule):
    with D.pristine():
        I = LipsIdeal(n, ("⟨1|2⟩",), False)
        I.to_mom_cons_qring()
        J = I.image(rule)
        D.true("quotient ring kept", str(J.ring) == str(I.ring) and J.multiplicity == n)
        q = [x.strip() for x in str(I.ring).split("ideal i_ =")[1].split(";")[0].split(",")]
        D.true("quotient by momentum conservation", singular_member(q, momcons(n), n) and singular_member(momcons(n), q, n), q)


def qring_invariants(D, n):
    """quotient by momentum conservation and Schouten identities: the ideal the empty list of covariants stands for"""
    with D.pristine():
        I = SpinorIdeal(n, ("⟨1|2⟩",))
        I.to_momentum_and_schouten_qring()
        q = [x.strip() for x in str(I.ring).split("ideal i_ =")[1].split(";")[0].split(",")]
        Z = [str(g) for g in SpinorIdeal(n, ()).generators]
        var = tuple(map(str, lips_invariant_symbols(n)))
        R = Ring('0', lips_invariant_symbols(n), 'dp')
        D.true("same variables", all(v in str(I.ring) for v in var))
        A, B = Ideal(R, q), Ideal(R, Z)
        D.true("quotient by momentum conservation and Schouten identities", A == B, q[:3])
        for g in q:
            D.true(f"{g} vanishes on momentum-conserving kinematics", singular_member([subst(g, n)], momcons(n), n))


def orbit(D, n, covs, size):
    with D.pristine():
        E = LipsIdeal(n, tuple(covs)).equivalenceClass
        D.true("distinct images", len(E) == size, len(E))
        D.true("keys are symmetries", all(type(k) is tuple and sorted(k[0]) == sorted("123456789"[:n]) and k[1] is False for k in E))
        I = LipsIdeal(n, tuple(covs))
        for k, v in E.items():
            D.true(f"{k}: image", v == I.image(k))


def cases(tier):
    q = tier == "quick"
    F = ("finite field",)
    C = ("LipsIdeal.image", "LipsIdeal.__call__", "covariant_poly_image")
    V = ("SpinorIdeal.image", "SpinorIdeal.__call__", "invariant_poly_image", "indices_2d")
    L = ("LipsIdeal.__init__", "Particles.make_analytical_d", "Particles_Compute.compute")
    out = []
    for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
        perms = ["".join(map(str, p)) for p in itertools.permutations(range(1, n + 1))]
        rules = [(p, c) for p in perms for c in (False, True)]
        size = 12 if n < 6 else 40
        for b in range(0, len(rules), size):
            out.append(Case(f"covariant n={n} rules {b}", "covariant", dict(n=n, rules=rules[b:b + size]), real=F, seeds=1, target=C, timeout=400))
            if n > 2:
                out.append(Case(f"invariant n={n} rules {b}", "invariant", dict(n=n, rules=rules[b:b + size]), real=F, seeds=1, target=V, timeout=400))
    rng = random.Random(5)
    for n in (6, 7, 8, 9):
        rules = [("".join(rng.sample("123456789"[:n], n)), c) for _ in range(3) for c in (False, True)]
        out.append(Case(f"covariant n={n} sampled", "covariant", dict(n=n, rules=rules), real=F, seeds=1, target=C))
        out.append(Case(f"invariant n={n} sampled", "invariant", dict(n=n, rules=rules), real=F, seeds=1, target=V, timeout=400))
    covs = [(), ("⟨1|2⟩",), ("[2|3]",), ("⟨1|2⟩", "[1|2]"), ("s_12",), ("⟨1|(2+3)|1]",), ("⟨1|",), ("[3|",), ("|2⟩",), ("|4]",), ("|1|2]",), ("|1|2⟩",), ("⟨1|2+3|",), ("[1|2+3|4|",), ("|1+2|3|4⟩",), ("tr5_1234",), ("s_123",),
            ("⟨1|(2+3)|(1+4)|2⟩", "[4|3]", "s_34"), ("⟨1|", "[2|3]"), ("|1+2|",), ("|3|",), ("|1+2|3|",), ("|1|2+3|", "⟨1|4⟩"), ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩", "[1|2]", "[3|4]", "s_14")]
    for n in (4, 5, 6):
        for c in covs:
            if n == 4 and any("s_123" in x for x in c) or (n == 6 and q and len(c) != 1):
                continue
            for mc in (None, True, False):
                if q and mc is True and n != 4:
                    continue
                out.append(Case(f"construct n={n} {c} mc={mc}", "construct", dict(n=n, covs=c, mc=mc), real=F, seeds=1, target=L))
    for n in (3, 4, 5, 6):
        out.append(Case(f"conversion n={n}", "convert", dict(n=n), real=F, seeds=1, target=("conversionIdeal", "lips_covariant_symbols", "lips_invariant_symbols")))
    out.append(Case("symbols", "symbols", {}, real=F, closed=True, target=("lips_covariant_symbols", "lips_invariant_symbols")))
    for n, c, mc in ((4, (), None), (4, (), False), (4, ("⟨1|2⟩",), None), (4, ("[3|4]",), True), (4, ("⟨1|2⟩", "[1|3]"), None), (4, ("⟨2|4⟩",), False), (5, ("⟨1|2⟩",), None), (5, ("[4|5]", "⟨1|2⟩"), None), (5, (), None)):
        out.append(Case(f"spinor ideal n={n} {c} mc={mc}", "spinor", dict(n=n, covs=c, mc=mc), real=F, closed=True, target=("SpinorIdeal.__init__", "conversionIdeal"), timeout=300))
    for n, c in ((4, ("⟨1|2⟩",)), (4, ("⟨1|2⟩", "[1|3]")), (5, ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩"))) + (() if q else ((6, ("⟨1|2⟩", "⟨1|3⟩", "⟨2|3⟩")),)):
        base = "123456789"[:n]
        rules = [(base[1:] + base[0], False), (base[::-1], True), (base, True), (base[1] + base[0] + base[2:], False)]
        out.append(Case(f"slice commutes n={n} {c}", "commute", dict(n=n, covs=c, rules=rules), real=F, closed=True, target=("LipsIdeal.invariant_slice", "SpinorIdeal.image"), timeout=600))
    M = ("LipsIdeal.__contains__",)
    out.append(Case("membership 1", "membership", dict(n=5, gens=("⟨1|3⟩", "⟨3|1+5|3]"), inside=("⟨1|3⟩", "⟨3|1+5|3]"), outside=("⟨2|4⟩", "[1|3]", "⟨1|")), real=F, closed=True, target=M, timeout=200))
    out.append(Case("membership 4", "membership", dict(n=4, gens=["a1", "b2*d3", "c3"], inside=(), outside=("⟨1|", "|1⟩", "|1⟩⟨2|", "[3|", "|3]", "|2⟩[3|")), real=F, closed=True, target=M, timeout=200))
    out.append(Case("membership 5", "membership", dict(n=4, gens=["a1", "b1", "b2*d3", "a2*d3", "c3"], inside=("⟨1|", "|1⟩", "|1⟩⟨2|", "|2⟩[3|"), outside=("[3|", "|3]", "|2⟩", "|3⟩[3|")), real=F, closed=True, target=M, timeout=200))
    out.append(Case("membership 2", "membership", dict(n=5, gens=("⟨1|",), inside=("⟨1|2⟩", "⟨1|", "|1⟩", "s_12", "⟨1|2+3|4]"), outside=("[1|2]", "[1|", "s_23")), real=F, closed=True, target=M, timeout=200))
    out.append(Case("membership 3", "membership", dict(n=4, gens=("⟨1|2⟩",), inside=("s_12", "s_34", "⟨1|2⟩[3|4]"), outside=("s_23", "[1|2]")), real=F, closed=True, target=M, timeout=200))
    for n, r in ((4, ("2143", False)), (4, ("4321", True)), (5, ("23451", True))):
        out.append(Case(f"quotient ring n={n} {r}", "qring", dict(n=n, rule=r), real=F, closed=True, target=("LipsIdeal.to_mom_cons_qring", "LipsIdeal.image"), timeout=200))
    for n in (4, 5):
        out.append(Case(f"invariant quotient ring n={n}", "qring_invariants", dict(n=n), real=F, closed=True, target=("SpinorIdeal.to_momentum_and_schouten_qring",), timeout=300))
    for n, c, k in ((4, ("⟨1|2⟩", "[3|4]"), 6), (4, ("⟨1|2⟩",), 6), (4, ("⟨1|",), 4), (4, ("⟨1|2⟩", "[1|2]"), 6)):
        out.append(Case(f"orbit n={n} {c}", "orbit", dict(n=n, covs=c, size=k), real=F, closed=True, target=("LipsIdeal.equivalenceClass",), timeout=300))
    return out
