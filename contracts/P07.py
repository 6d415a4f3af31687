"""P07 expression evaluation is a homomorphism."""
import os
import random
from fractions import Fraction
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["expressions: a fixed list of precedence- and notation-sensitive shapes plus seeded samples of the grammar; kinematics and masses universally quantified for each",
               "atoms inside an expression are replaced by a fresh symbol per distinct value of the real compute(atom) (generalisation; undone before an obligation is reported as failed)",
               "grammar limits of the code are respected: one \\frac around the whole expression, no negative superscripts, single-digit labels in the compact notation, implicit multiplication only next to a bracket or after a number"]

N = 7
MASSES = ("m_t", "M", "μ", "mt2", "mh2", "m12", "m_34", "M_W", "MZ", "μ_R", "μ2", "mt12")


# ------------------------------------------------------------------ expressions (spec side)
# node: ("num", Fraction) | ("atom", key) | ("neg", a) | ("+-*/", a, b) | ("^", a, k) | ("sqrt", a)
# atom key: ("ang",i,j) ("sqr",i,j) ("s",idx) ("chain",kind,first,mids,last) ("tr",entries) ("tr5",entries) ("gram",corners) ("mass",name)

def atom_value(D, s, masses, key):
    k = key[0]
    if k == "ang":
        return sp.ang(s, key[1], key[2])
    if k == "sqr":
        return sp.sqr(s, key[1], key[2])
    if k == "s":
        return sp.mand(s, key[1])
    if k == "chain":
        return sp.chain(s, key[2], list(key[3]), key[4], key[1])[0, 0]
    if k == "tr":
        return trace(s, key[1])
    if k == "tr5":
        return trace(s, key[1]) - trace(s, key[1], False)
    if k == "gram":
        return sp.gram(s, key[1])
    if k == "mass":
        return masses[key[1]]
    raise Exception(key)


def trace(s, entries, low=True):
    M = None
    for e in entries:
        X = sp.comb(s.low if low else s.up, e)
        M = X if M is None else sp.mm(M, X)
        low = not low
    return sp.tr(M)


def atom_text(key, rng, style):
    k = key[0]
    if k in ("ang", "sqr"):
        o, c = ("⟨", "⟩") if k == "ang" else ("[", "]")
        i, j = key[1], key[2]
        if style["compact"] and i < 10 and j < 10 and rng.random() < .6:
            t = f"{o}{i}{j}{c}"
        else:
            t = f"{o}{i}|{j}{c}"
    elif k == "s":
        t = rng.choice(("s_", "s", "S_", "S") if style["variants"] else ("s_",)) + "".join(map(str, key[1]))
        if "_" in t and style["curly"]:
            t = t.replace("_", "_{") + "}"
    elif k == "chain":
        kind, first, mids, last = key[1:]
        angle_end = (kind == "a") == (len(mids) % 2 == 0)
        par = style["paren"] and rng.random() < .5
        t = ("⟨" if kind == "a" else "[") + f"{first}|" + "|".join(f"({m})" if par and len(m) > 1 else m for m in mids) + f"|{last}" + ("⟩" if angle_end else "]")
    elif k == "tr":
        t = "tr(" + "|".join(key[1]) + ")"
    elif k == "tr5":
        t = ("tr5_" + "".join(key[1])) if all(len(e) == 1 for e in key[1]) and rng.random() < .5 else "tr5(" + "|".join(key[1]) + ")"
    elif k == "gram":
        t = "|".join("".join(map(str, c)) for c in key[1])
        t = "Δ_{" + t + "}" if style["curly"] else "Δ_" + t
    else:
        t = key[1]
    if style["ascii"]:
        t = t.replace("⟨", "<").replace("⟩", ">")
    return t


SUP = dict(zip("0123456789", "⁰¹²³⁴⁵⁶⁷⁸⁹"))
PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3, "^": 4, "num": 9, "atom": 9, "sqrt": 9}


def text(node, rng, style, outer=0, right=False):
    k = node[0]
    if k == "num":
        q = node[1]
        if q.denominator != 1:
            t, p = f"{q.numerator}/{q.denominator}", 2
        else:
            t, p = str(q.numerator), 9
    elif k == "atom":
        t, p = atom_text(node[1], rng, style), 9
    elif k == "sqrt":
        t, p = f"sqrt({text(node[1], rng, style)})", 9
    elif k == "neg":
        t, p = style["minus"] + text(node[1], rng, style, 3), 3
    elif k == "^":
        base = text(node[1], rng, style, 5)
        e = node[2]
        st = rng.choice(style["pow"]) if e >= 0 else rng.choice([x for x in style["pow"] if x != "sup"] or ["^"])
        if st == "sup":
            t = base + "".join(SUP[c] for c in str(e))
        else:
            t = base + st + (str(e) if e >= 0 else f"({e})") if not (style["curly"] and e >= 0 and st == "^") else f"{base}^{{{e}}}"
        p = 4
    else:
        a = text(node[1], rng, style, PREC[k])
        b = text(node[2], rng, style, PREC[k] + (1 if k in "-/" else 0), True)
        if k in "+-*/" and b[:1] in "-−":
            b = f"({b})"
        sep = {"+": "+", "-": style["minus"], "*": "*", "/": "/"}[k]
        if k == "*" and style["implicit"] and implicit_ok(node[1], a, node[2], b):
            sep = ""
        if style["space"] and rng.random() < .5:
            sep = rng.choice((" ", "", "\n")) + sep + rng.choice((" ", ""))
        t, p = a + sep + b, PREC[k]
    if p < outer or (style["extra"] and outer and rng.random() < .15):
        t = f"({t})"
    return t


def implicit_ok(na, a, nb, b):
    if nb[0] == "num" and b[0].isdigit():
        return a[-1] in ")⟩>]"                                # (...)3, ⟨1|2⟩3
    if b[0] not in "(⟨<[" or a[-1] not in ")⟩>]0123456789":
        # a number in front of a Mandelstam, Gram, trace, root or mass
        return na[0] == "num" and a[-1].isdigit() and b[0] in "sSΔtmMμ" and a.isdigit()
    if a[-1] in "0123456789":
        if na[0] == "num":
            return True
        return b[0] != "(" or a[-2:-1] not in "|"           # digit closing a power, a Mandelstam or a Gram
    return True


def value(D, node, s, masses, abstract=lambda v: v):
    k = node[0]
    if k == "num":
        return D.const(node[1])
    if k == "atom":
        return abstract(atom_value(D, s, masses, node[1]))
    if k == "sqrt":
        return D.sqrt(value(D, node[1], s, masses, abstract))
    if k == "neg":
        return -value(D, node[1], s, masses, abstract)
    if k == "^":
        b = value(D, node[1], s, masses, abstract)
        e = node[2]
        r = D.const(1)
        for _ in range(abs(e)):
            r = r * b
        if e < 0:
            D.nonzero(r)
            return D.const(1) / r
        return r
    a, b = value(D, node[1], s, masses, abstract), value(D, node[2], s, masses, abstract)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    D.nonzero(b)
    return a / b


# ------------------------------------------------------------------ contract

class Abstraction:
    """fresh symbol per distinct scalar value of the real compute(atom) called from inside _eval."""

    def __init__(self, D):
        self.D, self.depth, self.table = D, 0, []

    def __call__(self, v):
        from vc.sym import Sym
        if not isinstance(v, Sym) or v.is_const():
            return v
        for val, a in self.table:
            if (val - v).iszero():
                return a
        a = Sym.var(f"atom{len(self.table) + 1}")
        self.table.append((v, a))
        return a

    def wrap(self, orig):
        def compute(obj, string):
            self.depth += 1
            try:
                r = orig(obj, string)
            finally:
                self.depth -= 1
            return self(r) if self.depth == 1 else r
        return compute


def evaluate(D, exprs, n=N, massive=()):
    """exprs: list of (node, text)"""
    oPs = D.point(n, massive=massive)
    masses = {}
    for m in MASSES:
        masses[m] = D.scalar("mass_" + m.replace("_", ""))
        setattr(oPs, m, masses[m])
    s = sp.Snap(oPs)
    for i in range(1, n + 1):
        for pre in ("m_", "M_", "m", "M"):
            masses[f"{pre}{i}"] = sp.mand(s, (i,))
    before = [snapshot(oPs[i]) for i in range(1, n + 1)]
    for node, t in exprs:
        if D.symbolic:
            A = Abstraction(D)
            with D.stub(Particles, "compute", A.wrap(Particles.compute)):
                r = oPs(t)
            if not hasattr(r, "shape"):
                v = value(D, node, s, masses, A)
                if (v - r).iszero():
                    D.eq(t, r, v)
                    continue
        try:
            v = value(D, node, s, masses)
        except ZeroDivisionError:
            continue
        r = oPs(t)
        D.true(f"{t} is a scalar", not hasattr(r, "shape"), type(r))
        D.eq(t, r, v)
    for i, x in enumerate(before):
        unchanged(D, f"leg {i + 1}", oPs[i + 1], x)
    D.true("masses unchanged", all(getattr(oPs, m) is masses[m] for m in MASSES), "mass rebound")


def same_value(D, groups, n=N):
    """alternative notations of one expression, and matrix-valued expressions against their explicit products."""
    oPs = D.point(n)
    for m in MASSES:
        setattr(oPs, m, D.scalar("mass_" + m.replace("_", "")))
    s = sp.Snap(oPs)
    env = dict(sp=sp, s=s, ru=lambda i: sp.r_up(s.r[i]), rd=lambda i: s.r[i], ld=lambda i: s.l[i], lu=lambda i: sp.l_up(s.l[i]), mm=sp.mm, ms=sp.mscale, ma=sp.madd,
               low=lambda e: sp.comb(s.low, e), up=lambda e: sp.comb(s.up, e), ang=lambda i, j: sp.ang(s, i, j), sqr=lambda i, j: sp.sqr(s, i, j), mand=lambda *a: sp.mand(s, a),
               m_t=oPs.m_t, M=oPs.M, mu=oPs.μ, mass=lambda a: getattr(oPs, a), tra=lambda *e: trace(s, e), tr5=lambda *e: trace(s, e) - trace(s, e, False), Q=D.const, gram=lambda *c: sp.gram(s, c), m=lambda i: sp.mand(s, (i,)))
    for spec, texts in groups:
        v = eval(spec, {}, env)
        for t in texts:
            r = oPs(t)
            if hasattr(v, "shape") and not hasattr(r, "shape"):
                v = v[0, 0]
            if not hasattr(v, "shape"):
                D.true(f"{t} is a scalar", not hasattr(r, "shape"), type(r))
            D.eq(t, r, v)


def alias(D):
    """a mass given as the name of an invariant evaluates to that invariant, everywhere in an expression"""
    oPs = D.point(6)
    s = sp.Snap(oPs)
    oPs.mh2 = "s_45"
    oPs.M = "⟨1|2⟩[2|1]"
    D.eq("alias", oPs("mh2"), sp.mand(s, (4, 5)))
    D.eq("alias in product", oPs("2mh2^2-s_12*mh2"), 2 * sp.mand(s, (4, 5)) * sp.mand(s, (4, 5)) - sp.mand(s, (1, 2)) * sp.mand(s, (4, 5)))
    D.eq("alias of an expression", oPs("M+s_12"), sp.ang(s, 1, 2) * sp.sqr(s, 2, 1) + sp.mand(s, (1, 2)))
    # evaluating is not remembered: the alias follows the momenta and its own redefinition
    D.true("aliases kept", oPs.mh2 == "s_45" and oPs.M == "⟨1|2⟩[2|1]", (oPs.mh2, oPs.M))
    with D.setup():
        oPs[4].r_sp_d = D.col("new")
        oPs[1].l_sp_d = D.row("new'")
    s = sp.Snap(oPs)
    for t in ("mh2", "2mh2-mh2"):
        D.eq(f"{t} after the momenta changed", oPs(t), sp.mand(s, (4, 5)))
    D.eq("alias of an expression after the momenta changed", oPs("M+s_12"), sp.ang(s, 1, 2) * sp.sqr(s, 2, 1) + sp.mand(s, (1, 2)))
    oPs.mh2 = "s_12"
    D.eq("redefined alias", oPs("mh2"), sp.mand(s, (1, 2)))
    x = D.scalar("mh")
    oPs.mh2 = x
    D.eq("alias replaced by a number", oPs("mh2+s_12"), x + sp.mand(s, (1, 2)))


def again(D, texts):
    """the same expression on a changed point gives the new value; evaluating leaves nothing behind"""
    oPs = D.point(6)
    oPs.m_t = D.scalar("mt")
    for step in range(3):
        s = sp.Snap(oPs)
        env = dict(ang=lambda i, j: sp.ang(s, i, j), sqr=lambda i, j: sp.sqr(s, i, j), mand=lambda *i: sp.mand(s, i), sp=sp, s=s)
        for t, v in texts:
            D.eq(f"step {step}: {t}", oPs(t), eval(v, {}, env))
            D.eq(f"step {step}: {t} repeated", oPs(t), eval(v, {}, env))
        D.true(f"step {step}: masses", oPs.internal_masses == {"m_t"}, oPs.internal_masses)
        with D.setup():
            if step == 0:                                            # little-group frame: same momenta, other spinors
                z = D.scalar("z")
                oPs[2].r_sp_d = oPs[2].r_sp_d * z
                oPs[2].l_sp_d = oPs[2].l_sp_d / z
            else:
                oPs[1].r_sp_d = D.col("x")
                oPs[3].l_sp_u = D.col("y")


def undefined(D):
    """unknown masses are an error, never a value"""
    oPs = D.point(5)
    for t in ("mt2", "s_12+mt2", "2m_q*⟨1|2⟩"):
        try:
            r = oPs(t)
        except AttributeError:
            D.true(f"{t} rejected", True)
        else:
            D.true(f"{t} rejected", False, f"{r}")


def malformed(D):
    oPs = D.point(5)
    for t in ("⟨1|2⟩+", "(⟨1|2⟩", "⟨1|2⟩)", "s_12**", "/s_12", "⟨1|2⟩+foo", "__import__('os')", "exit()", "s_12 if s_12 else s_23", "lambda: 1", "oPs.field"):
        try:
            r = oPs(t)
        except Exception as e:
            D.true(f"{t} rejected", type(e).__name__ not in ("Unsupported", "Infeasible"), e)
        else:
            D.true(f"{t} rejected", False, f"{r}")


FIXED = [
    ("mand(1,2)-mand(1,3)-mand(2,3)", ["s_12-s_13-s_23", "s12-s13-s23", "S_12−S_13−S_23", "(s_12-s_13)-s_23"]),
    ("mand(1,2)-(mand(1,3)-mand(2,3))", ["s_12-(s_13-s_23)", "s_12 - ( s_13 - s_23 )"]),
    ("mand(1,2)/mand(1,3)/mand(2,3)", ["s_12/s_13/s_23", "s12/(s13 s23)".replace(" ", "*")]),
    ("mand(1,2)/mand(1,3)*mand(2,3)", ["s_12/s_13*s_23", "s_12*s_23/s_13"]),
    ("mand(1,2)/Q(6)", ["s_12/2/3", "s_12/6", "1/6s_12", "1/6*s_12", "1/2/3*s_12", "(1/6)s_12"]),
    ("mand(1,2)*Q('3/4')", ["3/2^2*s_12", "3/4s_12", "3/4*s_12", "3*s_12/4", "s_12*3/4"]),
    ("Q('1/5')*mand(1,2)*mand(1,2)*mand(1,2)", ["s_12^3/5", "s_12**3/5", "s_12³/5", "1/5s_12^3", "1/5s_12³"]),
    ("sp.sum_([mand(1,2)])*0+Q('1/5')*eval('*'.join(['mand(1,2)']*12),{},dict(mand=mand))", ["s_12^12/5", "s_12¹²/5", "s_12**12/5"]),
    ("eval('*'.join(['ang(1,2)']*10),{},dict(ang=ang))*sqr(3,4)", ["⟨12⟩^10[34]", "⟨12⟩¹⁰[34]", "⟨1|2⟩**10*[3|4]", "[34]⟨1|2⟩¹⁰", "(⟨12⟩⁵)²[34]"]),
    ("eval('*'.join(['sqr(1,2)']*20),{},dict(sqr=sqr))+1", ["[12]^20+1", "[12]²⁰+1", "1+[1|2]**20"]),
    ("Q('1')*mand(1,2)+1", ["s_12+s_34^0", "s_12+s_34⁰", "s_12+⟨1|2⟩⁰", "1+s_12*[12]**0"]),
    ("-mand(1,2)*mand(1,2)", ["-s_12^2", "-s_12²", "−s_12**2", "0-s_12^2", "-1*s_12^2"]),
    ("mand(1,2)*mand(1,2)", ["(-s_12)^2", "s_12^2", "(s_12)²", "+s_12^2"]),
    ("eval('*'.join(['ang(1,2)']*8),{},dict(ang=ang))", ["⟨1|2⟩^2^3", "⟨12⟩^8", "<12>**8", "⟨1|2⟩⁸", "(⟨12⟩^2)^4"]),
    ("Q('1/2')*ang(1,2)", ["1/2⟨12⟩", "1/2⟨1|2⟩", "1/2<1|2>", "⟨12⟩/2", "2⟨12⟩/4", "(1/2)⟨1|2⟩"]),
    ("Q('1/2')*ang(1,2)*sqr(1,2)", ["1/2⟨12⟩[12]", "⟨12⟩[12]/2", "1/2[12]⟨12⟩", "1/2⟨1|2⟩[1|2]", "1/2 ⟨1|2⟩ [1|2]"]),
    ("Q('-1/8')*mand(1,2)*mand(2,3)", ["-1/8s12s23", "-1/8s_12s_23", "-1/8(s_12)(s_23)", "-1/8*s12*s23", "-(1/8)s_12*s_23"]),
    ("ang(1,2)*ang(1,2)/(ang(2,3)*ang(3,4))", ["⟨12⟩²/(⟨23⟩⟨34⟩)", "⟨1|2⟩^2/(⟨2|3⟩⟨3|4⟩)", r"\frac{⟨12⟩^2}{⟨23⟩⟨34⟩}", "⟨12⟩^2/⟨23⟩/⟨34⟩", "<12>^2/(<23><34>)"]),
    ("ang(1,2)/ang(2,3)+sqr(1,2)/sqr(2,3)", ["⟨12⟩/⟨23⟩+[12]/[23]", "(⟨12⟩[23]+[12]⟨23⟩)/(⟨23⟩[23])", r"\frac{⟨\scriptscriptstyle12⟩[23]+[1|2]⟨23⟩}{⟨23⟩[\scriptscriptstyle23]}"]),
    ("Q('1/25')*ang(1,2)", ["5^(-2)⟨12⟩", "5**-2*⟨1|2⟩", "⟨12⟩/5²", "⟨12⟩*5^-2"]),
    ("ang(1,2)+2*ang(1,3)-3*ang(2,3)", ["⟨12⟩+2⟨13⟩-3⟨23⟩", "⟨12⟩ + 2 ⟨13⟩ − 3 ⟨23⟩", "⟨12⟩\n+2⟨13⟩\n-3⟨23⟩", "⟨1|2⟩+2*⟨1|3⟩-3*⟨2|3⟩", "⟨1|2⟩--2⟨1|3⟩+-3⟨2|3⟩"]),
    ("Q(2**61+1)*ang(1,2)-Q(2**61-1)*mand(1,2)", [f"{2**61+1}⟨12⟩-{2**61-1}s_12", f"{2**61+1}*⟨1|2⟩-{2**61-1}*s_12"]),
    ("Q(9007199254740993)*ang(1,2)/Q(10**25+1)", ["9007199254740993/10000000000000000000000001⟨1|2⟩", "9007199254740993⟨12⟩/10000000000000000000000001"]),
    ("Q(12)*ang(1,2)*Q(34)", ["12⟨12⟩34", "12⟨1|2⟩*34", "12*34⟨1|2⟩", "(12)⟨12⟩(34)"]),
    ("m(1)+mand(1,2)", ["m_1+s_12", "s_1+s_12", "M_1+s_12", "s_12+m1"]),
    ("m_t*m_t*ang(1,2)", ["m_t^2⟨12⟩", "m_t²⟨1|2⟩", "m_t*m_t*⟨12⟩", "⟨12⟩m_t^2", "⟨12⟩m_t²"]),
    ("mu*mu+M", ["μ^2+M", "μ²+M", "M+μ**2", "M-(-μ²)"]),
    ("4*M*mand(1,2)", ["4M*s_12", "4s_12*M", "4*M*s12", "M*s_12*4"]),
    ("(mand(1,2)-4*m(3))*mand(3,4)", ["(s_12-4s_3)s_34", "(s_12-4m_3)*s_34", "s_34(s_12-4s_3)", "s_34*(s12-4*s3)"]),
    ("gram((1,2),(3,4),(5,6))*gram((1,2),(3,4),(5,6))*ang(1,2)", ["Δ_12|34|56²⟨12⟩", "Δ_12|34|56^2⟨1|2⟩", "⟨12⟩Δ_12|34|56²", "Δ_12|34|56*Δ_12|34|56*⟨1|2⟩"]),
    ("ang(1,2)/gram((1,2),(3,4),(5,6))", ["⟨12⟩/Δ_12|34|56", "⟨1|2⟩/(Δ_12|34|56)", r"\frac{⟨12⟩}{Δ_12|34|56}"]),
    ("ang(10,2)*sqr(2,11)/mand(1,2)", ["⟨10|2⟩[2|11]/s_12", "<10|2>[2|11]/s12", r"\frac{⟨10|2⟩[2|11]}{s_12}", "⟨10|2⟩*[2|11]*s_12^-1"], 11),
    ("ang(10,2)*ang(10,2)-3*sp.chain(s,10,['11+2'],3,'a')[0,0]*ang(11,10)/sqr(3,10)", ["⟨10|2⟩²-3⟨10|11+2|3]⟨11|10⟩/[3|10]", "⟨10|2⟩^2-3⟨10|(11+2)|3]⟨11|10⟩/[3|10]"], 11),
    ("-3*(mand(1,2)+mand(2,3))", ["-(s_12+s_23)3", "-(s_12+s_23)*3", "−3(s_12+s_23)", "-3*(s12+s23)", " -(s_12+s_23)3 ", "(s_12+s_23)*-3", "-(s_12+s_23)3\n"]),
    ("5*(mand(1,2)-mand(2,3))*ang(1,2)", ["(s_12-s_23)5⟨12⟩", "+(s_12-s_23)5⟨1|2⟩", "⟨12⟩5(s_12-s_23)", "⟨12⟩(s_12-s_23)5", "⟨1|2⟩*5*(s_12-s_23)"]),
    ("-7*ang(1,2)*sqr(3,4)", ["-⟨12⟩7[34]", "-⟨12⟩[34]7", "-7⟨12⟩[34]", "−[34]7⟨12⟩", "-(⟨12⟩)7([34])"]),
    ("ang(1,2)/ang(2,3)", ["\\frac{⟨1|2⟩}{⟨2|3⟩}", "\\frac{⟨1|2⟩}{⟨2|3⟩} ", "\\frac{⟨1|2⟩}{⟨2|3⟩}\n", " \\frac{⟨12⟩}{⟨23⟩}", "\\frac{⟨12⟩} {⟨23⟩}".replace("} {", "}{"), "\n\\frac{ ⟨1|2⟩ }{ ⟨2|3⟩ }\n", "+\\frac{⟨12⟩}{⟨23⟩}"]),
    ("-ang(1,2)/ang(2,3)", ["-\\frac{⟨1|2⟩}{⟨2|3⟩}", "−\\frac{⟨12⟩}{⟨23⟩}\n", "\\frac{-⟨12⟩}{⟨23⟩}", "\\frac{⟨12⟩}{-⟨23⟩}"]),
    ("mand(1,2)+Q('2/3')*ang(1,2)*sqr(1,2)/mand(2,3)", ["s_12+\\frac{2⟨12⟩[12]}{3s_23}", "s_12+2/3⟨12⟩[12]/s_23", "s_12 + 2\\frac{⟨1|2⟩[1|2]}{3 s_23} "]),
    # spin index: the first component of the massive fermion made of the legs (i, i+1); ⟨i_| = ⟨i+1|, |i_⟩ = |i+1⟩, [i^| = -[i+1|, |i^] = -|i+1]
    ("-sp.chain(s,4,['1+2'],6,'s')[0,0]", ["[3^|1+2|5_⟩", "⟨5_|1+2|3^]", "[3u|1+2|5d⟩", "<5d|(1+2)|3u]", "[3^|(1+2)|5_>", "([3^|1+2|5_⟩)"]),
    ("-sp.chain(s,4,['1-2'],6,'s')[0,0]", ["[3^|1-2|5_⟩", "⟨5_|1-2|3^]", "⟨5_|1|3^]-⟨5_|2|3^]"]),
    ("ang(6,2)", ["⟨5_|1_⟩", "⟨5d|2⟩", "⟨6|1_⟩", "-⟨1_|5_⟩"]),
    ("sqr(6,2)", ["[5^|1^]", "-[5u|2]", "-[6|1^]", "-[1^|5^]"]),
    ("sp.chain(s,6,['1+2'],3,'a')[0,0]", ["⟨5_|1+2|3]", "[3|1+2|5_⟩", "-⟨5_|1+2|2^]", "-[2^|2+1|5_⟩"]),
    ("-sp.chain(s,3,['1+2'],6,'a')[0,0]", ["⟨3|1+2|5^]", "[5^|1+2|3⟩", "⟨2_|1+2|5^]"]),
    ("sp.chain(s,6,['1+2','3+4'],2,'a')[0,0]", ["⟨5_|1+2|3+4|1_⟩", "⟨5_|1+2|3+4|2⟩", "⟨6|1+2|3+4|1_⟩"]),
    ("sp.chain(s,6,['1+2','3+4'],2,'s')[0,0]", ["[5^|1+2|3+4|1^]", "-[5^|1+2|3+4|2]", "-[6|1+2|3+4|1^]"]),
    ("sp.chain(s,6,['1+2','3-4','1+5'],2,'s')[0,0]", ["-[5^|1+2|3-4|1+5|1_⟩", "-[5^|1+2|3-4|1+5|2⟩", "[6|1+2|3-4|1+5|1_⟩", "-⟨1_|1+5|3-4|1+2|5^]"]),
    ("sp.chain(s,6,['1+2','3','1+5','2+4'],3,'s')[0,0]", ["[5^|1+2|3|1+5|2+4|2^]"]),
    ("sp.chain(s,6,['1+2','3','1+5','2+4'],3,'a')[0,0]", ["⟨5_|1+2|3|1+5|2+4|2_⟩"]),
    ("sp.chain(s,4,['1+2'],6,'s')[0,0]*sp.chain(s,4,['1+2'],6,'s')[0,0]", ["[3^|1+2|5_⟩²", "[3^|1+2|5_⟩^2", "⟨5_|1+2|3^]**2", "[3^|1+2|5_⟩[3^|1+2|5_⟩", "[3^|1+2|5_⟩*⟨5_|1+2|3^]"]),
    ("-Q('3/2')*ang(1,2)*sp.chain(s,4,['1+2'],6,'s')[0,0]/mand(1,2)", ["3/2⟨12⟩[3^|1+2|5_⟩/s_12", "3/2[3^|1+2|5_⟩⟨1|2⟩/s12", "3⟨5_|1+2|3^]⟨1|2⟩/(2s_12)"]),
    ("ang(1,2)-mand(1,2)/(sqr(4,1)*ang(6,2))", ["⟨12⟩+s_12/([3^|1]⟨5_|2⟩)", "⟨12⟩+s_12/[3^|1]/⟨5_|2⟩", "⟨1|2⟩-s_12/(⟨5_|2⟩[4|1])"]),
    # rarer names, longer subscripts, curly brackets, minus signs inside the traces
    ("mass('m12')*ang(1,2)-m(1)*Q(2)", ["m12⟨1|2⟩-2m_1", "m12*⟨12⟩−2m1", "-2M_1+⟨12⟩m12"]),
    ("mass('m_34')*mass('M_W')/mass('MZ')", ["m_34*M_W/MZ", "M_W/MZ*m_34", "\\frac{m_34*M_W}{MZ}"]),
    ("mass('μ_R')*mass('μ_R')-Q(4)*mass('μ2')+mass('mt12')*mass('mt2')-mu", ["μ_R^2-4μ2+mt12*mt2-μ", "μ_R²-4*μ2+mt2*mt12-μ", "-μ+mt2*mt12-4μ2+μ_R**2"]),
    ("Q(2)*mand(1,2,3,4,5)-mand(1,2,3,4)*mand(2,3,4,5,6,7)", ["2s_12345-s_1234*s_234567", "2S12345−S1234*S234567", "-s_{1234}*s_{234567}+2s_{12345}", "2*s_54321-s_2341*s_723456"]),
    ("gram((1,2),(3,),(4,5),(6,7))+Q(3)*gram((1,2,3),(4,5,6))", ["Δ_12|3|45|67+3Δ_123|456", "3*Δ_123|456+Δ_12|3|45|67", "Δ_{12|3|45|67}+3Δ_{123|456}", "3Δ_{123|456}+Δ_{12|3|45|67}"]),
    ("gram((1,2),(3,4),(5,6))", ["Δ_12|34|56", "Δ_{12|34|56}", "1*Δ_{12|34|56}", "(Δ_{12|34|56})"]),
    ("Q(2)*tr5('1','2-3','4','5')*tra('1-2','3','4','6')", ["2*tr5(1|2-3|4|5)*tr(1-2|3|4|6)", "tr(1-2|3|4|6)*tr5(1|2-3|4|5)*2"]),
    ("tr5('1','2','3','4-6')-tra('1','2-7')", ["tr5(1|2|3|4-6)-tr(1|2-7)", "-tr(1|2-7)+tr5(1|2|3|4-6)"]),
    ("ang(1,2)*ang(1,2)*mand(1,2)*mand(1,2)*mand(1,2)", ["⟨1|2⟩^{2}s_12^{3}", "s_{12}^{3}⟨1|2⟩^{2}", "⟨12⟩²s_{12}³", "\\frac{⟨1|2⟩^{2}s_{12}^{4}}{s_{12}}"]),
    ("Q(3)*mand(1,2)", ["3s_{12}", "3*s_{12}", "s_{12}*3", "(s_{12})3", "\\frac{3s_{12}}{1}", "3s_{21}"]),
    ("mand(3,4)/mand(1,2)", ["s_{34}/s_{12}", "\\frac{s_{34}}{s_{12}}", "\\frac{s_34}{s_12}"]),
    # matrix valued
    ("mm(rd(1), ru(2))", ["|1⟩⟨2|", "|1>@<2|", "(|1⟩@⟨2|)"]),
    ("mm(lu(3), ru(2))", ["|3]⟨2|", "|3]@<2|"]),
    ("ms(mm(rd(1), ld(2)), Q(3))", ["3|1⟩[2|", "3*|1⟩[2|", "|1⟩[2|*3"]),
    ("ma(mm(rd(1), ru(2)), ms(mm(rd(2), ru(1)), Q(-1)))", ["|1⟩⟨2|-|2⟩⟨1|", "|1⟩⟨2| - |2⟩⟨1|"]),
    ("ma(mm(up('4+5'), mm(low('6+7'), lu(1))), ms(mm(up('6+7'), mm(low('4+5'), lu(1))), Q(-1)))".replace("up('4+5'), mm(low", "up('4+5'), mm(low"), ["|4+5|6+7|1]-|6+7|4+5|1]"]),
    ("ma(mm(mm(ld(1), up('4+5')), low('6+7')), ms(mm(mm(ld(1), up('6+7')), low('4+5')), Q(-1)))", ["[1|4+5|6+7|-[1|6+7|4+5|"]),
    ("ms(lu(4), Q(4))", ["4|4]", "4*|4]", "|4]*4"]),
    ("mm(ru(1), rd(2))[0,0]*mm(ld(3), lu(4))[0,0]", ["(⟨1|@|2⟩)*([3|@|4])", "⟨1|2⟩[3|4]"]),
]


def atoms(rng, n=N):
    L = list(range(1, n + 1))
    k = rng.random()
    if k < .3:
        i, j = rng.sample(L, 2)
        return ("ang", i, j)
    if k < .5:
        i, j = rng.sample(L, 2)
        return ("sqr", i, j)
    if k < .65:
        return ("s", tuple(rng.sample(L, rng.choice((2, 2, 2, 3, 3, 4, 5, 6)))))
    if k < .82:
        kind = rng.choice("as")
        nm = rng.choice((1, 1, 2))
        mids = []
        for _ in range(nm):
            ks = rng.sample(L, rng.choice((1, 2, 2, 3)))
            mids.append(str(ks[0]) + "".join(rng.choice("++-") + str(x) for x in ks[1:]))
        return ("chain", kind, rng.choice(L), tuple(mids), rng.choice(L))
    if k < .86:
        return ("tr", tuple(str(rng.choice(L)) + rng.choice("+-") + str(rng.choice(L)) if rng.random() < .4 else str(rng.choice(L)) for _ in range(rng.choice((2, 4)))))
    if k < .89:
        x = list(map(str, rng.sample(L, 4)))
        if rng.random() < .5:
            i = rng.randrange(4)
            x[i] += rng.choice("+-") + str(rng.choice([y for y in L if str(y) not in x]))
        return ("tr5", tuple(x))
    if k < .92:
        x = rng.sample(L, 6)
        return ("gram", tuple(tuple(c) for c in rng.choice(((x[:2], x[2:4], x[4:]), (x[:2], x[2:4], x[4:]), (x[:1], x[1:4], x[4:]), (x[:2], x[2:4], x[4:5], x[5:]), (x[:3], x[3:])))))
    return ("mass", rng.choice(MASSES + ("m_1", "M_2", "m3")))


def expr(rng, depth):
    if depth == 0 or rng.random() < .12:
        if rng.random() < .2:
            return ("num", Fraction(rng.randint(1, 12), rng.choice((1, 1, 1, 2, 3, 7))))
        return ("atom", atoms(rng))
    k = rng.random()
    if k < .2:
        return ("+", expr(rng, depth - 1), expr(rng, depth - 1))
    if k < .4:
        return ("-", expr(rng, depth - 1), expr(rng, depth - 1))
    if k < .65:
        return ("*", expr(rng, depth - 1), expr(rng, depth - 1))
    if k < .8:
        return ("/", expr(rng, depth - 1), expr(rng, depth - 1))
    if k < .9:
        return ("^", expr(rng, depth - 1), rng.choice((1, 2, 2, 3, 4, -1, -2)))
    return ("neg", expr(rng, depth - 1))


def has_atom(node):
    return node[0] == "atom" or any(has_atom(x) for x in node[1:] if isinstance(x, tuple))


def style(rng):
    return dict(compact=rng.random() < .5, variants=rng.random() < .5, paren=rng.random() < .5, ascii=rng.random() < .2, minus=rng.choice("--−"),
                pow=rng.choice((["^"], ["**"], ["sup"], ["^", "**", "sup"])), implicit=rng.random() < .6, space=rng.random() < .3, curly=rng.random() < .15, extra=rng.random() < .4)


def dress(e, rng):
    """the whole expression: plain, as a LaTeX fraction (possibly with a prefactor), with an explicit sign, with surrounding blanks"""
    st = style(rng)
    if e[0] == "/" and rng.random() < .35:
        gap = rng.choice(("", "", " ", "\n")) if st["space"] else ""
        t = f"\\frac{{{gap}{text(e[1], rng, st)}{gap}}}{{{text(e[2], rng, st)}{gap}}}"
        if rng.random() < .4:
            pre = expr(rng, 0)
            e = ("*", pre, e)
            t = text(pre, rng, st, 2) + "*" + t
    else:
        t = text(e, rng, st)
    k = rng.random()
    if k < .15:
        e, t = (e, "+" + t) if t[0] not in "+-−" else (e, t)
    elif k < .35:
        e, t = (("neg", e), st["minus"] + t) if t[0] not in "+-−" and e[0] not in "+-" else (("neg", e), st["minus"] + f"({t})") if "frac" not in t else (e, t)
    if rng.random() < .3:
        t = rng.choice((" ", "\n", "", "  ")) + t + rng.choice((" ", "\n", "\n\n"))
    return e, t


def samples(rng, count, depth):
    out = []
    while len(out) < count:
        e = expr(rng, depth)
        if not has_atom(e) or zero_risk(e):
            continue
        e, t = dress(e, rng)
        if zero_risk(e):
            continue
        out.append((e, t))
    return out


def zero_risk(node):
    """a divisor or a negative power whose base is a constant or identically vanishing difference"""
    if node[0] in ("num", "atom"):
        return False
    if node[0] == "/" and not nonzero_generic(node[2]):
        return True
    if node[0] == "^" and node[2] < 0 and not nonzero_generic(node[1]):
        return True
    return any(zero_risk(x) for x in node[1:] if isinstance(x, tuple))


class _Num:
    """one fixed integer point, only used to keep identically vanishing divisors out of the samples"""

    def __init__(self):
        rng = random.Random(0)
        r = lambda: Fraction(rng.randint(1, 10 ** 6))               # noqa
        self.r = {i: sp.mat([[r()], [r()]]) for i in range(1, N + 1)}
        self.l = {i: sp.mat([[r(), r()]]) for i in range(1, N + 1)}
        self.low = {i: sp.P_low(self.r[i], self.l[i]) for i in self.r}
        self.up = {i: sp.adj(self.low[i]) for i in self.r}
        self.masses = {m: r() for m in MASSES}
        self.masses.update({f"{p}{i}": Fraction(0) for p in ("m_", "M_", "m", "M") for i in range(1, N + 1)})


_NUM = _Num()


def nonzero_generic(node):
    class D:
        const = staticmethod(Fraction)
        sqrt = staticmethod(lambda x: x)
        nonzero = staticmethod(lambda x: None)
    try:
        return value(D, node, _NUM, _NUM.masses) != 0
    except ZeroDivisionError:
        return False


def cases(tier):
    q = tier == "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    T = ("Particles_Eval._parse", "Particles_Eval._eval", "_eval_node", "ast_eval_expr", "Particles_Compute.compute", "Particles.__call__")
    out = []
    F = "finite field"
    for i, g in enumerate(FIXED):
        out.append(Case(f"notations #{i} {g[1][0]}", "same_value", dict(groups=[g[:2]], n=g[2] if len(g) > 2 else N), F, ALL + (("rational",) if "m_t" not in g[0] else ()), 1, target=T))
    R = ALL + ("rational",)
    for depth, cnt, blocks in ((1, 12, 40), (2, 10, 200), (3, 6, 240), (4, 3, 120)) if q else ((1, 12, 50), (2, 12, 400), (3, 8, 600), (4, 5, 400)):
        for b in range(blocks):
            rng = random.Random(f"{seed}/{depth}/{b}")
            out.append(Case(f"grammar depth={depth} #{b}", "evaluate", dict(exprs=samples(rng, cnt, depth)), F, (R[b % 4],), 1, target=T, timeout=60))
    for b in range(8 if q else 60):
        rng = random.Random(f"{seed}/massive/{b}")
        ex = []
        while len(ex) < 6:
            e = expr(rng, 2)
            if "sqr" in str(e) or "ang" in str(e) or "chain" in str(e) or not has_atom(e) or zero_risk(e):
                continue
            e, t = dress(e, rng)
            if "sqr" in str(e) or "ang" in str(e) or "chain" in str(e) or zero_risk(e):
                continue
            ex.append((e, t))
        out.append(Case(f"massive legs #{b}", "evaluate", dict(exprs=ex, massive=(1, 2, 3, 5)), F, (F, "mpc"), 1, target=T))
    sq = []
    for b in range(3 if q else 12):
        rng = random.Random(f"{seed}/sqrt/{b}")
        for _ in range(3):
            a = ("sqrt", ("atom", atoms(rng)))
            e = rng.choice([a, ("*", ("num", Fraction(2)), a), ("+", ("atom", atoms(rng)), a), ("/", a, ("atom", ("ang", 1, 2))), ("^", a, 3), ("neg", a),
                            ("sqrt", ("-", ("*", ("atom", ("s", (1, 2))), ("atom", ("s", (2, 3)))), ("num", Fraction(1, 4))))])
            sq.append((e, text(e, rng, style(rng))))
    out.append(Case("square roots", "evaluate", dict(exprs=sq), "mpc", ("mpc",), 1, target=T))
    out.append(Case("signed square roots", "evaluate", dict(exprs=[
        (("sqrt", ("neg", ("atom", ("s", (1, 2))))), "sqrt(-s_12)"), (("sqrt", ("neg", ("atom", ("s", (1, 2, 3))))), "sqrt(-s_123)"),
        (("sqrt", ("*", ("neg", ("atom", ("s", (1, 2)))), ("atom", ("s", (3, 4))))), "sqrt(-s_12*s_34)"),
        (("+", ("sqrt", ("neg", ("atom", ("s", (2, 3))))), ("sqrt", ("atom", ("s", (2, 3))))), "sqrt(-s_23)+sqrt(s_23)"),
        (("sqrt", ("neg", ("-", ("atom", ("s", (2, 3))), ("atom", ("s", (1, 2)))))), "sqrt(-(s_23-s_12))")]), "mpc", ("mpc",), 3, target=T))
    out.append(Case("re-evaluation", "again", dict(texts=[
        ("⟨1|2⟩", "ang(1,2)"), ("[2|3]", "sqr(2,3)"), ("⟨2|1+3|4]", "sp.chain(s,2,['1+3'],4,'a')[0,0]"), ("⟨2|1+3|4+5|6⟩", "sp.chain(s,2,['1+3','4+5'],6,'a')[0,0]"),
        ("s_12*⟨1|2⟩", "mand(1,2)*ang(1,2)"), ("[3|1|2⟩+s_123", "sp.chain(s,3,['1'],2,'s')[0,0]+mand(1,2,3)"), ("⟨1|2⟩[2|3]/⟨4|5⟩", "ang(1,2)*sqr(2,3)/ang(4,5)")]), F, ALL, 1, target=T))
    out.append(Case("mass aliases", "alias", {}, F, ALL, 1, target=T))
    out.append(Case("undefined masses", "undefined", {}, F, ALL, 1, target=T))
    out.append(Case("malformed expressions", "malformed", {}, F, (F, "mpc"), 1, target=T))
    return out
