"""P08 Lorentz invariance and little-group weights."""
import os
import random
import re
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["SL(2) x SL(2) is generated by elementary (shear) matrices: invariance is proved for each one-parameter generator with a symbolic parameter",
               "expressions: every invariant generated by Invariants(n) for n = 4, 5, a seeded sample for n = 6, 7, plus a fixed list of composite, trace, Gram and open expressions"]
GEN = ("upper-angle", "lower-angle", "upper-square", "lower-square")


def shear(D, g, t):
    one, z = D.const(1), D.zero()
    return D.arr([[one, t], [z, one]]) if g.startswith("upper") else D.arr([[one, z], [t, one]])


def transform(D, oPs, g, massive):
    t = D.scalar("shear")
    M = shear(D, g, t)
    for k in range(1, len(oPs) + 1):
        p = oPs[k]
        if k in massive:
            p.r2_sp_b = sp.mm(M, p.r2_sp_b) if "angle" in g else sp.mm(p.r2_sp_b, M)
        elif "angle" in g:
            p.r_sp_d = sp.mm(M, p.r_sp_d)
        else:
            p.l_sp_d = sp.mm(p.l_sp_d, M)
    return M


def inv(M):
    return sp.adj(M)


def lorentz(D, n, g, exprs, massive=()):
    oPs = D.point(n, massive=massive)
    before = [oPs(e) for e in exprs]
    with D.setup():
        transform(D, oPs, g, massive)
    for e, v in zip(exprs, before):
        D.eq(f"{e} invariant under {g}", oPs(e), v)


def lorentz_open(D, n, g):
    """open spinors and chains transform in the matching representation"""
    oPs = D.point(n)
    L = {"lo-a": ["|1⟩", "|2+3|4]", "|2|3+1|4⟩", "|4|1+2|2-3|1]"], "up-a": ["⟨1|", "[1|2+3|", "⟨1|2|3+4|"], "lo-s": ["[1|", "⟨1|2+3|", "[1|2|3+4|"], "up-s": ["|1]", "|2+3|4⟩", "|2|3+1|4]"],
         "lo-lo": ["|1+2|", "|1|2+3|4|", "|1⟩[2|"], "lo-up": ["|1+2|3|", "|1⟩⟨2|"], "up-lo": ["|1][2|"], "up-up": ["|1]⟨2|"]}
    # chains with one open end: the leading index is the one left by the contraction
    before = {e: oPs(e) for es in L.values() for e in es}
    with D.setup():
        M = transform(D, oPs, g, ())
    W = inv(M)
    for kind, es in L.items():
        for e in es:
            v = before[e]
            parts = kind.split("-")
            if parts[1] in "as":                                   # one open index: position (lo|up), chirality (a|s)
                if ("angle" in g) == (parts[1] == "a"):
                    col = v.shape[1] == 1
                    X = M if parts[0] == "lo" else W
                    if parts[1] == "a":
                        v = sp.mm(X, v) if col else sp.mm(v, X)     # |a> -> M|a>, <a| -> <a|M^-1
                    else:
                        v = sp.mm(v, X) if not col else sp.mm(X, v)  # [a| -> [a|M, |a] -> M^-1|a]
            else:
                first = {"lo": "a", "up": "s"}[parts[0]]
                last = {"lo": "s", "up": "a"}[parts[1]]
                if "angle" in g:
                    if first == "a":
                        v = sp.mm(M, v)
                    if last == "a":
                        v = sp.mm(v, W)
                else:
                    if first == "s":
                        v = sp.mm(W, v)
                    if last == "s":
                        v = sp.mm(v, M)
            D.eq(f"{e} covariant under {g}", oPs(e), v)


def weight(e, k):
    """helicity weight (number of <k| minus number of [k|) of a product of brackets"""
    w = 0
    for m in re.findall(r"([⟨\[])(\d+)\|(?:[^⟨\[⟩\]]*\|)?(\d+)([⟩\]])", e):
        o, a, b, c = m
        w += (1 if o == "⟨" else -1) * (int(a) == k) + (1 if c == "⟩" else -1) * (int(b) == k)
    return w


def little_group(D, n, k, exprs, massive=()):
    """rescaling |k> by t and [k| by 1/t"""
    oPs = D.point(n, massive=massive)
    before = [oPs(e) for e in exprs]
    t = D.scalar("phase")
    D.nonzero(t)
    with D.setup():
        oPs[k].r_sp_d = sp.mscale(oPs[k].r_sp_d, t)
        oPs[k].l_sp_d = sp.mscale(oPs[k].l_sp_d, D.const(1) / t)
    for e, v in zip(exprs, before):
        num, den = (e if isinstance(e, str) else e[0]), None
        if "/" in num:
            num, den = num.split("/")
        w = weight(num, k) - (weight(den, k) if den else 0)
        x = v
        for _ in range(abs(w)):
            x = x * t if w > 0 else x / t
        D.eq(f"{e} has weight {w} in leg {k}", oPs(e), x)


def invariants(n):
    import warnings
    from lips.invariants import Invariants
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return list(Invariants(n).full)
        except Exception:
            return []                                              # generation itself is P16's business


COMPOSITE = ["⟨1|2⟩[2|1]/s_12", "⟨1|2⟩⟨3|4⟩/(⟨1|3⟩⟨2|4⟩)", "s_12s_23-s_13^2", "tr(1|2|3|4)", "tr(1+2|3)", "tr(1+2|3|4|2-1)", "tr5_1234", "tr5(1+2|2|3|4)", "⟨1|2+3|4]⟨4|2|1]", "Δ_12|3|4",
             "[1|2|3|4|1]-⟨1|2|3|4|1⟩".replace("[1|2|3|4|1]", "[1|2|3|4|1⟩").replace("⟨1|2|3|4|1⟩", "⟨1|2|3|4|1]"), "⟨1|2⟩^3[1|2]^2/⟨3|4⟩", "m_1", "ldot"]
LG = ["⟨1|2⟩", "[1|2]", "⟨1|2⟩⟨1|3⟩", "⟨1|2⟩[1|3]", "⟨1|2+3|4]", "[1|2+3|4⟩", "⟨1|2|3|4⟩", "[4|2+3|1|2]", "⟨1|2|3+4|2|1]", "s_12", "s_123", "tr5_1234", "tr(1|2+3|1|4)", "Δ_12|3|4", "⟨1|2⟩⟨1|3⟩/[1|4]", "[1|2]/⟨2|1⟩"]


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 13 + 8)
    F = "finite field"
    T = ("Particles_Compute.compute", "Particles_Eval._eval", "Particle.r_sp_d", "Particle.l_sp_d", "Particle.r2_sp_b", "Particle._r_sp_d_to_r_sp_u", "Particle._l_sp_d_to_l_sp_u")
    comp = [c for c in COMPOSITE if c != "ldot"]
    out = []
    for n in (4, 5, 6, 7):
        full = invariants(n)
        if n == 6:
            full = rng.sample(full, min(len(full), 240 if q else 2000))
        if n == 7:
            full = rng.sample(full, min(len(full), 80 if q else 600))
        ch = 12
        for c in range(0, len(full), ch):
            blk = full[c:c + ch]
            for i, g in enumerate(GEN):
                out.append(Case(f"invariants n={n} #{c // ch} {g}", "lorentz", dict(n=n, g=g, exprs=blk), F, (ALL[(c // ch) % 3],), 1, target=T, timeout=100))
            leg = 1 + (c // ch) % n
            for k in ([leg, leg % n + 1] if n > 5 and q else range(1, n + 1)):
                out.append(Case(f"weights n={n} #{c // ch} leg {k}", "little_group", dict(n=n, k=k, exprs=blk), F, (ALL[(c // ch) % 3],), 1, target=T, timeout=100))
    for g in GEN:
        out.append(Case(f"composite {g}", "lorentz", dict(n=4, g=g, exprs=comp), F, ALL, 1, target=T, timeout=100))
        out.append(Case(f"composite n=11 {g}", "lorentz", dict(n=11, g=g, exprs=["⟨10|11⟩", "⟨1|10+2|11]", "[10|3|11]", "tr(10|11|1|2)", "⟨10|2⟩[2|11]⟨11|10⟩/⟨1|11⟩"][:2] + ["tr(10|11|1|2)"]), F, ALL, 1, target=T, timeout=100))
        out.append(Case(f"massive {g}", "lorentz", dict(n=5, g=g, exprs=["s_12", "s_1", "tr(1|2|3|4)", "tr5_1234", "⟨4|1+2|5]", "⟨4|1|2|5⟩", "Δ_12|3|4", "tr(1+2|3)", "m_2"], massive=(1, 2)), F, ALL, 1, target=T))
        out.append(Case(f"open {g}", "lorentz_open", dict(n=4, g=g), F, ALL, 1, target=T))
    # invariants of many legs: every number of momenta in a Mandelstam, a slashed sum, a corner, a chain or a trace up to the multiplicity
    for n in (7, 8, 9):
        L = list(range(1, n + 1))
        ex = []
        for m in range(2, n):
            ex.append("s_" + "".join(map(str, rng.sample(L, m))))
            a, b = rng.sample(L, 2)
            ex.append(f"⟨{a}|" + "+".join(map(str, rng.sample(L, m))) + f"|{b}]")
            x = rng.sample(L, m)
            ex.append("tr(" + str(x[0]) + "|" + "+".join(map(str, x[1:])) + ")")
            if m > 3:
                ex.append(f"tr5({x[0]}|{'+'.join(map(str, x[3:]))}|{x[1]}|{x[2]})")
        for m in range(1, 4):
            a, b = rng.sample(L, 2)
            ex.append(f"⟨{a}|" + "|".join(str(v) for v in rng.sample(L, m)) + f"|{b}" + ("⟩" if m % 2 == 0 else "]"))
            ex.append(f"[{a}|" + "|".join(str(v) for v in rng.sample(L, m)) + f"|{b}" + ("]" if m % 2 == 0 else "⟩"))
        x = rng.sample(L, n)
        ex.append("Δ_" + "|".join("".join(map(str, c)) for c in (x[:2], x[2:5], x[5:])))
        for c in range(0, len(ex), 6):
            blk = ex[c:c + 6]
            for g in GEN:
                out.append(Case(f"many legs n={n} #{c // 6} {g}", "lorentz", dict(n=n, g=g, exprs=blk), F, (ALL[(c // 6) % 3],), 1, target=T, timeout=100))
            for k in rng.sample(L, 2) if q else L:
                out.append(Case(f"many legs weights n={n} #{c // 6} leg {k}", "little_group", dict(n=n, k=k, exprs=blk), F, (ALL[(c // 6) % 3],), 1, target=T, timeout=100))
    for k in (1, 2, 3, 4):
        out.append(Case(f"weights composite leg {k}", "little_group", dict(n=4, k=k, exprs=LG), F, ALL, 1, target=T))
        out.append(Case(f"weights composite n=6 leg {k}", "little_group", dict(n=6, k=k, exprs=LG), F, ALL, 1, target=T))
    return out
