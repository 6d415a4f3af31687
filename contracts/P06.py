"""P06 Mandelstams, traces, Gram determinants, letters."""
import itertools
import os
import random
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["index choices are enumerated (all Mandelstam subsets, all ordered letters) for the listed multiplicities; kinematics universally quantified",
               "single-digit leg labels for the compact notations (the notation is ambiguous beyond nine legs); explicit-slot notations also with two-digit labels"]


def trace(s, entries, lower_first=True):
    M = None
    low = lower_first
    for e in entries:
        X = sp.comb(s.low if low else s.up, e)
        M = X if M is None else sp.mm(M, X)
        low = not low
    return sp.tr(M)


def tr5(s, a, b, c, d):
    return trace(s, [a, b, c, d], True) - trace(s, [a, b, c, d], False)


def mandelstams(D, n, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    for k in range(1, n + 1):
        for c in itertools.combinations(range(1, n + 1), k):
            v = sp.mand(s, c)
            t = "".join(map(str, c))
            for name in (f"s_{t}", f"S_{t}", f"s{t}", f"S{t}"):
                D.eq(name, oPs(name), v)
            if k > 1:
                p = "".join(map(str, reversed(c)))
                D.eq(f"s_{p} (reordered)", oPs(f"s_{p}"), v)
            if k == 1:
                for name in (f"m_{t}", f"M_{t}", f"m{t}", f"M{t}"):
                    D.eq(name, oPs(name), v)
    for c in [(1, 1), (n, n), (1, 1, 2), (2, 1, 2), (1, 2, 1, 2), (n, 1, n, n)]:     # listed more than once: counted as often
        t = "".join(map(str, c))
        v = sp.det2(sp.comb(s.up, "+".join(map(str, c))))
        D.eq(f"s_{t} (repeated legs)", oPs(f"s_{t}"), v)
    D.eq("m2s", list(oPs.m2s), [sp.mand(s, (i,)) for i in range(1, n + 1)])
    for i in range(1, n + 1):
        for j in range(1, n + 1):
            D.eq(f"ldot {i} {j}", oPs.ldot(i, j), sp.dot(s, i, j))


def additive(D, n):
    """s_ijk is the sum of pairwise ones for light-like legs, and s_I = s_complement on conserved points."""
    oPs = D.point(n, conserve=True)
    for k in range(2, n - 1):
        for c in itertools.combinations(range(1, n + 1), k):
            rest = [i for i in range(1, n + 1) if i not in c]
            D.eq(f"s_{c} = s_{rest}", oPs("s_" + "".join(map(str, c))), oPs("s_" + "".join(map(str, rest))))
            D.eq(f"s_{c} pairwise", oPs("s_" + "".join(map(str, c))), sp.sum_(oPs(f"⟨{a}|{b}⟩") * oPs(f"[{b}|{a}]") for a, b in itertools.combinations(c, 2)))


def traces(D, n, specs, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    for entries, paren in specs:
        t = "tr(" + "|".join(f"({e})" if paren else e for e in entries) + ")"
        D.eq(t, oPs(t), trace(s, entries))


def tr5s(D, n, specs, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    for (a, b, c, d) in specs:
        v = tr5(s, a, b, c, d)
        D.eq(f"tr5({a}|{b}|{c}|{d})", oPs(f"tr5({a}|{b}|{c}|{d})"), v)
        if all(len(x) == 1 for x in (a, b, c, d)):
            D.eq(f"tr5_{a}{b}{c}{d}", oPs(f"tr5_{a}{b}{c}{d}"), v)


def tr5_laws(D, n, massive=()):
    oPs = D.point(n, massive=massive)
    base = oPs("tr5(1|2|3|4)")
    for p in itertools.permutations("1234"):
        sg = 1
        for i in range(4):
            for j in range(i + 1, 4):
                if p[i] > p[j]:
                    sg = -sg
        D.eq(f"tr5 sign of {p}", oPs(f"tr5({'|'.join(p)})"), base if sg > 0 else -base)
    for slot in range(4):
        x = ["1", "2", "3", "4"]
        y = list(x)
        x[slot] = "1+5" if slot != 0 else "5+1"
        y[slot] = "5"
        z = list("1234")
        z[slot] = "1"
        D.eq(f"linear in slot {slot + 1}", oPs(f"tr5({'|'.join(x)})"), oPs(f"tr5({'|'.join(y)})") + oPs(f"tr5({'|'.join(z)})"))
        x[slot] = "5-2"
        z[slot] = "2"
        D.eq(f"linear in slot {slot + 1} (difference)", oPs(f"tr5({'|'.join(x)})"), oPs(f"tr5({'|'.join(y)})") - oPs(f"tr5({'|'.join(z)})"))


def d5(D):
    oPs = D.point(5, conserve=True)
    s = sp.Snap(oPs)
    t = oPs("tr5_1234")
    g = [[sp.dot(s, i, j) for j in range(1, 5)] for i in range(1, 5)]
    D.eq("δ5 = 16 x Gram determinant of four momenta", oPs("δ5"), 16 * sp.detn(g))
    D.eq("δ5 = tr5^2", oPs("δ5"), t * t)
    for p in ("2345", "3451", "1342"):
        x = oPs("tr5_" + p)
        D.eq(f"tr5_{p}^2 = δ5", x * x, oPs("δ5"))


def deltas(D, n, specs, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    for corners in specs:
        t = "Δ_" + "|".join("".join(map(str, c)) for c in corners)
        D.eq(t, oPs(t), sp.gram(s, corners))


def contiguous(D, n, ijks, massive=()):
    import warnings
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    M = lambda c: sp.mand(s, c)                                     # noqa
    for ijk in ijks:
        blk = sp.nol3(n, ijk)
        D.same(f"blocks {ijk}", [list(b) for b in oPs.ijk_to_3NonOverlappingLists(list(ijk))], blk)
        t = "".join(map(str, ijk))
        up = [sp.comb(s.up, "+".join(map(str, b))) for b in blk]
        low = [sp.comb(s.low, "+".join(map(str, b))) for b in blk]
        dot = sp.tr(sp.mm(up[0], low[1])) / 2
        D.eq(f"Δ_{t}", oPs(f"Δ_{t}"), dot * dot - sp.det2(up[0]) * sp.det2(up[1]))
        A, B, C = blk
        D.eq(f"Ω_{t}", oPs(f"Ω_{t}"), 2 * M(C) * M(B) - (M(C) + M(B) - M(A)) * M(C + [A[0]]))
        if len(A) > 1:
            D.eq(f"Π_{t}", oPs(f"Π_{t}"), M(C + [A[0]]) - M(C + [A[1]]))


def again(D, n):
    """the same letters on a changed point, also one of another multiplicity, are computed from the momenta at hand"""
    oPs = D.point(n)
    for step in range(5):
        s, m = sp.Snap(oPs), len(oPs)
        for c in ((1, 2), (2, 3), (1, 2, 3)):
            t = "s_" + "".join(map(str, c))
            D.eq(f"step {step}: {t}", oPs(t), sp.mand(s, c))
        D.eq(f"step {step}: m_1", oPs("m_1"), sp.mand(s, (1,)))
        D.eq(f"step {step}: tr5_1234", oPs("tr5_1234"), tr5(s, "1", "2", "3", "4"))
        D.eq(f"step {step}: tr(1+2|3)", oPs("tr(1+2|3)"), trace(s, ["1+2", "3"]))
        D.eq(f"step {step}: Δ_12|3|45", oPs("Δ_12|3|45"), sp.gram(s, ((1, 2), (3,), (4, 5))))
        blk = sp.nol3(m, (1, 3, 5))
        M = lambda c: sp.mand(s, c)                                 # noqa
        up = [sp.comb(s.up, "+".join(map(str, b))) for b in blk]
        dot = sp.tr(sp.mm(up[0], sp.comb(s.low, "+".join(map(str, blk[1]))))) / 2
        D.eq(f"step {step}: Δ_135", oPs("Δ_135"), dot * dot - sp.det2(up[0]) * sp.det2(up[1]))
        A, B, C = blk
        D.eq(f"step {step}: Ω_135", oPs("Ω_135"), 2 * M(C) * M(B) - (M(C) + M(B) - M(A)) * M(C + [A[0]]))
        D.eq(f"step {step}: Π_135", oPs("Π_135"), M(C + [A[0]]) - M(C + [A[1]]))
        with D.setup():
            if step == 0:
                oPs[2].r_sp_d = D.col("x")
            elif step == 1:
                oPs[3].r2_sp = D.mat("M3_")
                oPs[1].l_sp_u = D.col("y")
            elif step == 2:
                oPs[1], oPs[4] = oPs[4], oPs[1]
            else:
                oPs.append(D.massless(f"extra{step}"))


def kallen(D, n, ijks):
    """on conserved points the contiguous Gram is the Källén function of the three corner masses / 4, symmetric in the corners."""
    oPs = D.point(n, conserve=True)
    s = sp.Snap(oPs)
    for ijk in ijks:
        blk = sp.nol3(n, ijk)
        a, b, c = (sp.mand(s, x) for x in blk)
        lam = a * a + b * b + c * c - 2 * a * b - 2 * b * c - 2 * c * a
        t = "".join(map(str, ijk))
        D.eq(f"4 Δ_{t} = λ", 4 * oPs(f"Δ_{t}"), lam)
        D.eq("explicit corners agree", oPs("Δ_" + "|".join("".join(map(str, x)) for x in blk)), oPs(f"Δ_{t}"))
        D.eq("symmetric in the corners", oPs("Δ_" + "|".join("".join(map(str, x)) for x in (blk[2], blk[0], blk[1]))), oPs(f"Δ_{t}"))


def dets(D, n):
    from lips.tools import det
    G = [[D.scalar(f"g{i}{j}") for j in range(n)] for i in range(n)]
    D.eq(f"det {n}x{n}", det(D.arr(G)), sp.detn(G))


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 11 + 6)
    out = []
    C = "Particles_Compute.compute"
    F = "finite field"
    for n, m in ((3, ()), (4, ()), (5, ()), (6, ()), (5, (1,)), (6, (2, 5)), (7, ())) + (() if q else ((8, ()), (9, ()))):
        out.append(Case(f"mandelstams n={n} massive={m}", "mandelstams", dict(n=n, massive=m), F, ALL + ("rational",), 1, target=(C, "Particles_Compute.ldot", "det", "Particles.m2s")))
    for n in (4, 5, 6):
        out.append(Case(f"mandelstam relations n={n}", "additive", dict(n=n), F, ALL, 1, target=C))
    for n, m in ((4, ()), (6, (1, 4)), (7, ()), (12, (10,))):
        for rep in range(2 if q else 10):
            specs = []
            for k in (2, 4, 6):
                for _ in range(4):
                    es = []
                    for _ in range(k):
                        ks = [rng.randint(1, n) for _ in range(rng.choice((1, 1, 2, 3)))]
                        es.append(str(ks[0]) + "".join(rng.choice("+-") + str(x) for x in ks[1:]))
                    specs.append((es, rng.random() < .3 and k == 2))
            out.append(Case(f"traces n={n} massive={m} #{rep}", "traces", dict(n=n, massive=m, specs=specs), F, ALL if rep == 0 else (F,), 1, target=C))
    for n, m in ((4, ()), (5, ()), (5, (1,)), (6, (1, 2))):
        out.append(Case(f"tr5 all n={n} massive={m}", "tr5s", dict(n=n, massive=m, specs=[tuple(map(str, p)) for p in itertools.permutations(range(1, n + 1), 4)][:360 if not q else 130]), F, (F, "padic"), 1, target=C))
    for n in (5, 6):
        for m in ((), (1,), (2, 4)):
            out.append(Case(f"tr5 laws n={n} massive={m}", "tr5_laws", dict(n=n, massive=m), F, ALL, 1, target=C))
    for n, m in ((6, ()), (7, (3,)), (11, ())):
        for rep in range(2 if q else 10):
            specs = []
            for _ in range(8):
                row = []
                for _ in range(4):
                    ks = [rng.randint(1, n) for _ in range(rng.choice((1, 2, 2, 3)))]
                    row.append(str(ks[0]) + "".join(rng.choice("+-") + str(x) for x in ks[1:]))
                specs.append(tuple(row))
            out.append(Case(f"tr5 sums n={n} massive={m} #{rep}", "tr5s", dict(n=n, massive=m, specs=specs), F, ALL if rep == 0 else (F,), 1, target=C))
    for n in (5, 6):
        out.append(Case(f"re-evaluation n={n}", "again", dict(n=n), F, ALL, 1, target=C))
    out.append(Case("δ5", "d5", {}, F, ALL, 2, target=C))
    for n, m in ((4, ()), (5, ()), (6, ()), (7, ()), (6, (2,))):
        specs = []
        labels = list(range(1, n + 1))
        for k in (2, 3, 4):
            for _ in range(6 if q else 20):
                rng.shuffle(labels)
                if n < k:
                    continue
                cuts = sorted(rng.sample(range(1, n), k - 1))
                specs.append([labels[a:b] for a, b in zip([0] + cuts, cuts + [n])])
                if k == 4 and n > 5 and q and len(specs) > 14:
                    break
        out.append(Case(f"Δ corners n={n} massive={m}", "deltas", dict(n=n, massive=m, specs=specs), F, ALL, 1, target=(C, "det"), timeout=200))
    for n in (4, 5, 6, 7) if q else (4, 5, 6, 7, 8, 9):
        ijks = [list(p) for p in itertools.permutations(range(1, n + 1), 3)]
        # cyclically ordered starting points only (the blocks tile the polygon)
        ijks = [p for p in ijks if (p[1] - p[0]) % n < (p[2] - p[0]) % n]
        for c in range(0, len(ijks), 24):
            out.append(Case(f"contiguous letters n={n} block {c // 24}", "contiguous", dict(n=n, ijks=ijks[c:c + 24]), F, ALL if c == 0 else (F,), 1, target=(C, "Particles.ijk_to_3NonOverlappingLists")))
        if n < 8:
            out.append(Case(f"Källén n={n}", "kallen", dict(n=n, ijks=ijks[:10]), F, ALL, 1, target=C, timeout=200))
    for n in (1, 2, 3, 4, 5):
        out.append(Case(f"det {n}", "dets", dict(n=n), F, ALL, 1, target="det"))
    return out
