"""P12 clustering."""
import itertools
import os
import random
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["partitions (with every order of corners and of legs inside a corner up to n = 4, seeded samples beyond) are enumerated; kinematics universally quantified",
               "aliases are Mandelstams of corners or of unions of corners"]


def conv(f):
    """the contract under one of the two spinor conventions (the symmetric one forks on every massive corner)"""
    import functools

    @functools.wraps(f)
    def g(D, *a, convention_="asymmetric", **k):
        with convention(convention_):
            return f(D, *a, **k)
    return g


def spec_sum(s, c):
    return sp.comb(s.up, "+".join(map(str, c)))


@conv
def cluster(D, n, parts, massive=(), conserve=False):
    oPs = D.point(n, massive=massive, conserve=conserve)
    oPs.m_t = D.scalar("mt")
    s = sp.Snap(oPs)
    st = [snapshot(oPs[i]) for i in range(1, n + 1)]
    for part in parts:
        arg = [list(c) for c in part]
        c = oPs.cluster(arg)
        D.true(f"{part}: argument unchanged", arg == [list(x) for x in part], arg)
        D.true(f"{part}: type, multiplicity, field", isinstance(c, Particles) and len(c) == len(part) and c.field == oPs.field, (type(c), len(c)))
        for k, corner in enumerate(part, 1):
            D.eq(f"{part}: corner {k} momentum", c[k].r2_sp, spec_sum(s, corner))
            coherent(D, f"{part}: corner {k}", c[k], False)
            if len(corner) == 1:
                unchanged(D, f"{part}: single-leg corner {k}", c[k], st[corner[0] - 1])
        for r in range(1, min(3, len(part)) + 1):
            for sub in itertools.combinations(range(1, len(part) + 1), r):
                legs = [x for k in sub for x in part[k - 1]]
                D.eq(f"{part}: s_{''.join(map(str, sub))}", c("s_" + "".join(map(str, sub))), sp.mand(s, legs))
        if len(part) >= 3:
            D.eq(f"{part}: Gram", c("Δ_1|2|3"), sp.gram(s, [part[0], part[1], part[2]]))
        if len(part) >= 4:
            D.eq(f"{part}: trace", c("tr(1|2|3|4)"), sp.tr(sp.mm(sp.mm(sp.comb(s.low, j(part[0])), sp.comb(s.up, j(part[1]))), sp.mm(sp.comb(s.low, j(part[2])), sp.comb(s.up, j(part[3]))))))
        if conserve and sorted(x for y in part for x in y) == list(range(1, n + 1)):
            z = D.zero()
            D.eq(f"{part}: total momentum vanishes", c.total_mom, sp.mat([[z, z], [z, z]]))
        D.eq(f"{part}: mass carried over", c.m_t, oPs.m_t)
        D.true(f"{part}: registry", c.internal_masses == {"m_t"}, c.internal_masses)
    for i, x in enumerate(st):
        unchanged(D, f"original leg {i + 1}", oPs[i + 1], x)
    D.true("original registry", oPs.internal_masses == {"m_t"}, oPs.internal_masses)


def j(c):
    return "+".join(map(str, c))


@conv
def chains(D, n, part):
    """chains over corners equal the chains over the summed legs"""
    oPs = D.point(n)
    c = oPs.cluster([list(x) for x in part])
    singles = [k for k, x in enumerate(part, 1) if len(x) == 1]
    for a, b in itertools.product(singles, repeat=2):
        A, B = part[a - 1][0], part[b - 1][0]
        for m in range(1, len(part) + 1):
            D.eq(f"⟨{a}|{m}|{b}]", c(f"⟨{a}|{m}|{b}]"), oPs(f"⟨{A}|{j(part[m - 1])}|{B}]"))
            for k in range(1, len(part) + 1):
                D.eq(f"[{a}|{m}|{k}|{b}]", c(f"[{a}|{m}|{k}|{b}]"), oPs(f"[{A}|{j(part[m - 1])}|{j(part[k - 1])}|{B}]"))
        D.eq(f"⟨{a}|{b}⟩", c(f"⟨{a}|{b}⟩"), oPs(f"⟨{A}|{B}⟩"))


@conv
def aliases(D, n, part, names):
    """names: list of (alias text, list of corners)"""
    oPs = D.point(n)
    for i, (t, _) in enumerate(names):
        setattr(oPs, f"m_{'abcdefgh'[i]}", t)
    before = {f"m_{'abcdefgh'[i]}": oPs(f"m_{'abcdefgh'[i]}") for i in range(len(names))}
    c = oPs.cluster([list(x) for x in part])
    for i, (t, corners) in enumerate(names):
        m = f"m_{'abcdefgh'[i]}"
        D.eq(f"{part}: alias {t}", c(m), before[m])
        D.true(f"{part}: original alias kept", getattr(oPs, m) == t)
    D.true("registry", c.internal_masses == set(before), c.internal_masses)


@conv
def fermions(D, n, part, spec):
    oPs = D.point(n)
    s = sp.Snap(oPs)
    st = [snapshot(oPs[i]) for i in range(1, n + 1)]
    mf = tuple((leg, pos, all if v == "all" else v) for leg, pos, v in spec)
    c = oPs.cluster([list(x) for x in part], massive_fermions=mf)
    E = D.arr([[D.zero(), D.const(1)], [D.const(-1), D.zero()]])
    for k, corner in enumerate(part, 1):
        D.eq(f"corner {k} momentum", c[k].r2_sp, spec_sum(s, corner))
        D.eq(f"corner {k} lower momentum", c[k].r2_sp_b, sp.adj(spec_sum(s, corner)))
    for leg, pos, v in spec:
        a, b = part[leg - 1]
        R = D.arr([[s.r[a][0, 0], s.r[b][0, 0]], [s.r[a][1, 0], s.r[b][1, 0]]])
        L = D.arr([[s.l[a][0, 0], s.l[a][0, 1]], [s.l[b][0, 0], s.l[b][0, 1]]])
        r = R if pos == "u" else sp.mm(R, sp.mscale(E, -1))
        l = L if pos == "d" else sp.mm(sp.mscale(E, -1), L)
        p = c[leg]
        if v == "all":
            D.eq(f"leg {leg}: P = |I> eps [I|", sp.mm(sp.mm(p.r_sp_d, E), p.l_sp_d), p.r2_sp_b)
        else:
            r, l = r[:, v - 1:v], l[v - 1:v, :]
        D.eq(f"leg {leg} |I>", p.r_sp_d, r)
        D.eq(f"leg {leg} [I|", p.l_sp_d, l)
        D.eq(f"leg {leg} <I|", p.r_sp_u, sp.T(sp.mm(E, r)))
        D.eq(f"leg {leg} |I]", p.l_sp_u, sp.T(sp.mm(l, sp.T(E))))
        D.true(f"leg {leg}: spin index", p.spin_index == (pos, all if v == "all" else v), p.spin_index)
        if v == "all":
            # Dirac equation: the momentum maps one chirality to the other, up to the mass [ab]
            D.eq(f"leg {leg}: Dirac equation", sp.mm(p.r2_sp_b, p.l_sp_u), sp.mscale(p.r_sp_d, -sp.sqr(s, a, b)))
    for x, y in itertools.combinations([t for t in spec if t[2] != "all"], 2):
        D.eq(f"⟨{x[0]}|{y[0]}⟩", c(f"⟨{x[0]}|{y[0]}⟩"), sp.mm(c[x[0]].r_sp_u, c[y[0]].r_sp_d)[0, 0])
    for i, x in enumerate(st):
        unchanged(D, f"original leg {i + 1}", oPs[i + 1], x)


def bad_fermion(D):
    oPs = D.point(6)
    for mf in (((3, "x", 1),), ((1, "u", 1),)):
        try:
            oPs.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=mf)
        except Exception as e:
            D.true("rejected", type(e).__name__ not in ("Unsupported", "Infeasible"), e)
        else:
            D.true("rejected", False, mf)


@conv
def three_corners(D, n, ijks):
    oPs = D.point(n)
    s = sp.Snap(oPs)
    for ijk in ijks:
        blk = sp.nol3(n, ijk)
        D.same(f"blocks {ijk}", [list(b) for b in oPs.ijk_to_3NonOverlappingLists(list(ijk))], blk)
        D.true(f"{ijk}: a partition", sorted(x for b in blk for x in b) == list(range(1, n + 1)), blk)
        K = oPs.ijk_to_3Ks(list(ijk))
        D.true("three corners", len(K) == 3)
        for k, b in enumerate(blk, 1):
            D.eq(f"{ijk} corner {k}", K[k].r2_sp, spec_sum(s, b))


def complementary(D, n):
    oPs = D.point(n)
    for r in range(1, n + 1):
        for c in itertools.combinations(range(1, n + 1), r):
            D.same(f"complement of {c}", oPs._complementary(list(c)), [i for i in range(1, n + 1) if i not in c])
            D.same(f"complement of {c} (strings)", oPs._complementary([str(x) for x in c]), [str(i) for i in range(1, n + 1) if i not in c])


def partitions(n):
    """all ordered set partitions with ordered blocks"""
    out = []
    for perm in itertools.permutations(range(1, n + 1)):
        for cuts in range(2 ** (n - 1)):
            blocks, cur = [], [perm[0]]
            for i in range(1, n):
                if cuts >> (i - 1) & 1:
                    blocks.append(cur)
                    cur = [perm[i]]
                else:
                    cur.append(perm[i])
            blocks.append(cur)
            out.append(tuple(tuple(b) for b in blocks))
    return out


def rpart(rng, n):
    L = list(range(1, n + 1))
    rng.shuffle(L)
    k = rng.randint(2, min(n, 6))
    cuts = sorted(rng.sample(range(1, n), k - 1))
    return tuple(tuple(L[a:b]) for a, b in zip([0] + cuts, cuts + [n]))


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 19 + 12)
    F = "finite field"
    T = ("Particles.cluster", "Particle.__radd__", "Particle.__add__", "Particles.__init__")
    out = []
    for n in (3, 4):
        ps = sorted(partitions(n), key=len)
        for c in range(0, len(ps), 16):
            out.append(Case(f"cluster n={n} #{c // 16}", "cluster", dict(n=n, parts=ps[c:c + 16], conserve=all(len(x) > 1 for x in ps[c:c + 16])), F, (ALL[(c // 16) % 3],), 1, target=T, timeout=120, max_paths=3000))
    for n in (5, 6, 7, 8, 11):
        for r in range(4 if q else 20):
            out.append(Case(f"cluster n={n} sampled #{r}", "cluster", dict(n=n, parts=[rpart(rng, n) for _ in range(4)], conserve=r % 2 == 0 and n < 8), F, (ALL[r % 3],), 1, target=T, timeout=120, max_paths=3000))
    out.append(Case("cluster natural order", "cluster", dict(n=7, parts=[((1,), (2,), (3,), (4, 5), (6, 7)), ((1, 2), (3, 4), (5, 6, 7)), ((7, 1), (2, 3), (4, 5, 6))], conserve=True), F, ALL, 1, target=T, timeout=120))
    for part in (((1,), (2, 3), (4,), (5,)), ((5, 1), (2,), (4, 3)), ((1, 2, 3), (4, 5)), ((1, 2, 3),), ((2, 1), (3, 4), (5, 6)), ((1,), (2,), (3,), (4, 5), (6, 7))):
        nn = max(x for c in part for x in c)
        for f in ALL:
            out.append(Case(f"cluster {part} symmetric {f}", "cluster", dict(n=nn, parts=[part], conserve=nn < 6, convention_="symmetric"), f, (f,), 1, target=T, timeout=120, max_paths=3000))
    out.append(Case("cluster overlapping", "cluster", dict(n=6, parts=[((1, 1), (2, 3)), ((1, 2), (2, 3)), ((4,), (4,), (5, 4, 5))]), F, ALL, 1, target=T))
    out.append(Case("cluster incomplete", "cluster", dict(n=6, parts=[((1,), (2, 3)), ((6, 5), (4,)), ((2,),)]), F, ALL, 1, target=T))
    for m in ((1,), (2, 5)):
        out.append(Case(f"cluster massive={m}", "cluster", dict(n=6, parts=[rpart(rng, 6) for _ in range(4)], massive=m), F, ALL, 1, target=T, max_paths=3000))
    for part in (((1,), (2,), (3, 4), (5, 6)), ((6,), (2, 1), (4,), (3, 5)), ((3,), (1,), (5, 2, 6), (4,))):
        out.append(Case(f"chains {part}", "chains", dict(n=6, part=part), F, ALL, 1, target=T + ("Particles_Compute.compute",)))
    for part, names in ((((1,), (2,), (3,), (4, 5), (6, 7)), [("s_45", 0), ("s45", 0), ("s_67", 0), ("s_12", 0), ("s_1", 0)]),
                        (((6, 7), (5, 4), (1,), (3,), (2,)), [("s_45", 0), ("s_54", 0), ("s67", 0), ("s_76", 0), ("s_13", 0), ("s_4567", 0)]),
                        (((4,), (5,), (1, 2), (3, 6)), [("s_45", 0), ("s_12", 0), ("s_36", 0), ("s36", 0), ("s_4", 0), ("s_124", 0)]),
                        (((1, 2), (3, 4), (5, 6)), [("s_12", 0), ("s_34", 0), ("s_56", 0), ("s_12+s_34", 0), ("2s_56-s12", 0)])):
        out.append(Case(f"aliases {part}", "aliases", dict(n=max(x for c in part for x in c), part=part, names=names), F, ALL, 1, target=T))
    for part, legs in ((((1,), (2,), (3, 4), (5, 6)), (3, 4)), (((5, 2), (1,), (6, 3), (4,)), (1, 3)), (((1, 2), (3, 4), (5, 6)), (1, 2, 3))):
        for pos in itertools.product("ud", repeat=2):
            for val in (("all", "all"), (1, 2), (2, 1), ("all", 1)):
                out.append(Case(f"fermions {part} {pos} {val}", "fermions", dict(n=6, part=part, spec=[(legs[k], pos[k], val[k]) for k in range(2)]), F, (ALL[len(out) % 3],), 1, target=T))
    out.append(Case("bad fermion specification", "bad_fermion", {}, F, (F,), 1, target=T))
    for n in (3, 4, 5, 6, 7, 8):
        ijks = [list(p) for p in itertools.permutations(range(1, n + 1), 3) if (p[1] - p[0]) % n < (p[2] - p[0]) % n]
        if q and n > 6:
            ijks = rng.sample(ijks, 20)
        for c in range(0, len(ijks), 10):
            out.append(Case(f"three corners n={n} #{c // 10}", "three_corners", dict(n=n, ijks=ijks[c:c + 10]), F, (F,), 1, target=("Particles.ijk_to_3Ks", "Particles.ijk_to_3NonOverlappingLists") + T, max_paths=3000))
    for n in (4, 6):
        out.append(Case(f"complementary n={n}", "complementary", dict(n=n), F, (F,), 1, target="Particles._complementary"))
    return out
