"""P11 parity flip."""
import copy
import itertools
from .common import *                                              # noqa
from .P06 import tr5 as spec_tr5

LEVEL = "proof"
ASSUMPTIONS = ["multiplicities and leg types are enumerated; kinematics universally quantified"]
REP = ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


class Flipped:
    def __init__(self, s):
        self.n = s.n
        self.r = {i: None if s.l[i] is None else sp.T(s.l[i]) for i in s.r}
        self.l = {i: None if s.r[i] is None else sp.T(s.r[i]) for i in s.r}
        self.up = {i: sp.T(s.up[i]) for i in s.r}
        self.low = {i: sp.T(s.low[i]) for i in s.r}


def leg(D, kind, conv):
    """one particle: all representations after a flip, and after two"""
    with convention(conv):
        p = D.massless("p") if kind == "l" else D.massive("p")
        was = snapshot(p)
        p.angles_for_squares()
        D.eq("momentum transposed", p.r2_sp, sp.T(was[4]))
        coherent(D, "flipped", p, kind == "l", spinors=was[0] is not None)
        if was[0] is not None:
            D.eq("|p>' = [p|^T", p.r_sp_d, sp.T(was[2]))
            D.eq("[p|' = |p>^T", p.l_sp_d, sp.T(was[0]))
        D.eq("mass unchanged", p.m2, sp.det2(was[4]))
        p.angles_for_squares()
        unchanged(D, "flipped twice", p, was)


def scalar_leg(D):
    """a massive scalar without spinors"""
    p = D.massive("p")
    p._r_sp_d = p._r_sp_u = p._l_sp_d = p._l_sp_u = None
    M = p.r2_sp.copy()
    p.angles_for_squares()
    D.eq("momentum transposed", p.r2_sp, sp.T(M))
    D.eq("lower index", p.r2_sp_b, sp.adj(sp.T(M)))
    D.true("still no spinors", p.r_sp_d is None and p.l_sp_d is None)
    p.angles_for_squares()
    D.eq("twice", p.r2_sp, M)


def point(D, n, massive=(), same=()):
    oPs = D.point(n, massive=massive, conserve=not (massive or same))
    with D.setup():
        for i, j in same:                                            # two legs with the same momentum
            oPs[j] = copy.deepcopy(oPs[i])
    s = sp.Snap(oPs)
    was = [snapshot(oPs[i]) for i in range(1, n + 1)]
    f = Flipped(s)
    light = [i for i in range(1, n + 1) if i not in massive]
    oPs.angles_for_squares()
    for i in light:
        for j in light:
            D.eq(f"⟨{i}|{j}⟩ -> -[{i}|{j}]", oPs(f"⟨{i}|{j}⟩"), -sp.sqr(s, i, j))
            D.eq(f"[{i}|{j}] -> -⟨{i}|{j}⟩", oPs(f"[{i}|{j}]"), -sp.ang(s, i, j))
            for k in range(1, n + 1):
                e = f"⟨{i}|{k}|{j}]"
                D.eq(f"{e} reversed", oPs(e), sp.chain(s, j, [str(k)], i, "a")[0, 0])
                D.eq(f"{e} -> [{i}|{k}|{j}⟩", oPs(e), sp.chain(s, i, [str(k)], j, "s")[0, 0])
    a = [str(x) for x in range(1, n + 1)]
    for (i, j) in itertools.combinations(range(1, n + 1), 2):
        D.eq(f"s_{i}{j}", oPs(f"s_{i}{j}"), sp.mand(s, (i, j)))
        D.eq(f"tr({i}|{j})", oPs(f"tr({i}|{j})"), sp.tr(sp.mm(s.low[i], s.up[j])))
    if n >= 4:
        D.eq("s_123", oPs("s_123"), sp.mand(s, (1, 2, 3)))
        D.eq("tr5 odd", oPs("tr5_1234"), -spec_tr5(s, "1", "2", "3", "4"))
        D.eq("tr5 odd, sums", oPs("tr5(1+2|2|3|4-1)"), -spec_tr5(s, "1+2", "2", "3", "4-1"))
        D.eq("chiral trace -> the other chirality", oPs("tr(1|2|3|4)"), sp.tr(sp.mm(sp.mm(s.up[1], s.low[2]), sp.mm(s.up[3], s.low[4]))))
        D.eq("Gram", oPs("Δ_12|3|" + "".join(a[3:])), sp.gram(s, [(1, 2), (3,), tuple(range(4, n + 1))]))
    for k in range(1, n + 1):
        D.eq(f"leg {k} momentum", oPs[k].r2_sp, f.up[k])
        coherent(D, f"leg {k}", oPs[k], k not in massive)
    if not massive and not same:
        on_shell_and_conserved(D, "after flip", oPs)
    oPs.angles_for_squares()
    for i, w in enumerate(was):
        unchanged(D, f"twice: leg {i + 1}", oPs[i + 1], w)


def fermion(D, pos, val):
    """massive fermion: spinors stay a factorisation of the (transposed) momentum, with spin indices contracted by epsilon"""
    oPs = D.point(6)
    value = all if val == "all" else val
    c = oPs.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, pos, value),))
    p = c[3]
    r, l, P = p.r_sp_d.copy(), p.l_sp_d.copy(), p.r2_sp_b.copy()
    E = D.arr([[D.zero(), D.const(1)], [D.const(-1), D.zero()]])
    if val == "all":
        D.eq("before: P = |I> eps [I|", sp.mm(sp.mm(r, E), l), P)
    p.angles_for_squares()
    D.eq("momentum transposed", p.r2_sp_b, sp.T(P))
    D.eq("upper momentum", p.r2_sp, sp.adj(sp.T(P)))
    if val == "all":
        D.eq("after: P = |I> eps [I|", sp.mm(sp.mm(p.r_sp_d, E), p.l_sp_d), sp.T(P))
    D.eq("spinors exchanged up to the spin-index sign", [p.r_sp_d, p.l_sp_d], [sp.T(l), sp.mscale(sp.T(r), -1)] if pos == "u" else [sp.mscale(sp.T(l), -1), sp.T(r)])
    D.eq("raised |>", p.r_sp_u, sp.T(sp.mm(E, p.r_sp_d)))
    D.eq("raised [|", p.l_sp_u, sp.T(sp.mm(p.l_sp_d, sp.T(E))))
    D.same("spin index kept", p.spin_index, (pos, value))
    p.angles_for_squares()
    D.eq("twice: momentum", p.r2_sp_b, P)
    D.eq("twice: spinors up to a common sign", [p.r_sp_d, p.l_sp_d], [sp.mscale(r, -1), sp.mscale(l, -1)])


def cases(tier):
    q = tier == "quick"
    F = "finite field"
    T = ("Particle.angles_for_squares", "Particles.angles_for_squares", "Particle._sps_d_to_sps_u")
    out = []
    for kind in "lM":
        for conv in ("asymmetric", "symmetric"):
            for f in ALL:
                out.append(Case(f"leg {kind} {conv} {f}", "leg", dict(kind=kind, conv=conv), f, (f,), 2, target=T))
    out.append(Case("massive scalar", "scalar_leg", {}, F, ALL + ("rational",), 1, target=T))
    for n, m in ((3, ()), (4, ()), (5, ()), (6, ()), (4, (1,)), (5, (1, 2)), (6, (2, 5))) + (() if q else ((7, ()), (8, ()), (7, (7,)))):
        out.append(Case(f"point n={n} massive={m}", "point", dict(n=n, massive=m), F, ALL, 1, target=T, timeout=200))
    for n, m, same in ((3, (), ((1, 2),)), (4, (), ((1, 3),)), (5, (2, 4), ((2, 4), (1, 5)))):
        out.append(Case(f"coinciding legs n={n} massive={m} {same}", "point", dict(n=n, massive=m, same=same), F, ALL, 1, target=T, timeout=200))
    for pos in "ud":
        for val in ("all", 1, 2):
            out.append(Case(f"fermion {pos} {val}", "fermion", dict(pos=pos, val=val), F, ALL, 1, target=T + ("Particles.cluster",)))
    return out
