"""P24 polarisation contractions."""
import itertools
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["general position: the denominators <q i>, [i q] of the polarisation vectors do not vanish (documented singular reference choices excluded)",
               "complex field only (the code normalises with the complex square root of two); sqrt(2) is characterised by its square",
               "helicity strings: one character per leg, spelled + p - m; containers str, tuple and list"]
PLUS, MINUS = ("+", "p"), ("-", "m")


def kin(D, n, hel, massive=()):
    o = D.point(n, massive=massive)
    with D.setup():
        o.oRefVec = Particle((D.col("q"), D.row("qt")), field=D.field)
    o.helconf = hel
    q = o.oRefVec
    for i in range(1, n + 1):
        if i not in massive:
            D.nonzero(angq(q, o[i]))
            D.nonzero(sqrq(o[i], q))
    return o


def angq(a, b):
    """<a b> from the lower-index spinors"""
    return a.r_sp_d[1, 0] * b.r_sp_d[0, 0] - a.r_sp_d[0, 0] * b.r_sp_d[1, 0]


def sqrq(a, b):
    """[a b]"""
    return a.l_sp_d[0, 0] * b.l_sp_d[0, 1] - a.l_sp_d[0, 1] * b.l_sp_d[0, 0]


def root2(D):
    if D.symbolic:
        return D.sqrt(D.const(2))
    import mpmath
    return mpmath.sqrt(2)


def polarisation(D, o, i, plus):
    """independent definition: the polarisation vector as a rank-two spinor P^{ad a},  eps+ = sqrt2 |i]<q|/<q i>,  eps- = sqrt2 |q]<i|/[i q]"""
    q, p, s2 = o.oRefVec, o[i], root2(D)
    if plus:
        den, M = angq(q, p), sp.P_up(q.r_sp_d, p.l_sp_d)
    else:
        den, M = sqrq(p, q), sp.P_up(p.r_sp_d, q.l_sp_d)
    return sp.mscale(M, s2 / den)


def vdot(A, B):
    """a.b = tr(A^{..} B_{..})/2 for rank-two spinors with upper indices"""
    return sp.tr(sp.mm(A, sp.adj(B))) / 2


def is_plus(h):
    return h in PLUS


def contractions(D, n, hel, massive=()):
    o = kin(D, n, hel, massive)
    snaps = [snapshot(o[i]) for i in range(1, n + 1)] + [snapshot(o.oRefVec)]
    eps = {i: polarisation(D, o, i, is_plus(hel[i - 1])) for i in range(1, n + 1) if i not in massive}
    for i in eps:
        for j in range(1, n + 1):
            v = o.ep(i, j)
            D.eq(f"{hel}: eps_{i}.p_{j} by definition", v, vdot(eps[i], o[j].r2_sp))
            D.eq(f"{hel}: p_{j}.eps_{i} is the same", o.pe(j, i), v)
            if i == j:
                D.eq(f"{hel}: eps_{i} transverse to its momentum", v, D.zero())
            elif j in eps:
                w = o.ee(i, j)
                D.eq(f"{hel}: eps_{i}.eps_{j} symmetric", o.ee(j, i), w)
                if is_plus(hel[i - 1]) == is_plus(hel[j - 1]):
                    D.eq(f"{hel}: equal helicities {i},{j} contract to zero", w, D.zero())
                else:
                    D.eq(f"{hel}: eps_{i}.eps_{j} by definition", w, vdot(eps[i], eps[j]))
    for k in range(n):
        unchanged(D, f"leg {k + 1}", o[k + 1], snaps[k])
    unchanged(D, "reference", o.oRefVec, snaps[n])
    D.true("helicities untouched", o.helconf == hel)


def reference(D, hel):
    """a leg along the reference vector, in any little-group frame"""
    o = kin(D, 2, hel)
    with D.setup():
        s, t = D.scalar("s"), D.scalar("t")
        q = o.oRefVec
        o[2] = Particle((q.r_sp_d * s, q.l_sp_d * t), field=D.field)
    D.eq("eps.q vanishes", o.ep(1, 2), D.zero())
    D.eq("q.eps vanishes", o.pe(2, 1), D.zero())


def linear(D, hel):
    o = kin(D, 3, hel, massive=(2, 3))
    a, b = D.scalar("a"), D.scalar("b")
    with D.setup():
        M = sp.madd(sp.mscale(o[2].r2_sp, a), sp.mscale(o[3].r2_sp, b))
        v2, v3 = o.ep(1, 2), o.ep(1, 3)
        o[2] = Particle(M, field=D.field)
    D.eq("linear in the momentum", o.ep(1, 2), a * v2 + b * v3)


def gauge(D, hel):
    """another reference vector: the contractions move by a multiple of the momentum, the same for every contracted vector"""
    o = kin(D, 3, hel, massive=(2, 3))
    a = [o.ep(1, j) for j in (1, 2, 3)]
    with D.setup():
        old = o.oRefVec
        o.oRefVec = Particle((D.col("w"), D.row("wt")), field=D.field)
    q = o.oRefVec
    D.nonzero(angq(q, o[1]))
    D.nonzero(sqrq(o[1], q))
    b = [o.ep(1, j) for j in (1, 2, 3)]
    num, d1, d2 = (angq(old, q), angq(q, o[1]), angq(old, o[1])) if is_plus(hel[0]) else (sqrq(q, old), sqrq(o[1], q), sqrq(o[1], old))
    c = root2(D) * num / (d1 * d2)
    for k, j in enumerate((1, 2, 3)):
        D.eq(f"shift of eps.p_{j} is a multiple of p.p_{j}", b[k] - a[k], c * vdot(o[1].r2_sp, o[j].r2_sp))
    D.eq("ratio of shifts", (b[1] - a[1]) * vdot(o[1].r2_sp, o[3].r2_sp), (b[2] - a[2]) * vdot(o[1].r2_sp, o[2].r2_sp))


def littlegroup(D, hel):
    """rescaling the frame of the reference vector changes nothing"""
    o = kin(D, 3, hel)
    vals = [o.ep(i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + [o.ee(i, j) for i in (1, 2, 3) for j in (1, 2, 3) if i != j]
    s, t = D.scalar("s"), D.scalar("t")
    D.nonzero(s)
    D.nonzero(t)
    with D.setup():
        q = o.oRefVec
        o.oRefVec = Particle((q.r_sp_d * s, q.l_sp_d * t), field=D.field)
    new = [o.ep(i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + [o.ee(i, j) for i in (1, 2, 3) for j in (1, 2, 3) if i != j]
    D.eq("independent of the frame of the reference vector", new, vals)


def cases(tier):
    T = ("Particles_Compute.ep", "Particles_Compute.pe", "Particles_Compute.ee")
    kw = dict(fname="mpc", real=("mpc",), seeds=1, target=T)
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for hel in itertools.product("+-pm", repeat=n):
            if n == 4 and len(set(hel)) < 3:
                continue
            h = "".join(hel)
            out.append(Case(f"contractions {h}", "contractions", dict(n=n, hel=h), **kw))
    for hel in (("+", "-", "p", "m"), ["m", "p", "-", "+", "p"]):
        out.append(Case(f"contractions {hel}", "contractions", dict(n=len(hel), hel=hel), **kw))
    for h in ("+-++", "-+mp", "pmpm"):
        out.append(Case(f"contractions with a massive leg {h}", "contractions", dict(n=4, hel=h, massive=(4,)), **kw))
    for h in "+-pm":
        for g in "+-":
            out.append(Case(f"reference leg {h}{g}", "reference", dict(hel=h + g), **kw))
        out.append(Case(f"linear {h}", "linear", dict(hel=h + "++"), **kw))
        out.append(Case(f"gauge shift {h}", "gauge", dict(hel=h + "++"), **kw))
    for h in ("+-+", "mpm", "++-", "pp-"):
        out.append(Case(f"reference frame {h}", "littlegroup", dict(hel=h), **kw))
    return out
