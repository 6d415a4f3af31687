"""P09 images of points under relabelling and conjugation."""
import itertools
import os
import random
import re
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["permutations are enumerated: all of them for n = 3, 4 (and 5 without conjugation), seeded samples up to n = 9; kinematics universally quantified",
               "string permutations have one digit per leg, hence at most nine legs"]
EXPRS = {3: ["⟨1|2⟩", "[2|3]", "⟨1|2|3]", "s_12", "tr(1|2|3|1+2)", "|1⟩", "⟨2|", "[3|", "|1]"],
         4: ["⟨1|2⟩", "[3|4]", "⟨1|2+3|4]", "[1|2|3|4]", "s_13", "s_123", "tr(1|2|3|4)", "tr5_1234", "Δ_12|3|4", "⟨1|2⟩[2|3]/⟨3|4⟩-s_14", "|2⟩[3|", "|1+2|3⟩"],
         5: ["⟨1|5⟩", "[3|4]", "⟨1|2+5|4]", "s_13", "s_345", "tr5(1|2+3|4|5)", "Δ_12|34|5", "⟨1|2⟩⟨3|5⟩/[4|5]"],
         6: ["⟨1|6⟩", "[3|5]", "⟨1|2+5|4]", "⟨1|2+5|6+3|4⟩", "s_136", "tr5(1|2+3|4|6)", "Δ_12|34|56", "⟨1|2⟩⟨3|5⟩/[4|6]"],
         9: ["⟨1|9⟩", "[8|5]", "⟨1|2+7|4]", "s_136", "tr5(9|2+3|4|6)", "⟨7|2⟩⟨3|9⟩/[4|8]"]}


def relabel(e, f):
    return re.sub(r"tr5|\d", lambda m: m.group(0) if m.group(0) == "tr5" else str(f[int(m.group(0))]), e)


class Conj(sp.Snap):
    """the conjugated kinematics: |i> <-> transposed [i|, P -> P^T"""

    def __init__(self, s, f):
        self.n = s.n
        self.r = {f[i]: None if s.l[i] is None else sp.T(s.l[i]) for i in s.r}
        self.l = {f[i]: None if s.r[i] is None else sp.T(s.r[i]) for i in s.r}
        self.up = {f[i]: sp.T(s.up[i]) for i in s.r}
        self.low = {f[i]: sp.T(s.low[i]) for i in s.r}


def same_point(D, tag, a, b):
    D.true(f"{tag}: multiplicity", len(a) == len(b), (len(a), len(b)))
    for k in range(1, len(b) + 1):
        for nm in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d"):
            D.eq(f"{tag}: leg {k} {nm}", getattr(a[k], nm), getattr(b[k], nm))


def build(D, n, massive=(), coincide=False):
    oPs = D.point(n, massive=massive)
    if coincide:
        # leg 2 has the momentum of leg 1, in another little-group frame
        with D.setup():
            t = D.scalar("frame")
            D.nonzero(t)
            oPs[2].r_sp_d = sp.mscale(oPs[1].r_sp_d, t)
            oPs[2].l_sp_d = sp.mscale(oPs[1].l_sp_d, D.const(1) / t)
    return oPs


def image(D, n, perms, conj, massive=(), coincide=False, kinds=("tuple", "str")):
    oPs = build(D, n, massive, coincide)
    oPs.m_t = D.scalar("mt")
    oPs.mh2 = "s_12"
    s = sp.Snap(oPs)
    ref = snapshot(oPs.oRefVec)
    st = [snapshot(oPs[i]) for i in range(1, n + 1)]
    light = [e for e in EXPRS[n] if not massive or e.startswith(("s_", "tr", "Δ"))]
    for perm in perms:
        f = {i + 1: int(c) for i, c in enumerate(perm)}              # leg i is renamed f(i)
        for kind in kinds:
            if kind == "str" and conj:
                continue
            img = oPs.image(perm if kind == "str" else (perm, conj))
            tag = f"{perm}{' conj' if conj else ''} {kind}"
            D.true(f"{tag}: type", isinstance(img, Particles), type(img))
            D.true(f"{tag}: multiplicity and field", len(img) == n and img.field == oPs.field, (len(img), img.field))
            t = Conj(s, f) if conj else None
            for i in range(1, n + 1):
                q = img[f[i]]
                if conj:
                    D.eq(f"{tag}: leg {i} momentum", q.r2_sp, t.up[f[i]])
                    D.eq(f"{tag}: leg {i} |>", q.r_sp_d, t.r[f[i]])
                    D.eq(f"{tag}: leg {i} [|", q.l_sp_d, t.l[f[i]])
                else:
                    unchanged(D, f"{tag}: leg {i} moves to {f[i]}", q, st[i - 1])
                coherent(D, f"{tag}: leg {f[i]}", q, massless=i not in massive)
            if not conj:
                for e in light:
                    D.eq(f"{tag}: {relabel(e, f)} on the image = {e} on the point", img(relabel(e, f)), oPs(e))
                inv = {v: k for k, v in f.items()}
                for e in light[:3]:
                    D.eq(f"{tag}: image evaluates {e} as the relabelled expression on the point", img(e), oPs(relabel(e, inv)))
            else:
                for i in range(1, n + 1):
                    for j in range(1, n + 1):
                        if i == j or i in massive or j in massive:
                            continue
                        D.eq(f"{tag}: ⟨⟩ -> -[]", img(f"⟨{f[i]}|{f[j]}⟩"), -sp.sqr(s, i, j))
                        D.eq(f"{tag}: [] -> -⟨⟩", img(f"[{f[i]}|{f[j]}]"), -sp.ang(s, i, j))
                for e in light:
                    if e.startswith(("s_", "Δ")):
                        D.eq(f"{tag}: {e}", img(relabel(e, f)), oPs(e))
                    if e.startswith("tr5"):
                        D.eq(f"{tag}: {e}", img(relabel(e, f)), -oPs(e))
            D.eq(f"{tag}: mass", img.m_t, oPs.m_t)
            D.true(f"{tag}: mass registry", img.internal_masses == {"m_t", "mh2"} and img.mh2 == "s_12", img.internal_masses)
            unchanged(D, f"{tag}: reference vector", img.oRefVec, ref)
    for i, x in enumerate(st):
        unchanged(D, f"original leg {i + 1}", oPs[i + 1], x)
    D.true("original keeps its masses", oPs.internal_masses == {"m_t", "mh2"}, oPs.internal_masses)


def compose(D, n, pairs, massive=()):
    from lips.symmetries import inverse, identity
    oPs = build(D, n, massive)
    for (p, cp_), (q, cq) in pairs:
        f = {i + 1: int(c) for i, c in enumerate(p)}
        g = {i + 1: int(c) for i, c in enumerate(q)}
        pq = "".join(str(g[f[i]]) for i in range(1, n + 1))
        two = oPs.image((p, cp_)).image((q, cq))
        one = oPs.image((pq, cp_ != cq))
        same_point(D, f"image by {p},{cp_} then {q},{cq}", two, one)
        same_point(D, f"inverse undoes {p},{cp_}", oPs.image((p, cp_)).image(inverse((p, cp_))), oPs)
        same_point(D, f"{p},{cp_} undoes its inverse", oPs.image(inverse((p, cp_))).image((p, cp_)), oPs)
    same_point(D, "identity", oPs.image(identity(n)), oPs)


def conserved(D, n, perms):
    oPs = D.point(n, conserve=True)
    for p in perms:
        for c in (False, True):
            img = oPs.image((p, c))
            on_shell_and_conserved(D, f"{p} {c}", img)


def rejected(D):
    oPs = D.point(4)
    for bad in ("1 23", "12a4", "", "-123"):
        try:
            oPs.image(bad)
        except ValueError:
            D.true(f"{bad!r} rejected", True)
        else:
            D.true(f"{bad!r} rejected", False)


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 17 + 9)
    T = ("Particles.image", "Particles.angles_for_squares", "Particle.angles_for_squares", "symmetries.inverse", "symmetries.identity", "Particles_Compute.compute")
    F = "finite field"
    out = []

    def perms(n, k=None):
        base = "".join(map(str, range(1, n + 1)))
        if k is None:
            return ["".join(p) for p in itertools.permutations(base)]
        return ["".join(rng.sample(base, n)) for _ in range(k)]
    for n in (3, 4, 5, 6, 9):
        ps = perms(n) if n < 5 or (n == 5 and not q) else perms(n, 40 if n == 5 else (12 if n == 6 else 8) * (1 if q else 6))
        for c in range(0, len(ps), 6):
            for conj in (False, True):
                out.append(Case(f"image n={n} conj={conj} #{c // 6}", "image", dict(n=n, perms=ps[c:c + 6], conj=conj), F, ALL if c == 0 else (ALL[(c // 6) % 3],), 1, target=T, timeout=120))
    for m in ((1,), (2, 4), (1, 2, 3, 4)):
        for conj in (False, True):
            out.append(Case(f"image massive={m} conj={conj}", "image", dict(n=4, perms=perms(4, 8), conj=conj, massive=m), F, ALL, 1, target=T, timeout=120))
    for conj in (False, True):
        out.append(Case(f"coinciding momenta conj={conj}", "image", dict(n=4, perms=perms(4, 10), conj=conj, coincide=True), F, ALL, 1, target=T, timeout=120))
        out.append(Case(f"coinciding momenta n=6 conj={conj}", "image", dict(n=6, perms=perms(6, 4), conj=conj, coincide=True), F, ALL, 1, target=T, timeout=120))
    for n in (3, 4, 5, 7):
        for m in ((), (1,)):
            for r in range(2 if q else 8):
                pairs = [((a, rng.random() < .5), (b, rng.random() < .5)) for a, b in zip(perms(n, 6), perms(n, 6))]
                out.append(Case(f"composition n={n} massive={m} #{r}", "compose", dict(n=n, pairs=pairs, massive=m), F, ALL, 1, target=T))
    for n in (4, 5, 6):
        out.append(Case(f"image keeps conservation n={n}", "conserved", dict(n=n, perms=perms(n, 3)), F, ALL, 1, target=T))
    out.append(Case("rejected", "rejected", {}, F, (F,), 1, target=T))
    return out
