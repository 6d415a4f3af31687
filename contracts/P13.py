"""P13 setting one invariant."""
import contextlib
import io
import itertools
import json
import os
import random
from .common import *                                              # noqa
from lips.tools import myException
from vc.sym import Unsupported

LEVEL = "proof"
ASSUMPTIONS = ["the verifying wrapper _set is proved for an arbitrary effect of the construction it calls (_set_inner is replaced by its weakest contract: any point or an exception)",
               "constructions are proved on light-like points in general position (every divisor of the construction non-zero); targets and kinematics universally quantified",
               "square roots: sqrt(x)^2 = x (in a finite field the root may live in the quadratic extension)"]
HERE = os.path.dirname(os.path.abspath(__file__))
INVS = {int(k): v for k, v in json.load(open(os.path.join(HERE, "data", "invariants.json"))).items()}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


SCENARIOS = ("arbitrary", "physical, value right", "physical, value wrong", "not conserved, value right", "massive leg, conserved, value right", "physical, value nearly right", "physical, value right up to sign", "only the first leg massive, value right", "raises")


def havoc(D, oPs, inv, scenario):
    """an arbitrary effect of the construction; the real-field interpretation needs concrete scenarios"""
    n = len(oPs)
    new = D.point(n) if scenario in ("arbitrary", "not conserved, value right") else D.point(n, conserve=True)
    if scenario == "only the first leg massive, value right":
        with D.setup():
            new = D.point(n, massive=(1,), conserve=True)
            return [oPs.__setitem__(i, new[i]) for i in range(1, n + 1)] and None
    if scenario == "massive leg, conserved, value right":
        # the last leg gives up being light-like: q off the light cone is moved from leg n-1 to leg n
        with D.setup():
            new = D.point(n, massive=(n - 1, n))
            tot = sp.comb({i: new[i].r2_sp for i in range(1, n)}, "+".join(str(i) for i in range(1, n)))
            new[n].r2_sp = sp.mscale(tot, -1)
    if D.symbolic and scenario == "arbitrary":
        # no leg is known to be light-like, nothing is known about the total momentum
        new = D.point(n, massive=tuple(range(n - 1, n + 1)))
    for i in range(1, n + 1):
        oPs[i] = new[i]


def nearly(D):
    """a deviation beyond the tolerance, but not by much"""
    if D.symbolic or D.fname == "finite field":
        return D.scalar("dX")
    if D.fname == "mpc":
        import mpmath
        return mpmath.mpf(10) ** -280
    return D.field(D.field.characteristic) ** 3


def wrapper(D, n, inv, scenario, fix_mom=True):
    """{true} _set(inv, X) {returns => |inv - X| <= tol /\ total momentum ~ 0 /\ masses ~ 0;  raises => one of them fails}"""
    with convention("asymmetric"):
        oPs = D.point(n)
        X = [D.scalar("X")]
        seen = []

        def inner(*a, **k):
            seen.append(a)
            if scenario == "raises":
                raise myException("cannot be reached")
            havoc(D, oPs, inv, scenario)
        if "right" in scenario:
            # first pass: find the value the havocked point gives, then ask for exactly that one
            havoc(D, oPs, inv, scenario)
            X[0] = sp.value(sp.Snap(oPs), inv)
            if "nearly" in scenario:
                X[0] = X[0] + nearly(D)
            if "up to sign" in scenario:
                X[0] = -X[0]
            frozen = [oPs[i] for i in range(1, n + 1)]

            def inner(*a, **k):                                    # noqa
                seen.append(a)
                for i in range(1, n + 1):
                    oPs[i] = frozen[i - 1]
        with D.stub(oPs, "_set_inner", inner):
            err = None
            try:
                quiet(oPs._set, inv, X[0], fix_mom)
            except Unsupported:
                raise
            except Exception as e:
                err = e
        s = sp.Snap(oPs)
        ok = D.f_le_tol(sp.value(s, inv) - X[0])
        mom = [D.f_le_tol(x) for x in sp.flat(sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1))))]
        shell = [D.f_le_tol(sp.det2(s.up[i])) for i in range(1, n + 1)]
        post = D.f_and(ok, *(mom + shell)) if fix_mom else ok
        D.true("multiplicity", len(oPs) == n, len(oPs))
        if scenario == "raises" and seen:
            D.true("an error of the construction is passed on, unless the point is the requested one", err is not None or post)
        elif err is None:
            D.true("normal return => value reached, momentum conserved, on shell", post)
        else:
            D.true("error => the point is not the requested one", D.f_not(post), err)


def setter(D, n, inv, mode=1, conserve=False, legs=None, zero=False, must=True):
    """construction + wrapper: the target is reached on every point in general position (must), or an error is raised"""
    with convention("asymmetric"):
        if legs is None:
            oPs = D.point(n, conserve=conserve)
        X = D.zero() if zero else D.scalar("X")
        try:
            quiet(oPs._set, inv, X, mode=mode)
        except Exception as e:
            if must:
                raise
            D.true(f"{inv} refused with an error", True, e)
            return
        s = sp.Snap(oPs)
        D.true("multiplicity", len(oPs) == n and type(oPs) is Particles, len(oPs))
        if must:
            D.eq(f"{inv} has the requested value", sp.value(s, inv), X)
            on_shell_and_conserved(D, inv, oPs)
        else:
            D.true(f"{inv} has the requested value", D.f_le_tol(sp.value(s, inv) - X))
            D.true("momentum conserved", D.f_and(*[D.f_le_tol(x) for x in sp.flat(sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1))))]))
            D.true("on shell", D.f_and(*[D.f_le_tol(sp.det2(s.up[i])) for i in range(1, n + 1)]))


def bracket_frame(D, n, inv, conserve=False):
    """documented frame of the two-brackets: the bra of the first leg and all legs but the second and the two repaired ones are untouched"""
    with convention("asymmetric"):
        oPs = D.point(n, conserve=conserve)
        a, b = int(inv[1]), int(inv[3])
        rest = [i for i in range(1, n + 1) if i not in (a, b)]
        st = {i: snapshot(oPs[i]) for i in range(1, n + 1)}
        X = D.scalar("X")
        quiet(oPs._set, inv, X)
        D.eq("value", sp.value(sp.Snap(oPs), inv), X)
        for i in [a] + rest[2:]:
            unchanged(D, f"leg {i}", oPs[i], st[i])
        if inv[0] == "⟨":
            D.eq("[b| untouched", oPs[b].l_sp_d, st[b][2])
        else:
            D.eq("|b> untouched", oPs[b].r_sp_d, st[b][0])
        on_shell_and_conserved(D, inv, oPs)


def on_field(D, n, invs, orders=(0,), must=True):
    """every listed letter, on the real fields, for generic and for small targets"""
    for inv in invs:
        with D.setup():
            oPs = Particles(n, field=D.field, seed=D.seed + len(inv))
        for k in orders:
            X = D.field(0)
            if k == "generic":
                X = D.scalar("X")
            elif k == "small":
                X = D.field(D.field.characteristic) * 3 if D.fname == "padic" else (D.field("1e-20") if D.fname == "mpc" else D.field(7))
            try:
                quiet(oPs._set, inv, X)
            except Exception as e:
                if must:
                    raise
                D.true(f"{inv} refused with an error", True, e)
                break
            s = sp.Snap(oPs)
            D.true(f"{inv}: multiplicity", len(oPs) == n)
            tol(D, f"{inv} -> {k}", sp.value(s, inv) - X)
            tot = sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1)))
            for j, x in enumerate(sp.flat(tot)):
                tol(D, f"{inv} -> {k}: total momentum {j}", x)
            for i in range(1, n + 1):
                tol(D, f"{inv} -> {k}: leg {i} light-like", sp.det2(s.up[i]))


def tol(D, name, x):
    if D.fname == "mpc":
        import mpmath
        ok = abs(x) <= mpmath.mpf(10) ** -200
    elif D.fname == "padic":
        ok = x == 0
    else:
        ok = x == 0
    D.true(name, bool(ok), f"{x!s:.120}")


def any_chain(rng, n):
    """a well-formed chain that need not be among the generated letters: any head, tail and slashed sums"""
    L = list(range(1, n + 1))
    m = rng.choice((1, 1, 2, 2, 2, 3))
    o = rng.choice("⟨[")
    disjoint = rng.random() < .5
    pool = rng.sample(L, n)
    mids = []
    h, t = rng.choice(L), rng.choice(L)
    if disjoint:
        h, t = pool[0], pool[-1]
        pool = pool[1:-1]
    for j in range(m):
        k = rng.choice((1, 2, 2, 3))
        if disjoint and len(pool) >= k:
            mids.append(pool[:k])
            pool = pool[k:]
        else:
            mids.append(rng.sample(L, k))
    close = "⟩" if (o == "⟨") == (m % 2 == 0) else "]"
    return f"{o}{h}|" + "|".join("(" + "+".join(map(str, x)) + ")" for x in mids) + f"|{t}{close}"


def any_letter(rng, n):
    k = rng.random()
    L = list(range(1, n + 1))
    if k < .6:
        return any_chain(rng, n)
    if k < .8:
        return "s_" + "".join(map(str, rng.sample(L, rng.choice((2, 3, 3)))))
    if k < .9:
        return "tr5_" + "".join(map(str, rng.sample(L, 4)))
    x = rng.sample(L, n)
    c = sorted(rng.sample(range(1, n), 2))
    return "Δ_" + "|".join("".join(map(str, b)) for b in (x[:c[0]], x[c[0]:c[1]], x[c[1]:]))


def family(inv):
    return "".join(ch for ch in inv if not ch.isdigit())


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 23 + 13)
    F = "finite field"
    W = ("Particles_Set._set", "Particles.momentum_conservation_check", "Particles.onshell_relation_check", "Particles_Compute.compute")
    out = []
    for n, inv in ((4, "⟨1|2⟩"), (5, "[2|4]"), (5, "⟨1|(2+3)|4]"), (5, "tr5_1234"), (6, "s_123"), (6, "Δ_135"), (6, "Π_351"), (6, "Ω_351"), (6, "[1|(2+3)|(4+5)|6]"), (6, "(⟨2|3|5+6|1|2]-⟨3|4|5+6|1|3])"),
                   (7, "⟨1|2⟩"), (7, "[1|(2+3)|4⟩"), (8, "s_123"), (8, "[3|7]"), (9, "⟨1|9⟩"), (9, "s_1234")):
        for sc in SCENARIOS:
            for f in ALL if q is False or n < 6 else (F, "mpc") if n == 6 else (ALL[len(out) % 3],):
                out.append(Case(f"wrapper {inv} n={n} {sc} {f}", "wrapper", dict(n=n, inv=inv, scenario=sc), f, (f,), 2, target=W, timeout=60, max_paths=1200))
        out.append(Case(f"wrapper {inv} n={n} fix_mom=False", "wrapper", dict(n=n, inv=inv, scenario="arbitrary", fix_mom=False), F, ALL, 1, target=W, timeout=60, max_paths=1200))
    T = ("Particles_Set._set", "Particles_Set._set_inner", "Particles.fix_mom_cons", "Particles._complementary")
    for n in (4, 5, 6):
        pairs = list(itertools.permutations(range(1, n + 1), 2))
        for a, b in (pairs if n < 6 else rng.sample(pairs, 8)):
            for inv, t in ((f"⟨{a}|{b}⟩", "Particles_Set._set_A2"), (f"[{a}|{b}]", "Particles_Set._set_S2")):
                out.append(Case(f"bracket {inv} n={n}", "bracket_frame", dict(n=n, inv=inv), F, (ALL[len(out) % 3],), 1, target=T + (t,), timeout=60))
    fams = {}
    for n in (5, 6, 7):
        for inv in INVS[n]:
            fams.setdefault((n, family(inv)), []).append(inv)
    TT = {"s_": "_set_Sijk", "Δ_": "_set_Dijk", "Δ_||": "_set_Dijk", "Ω_": "_set_Oijk", "Π_": "_set_Pijk", "tr_": "_set_tr5"}
    for (n, fam), L in sorted(fams.items()):
        if fam in ("⟨|⟩", "[|]"):
            continue
        t = T + ("Particles_Set." + TT.get(fam, "_set_NB"),)
        pick = L if not q else rng.sample(L, min(len(L), {5: 40, 6: 16, 7: 4}[n]))
        if q and n == 7 and fam == "⟨|(+)|(+)|(+)|]":
            pick = pick[:1]
        for inv in pick:
            out.append(Case(f"set {inv} n={n}", "setter", dict(n=n, inv=inv, conserve=needs_conservation(n, inv)), F, (ALL[len(out) % 3],), 1, target=t, timeout=120 if q else 600, max_paths=60))
        modes = {"Δ_": (2, 3, 4), "Δ_||": (2, 3, 4), "s_": (2,)}.get(fam, (2,) if fam[0] in "⟨[" else ())
        for mode in modes:
            for inv in rng.sample(L, min(len(L), 2 if q else 8)):
                out.append(Case(f"set {inv} n={n} mode={mode}", "setter", dict(n=n, inv=inv, conserve=needs_conservation(n, inv), mode=mode), F, (ALL[len(out) % 3],), 1, target=t, timeout=60 if q else 600, max_paths=60))
    for inv in ("(⟨2|3|5+6|1|2]-⟨3|4|5+6|1|3])", "(⟨3|2|5+6|4|3]-⟨2|1|5+6|4|2])"):
        out.append(Case(f"set {inv}", "setter", dict(n=6, inv=inv, conserve="angle"), F, ALL, 1, target=T + ("Particles_Set._set_p5Bdiff",), timeout=60))
    for n, inv in ((7, "tr5(1|2+3|4|5)"), (7, "tr5(1+2|3|4|6)"), (8, "tr5(2|1+3|4+5|6)"), (7, "tr5(3|5+6|1|2)"), (6, "tr5_2135"), (6, "tr5(2|1|3|5)")):
        out.append(Case(f"set {inv} n={n}", "setter", dict(n=n, inv=inv), F, ALL, 1, target=T + ("Particles_Set._set_tr5",), timeout=60))
    # real fields: every letter with vanishing, small and generic targets, starting from lips' own random points
    for n in (4, 5, 6, 7):
        for f in ALL:
            L = INVS[n] if not q or f == F or n < 7 else rng.sample(INVS[n], 120)
            for c in range(0, len(L), 15):
                out.append(Case(f"every letter n={n} {f} #{c // 15}", "on_field", dict(n=n, invs=L[c:c + 15], orders=("generic", "small") if f != F else ("generic", "zero")), f, (f,), 1 if q else 3, deductive=False, target=T, timeout=300))
    # strings beyond the generated letters: reached, or refused
    for n in (5, 6, 7, 8):
        for k in range(25 if q else 120):
            inv = any_letter(rng, n)
            out.append(Case(f"set or refuse {inv} n={n}", "setter", dict(n=n, inv=inv, conserve=needs_conservation(n, inv), must=False), F, (ALL[k % 3],), 1, target=T, timeout=20 if q else 200, max_paths=60))
        for f in ALL:
            out.append(Case(f"any letter n={n} {f}", "on_field", dict(n=n, invs=[any_letter(rng, n) for _ in range(24 if q else 150)], orders=("generic", "small") if f != F else ("generic", "zero"), must=False), f, (f,), 1, deductive=False, target=T, timeout=300))
    out.append(Case("unreachable", "unreachable", {}, F, ALL, 1, deductive=False, target=T))
    return out


def unreachable(D):
    """what cannot be set is refused: the point is never returned with another value"""
    for n, inv in ((4, "s_12"), (5, "s_34"), (3, "⟨1|2⟩"), (4, "tr5_1234"), (3, "[1|2]"), (5, "tr5(1+2|3+4|2+3|4+5)")):
        with D.setup():
            oPs = Particles(n, field=D.field, seed=D.seed)
        try:
            quiet(oPs._set, inv, D.scalar("X"))
        except Exception as e:
            D.true(f"{inv} n={n} refused", type(e).__name__ != "Unsupported", e)
        else:
            D.true(f"{inv} n={n} refused", False, "returned normally")
    if D.field.name == "mpc":
        import mpmath
        for inv in ("⟨1|2⟩", "[2|5]", "s_123", "⟨1|(2+3)|4]", "tr5_1234", "Δ_135"):
            for x in (mpmath.mpc("nan"), mpmath.mpc(0, "nan"), mpmath.mpc("inf")):
                for fix in (True, False):
                    with D.setup():
                        oPs = Particles(6, field=D.field, seed=D.seed)
                    try:
                        quiet(oPs._set, inv, x, fix_mom=fix)
                    except Exception as e:
                        D.true(f"{inv} = {x} refused", True, e)
                    else:
                        D.true(f"{inv} = {x} refused", False, "returned normally")


def needs_conservation(n, inv):
    """chains without two free legs are rewritten with momentum conservation: only then is it a precondition"""
    if inv[0] not in "⟨[" or n - len({x for x in inv if x.isdigit()}) >= 2:
        return False
    return "square" if inv[0] == "⟨" else "angle"
