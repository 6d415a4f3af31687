"""P14 setting a pair of invariants."""
import itertools
import json
import os
import random
from .common import *                                              # noqa
from .P13 import quiet, havoc, nearly, family, any_letter, INVS
from lips.tools import myException
from vc.sym import Unsupported

LEVEL = "proof"
ASSUMPTIONS = ["the verifying wrapper _set_pair is proved for an arbitrary effect and return value of the construction it calls (_set_pair_inner)",
               "'at the requested value' means up to sign, as the wrapper documents; a construction may refuse a pair (exception), it may not return another point",
               "pairs proved symbolically are sampled per pair of families in the quick tier; the families documented as complete (brackets with brackets, brackets with Mandelstams and Gram letters, Mandelstams with Mandelstams) must also succeed"]

SCEN = ("arbitrary", "physical, value right", "physical, value wrong", "not conserved, value right", "massive leg, conserved, value right",
        "first nearly right", "second nearly right", "signs flipped", "both signs flipped", "only the first leg massive, value right", "not implemented", "raises", "exchanged")


def wrapper(D, n, a, b, scenario):
    with convention("asymmetric"):
        oPs = D.point(n)
        X = [D.scalar("X"), D.scalar("Y")]
        called = []
        if scenario in ("arbitrary", "not implemented", "raises", "physical, value wrong"):
            def inner(*args, **k):
                called.append(args)
                if scenario == "raises":
                    raise myException("cannot be reached")
                if scenario == "not implemented":
                    return "Not implemented."
                havoc(D, oPs, a, scenario)
                return None
        else:
            base = scenario if "value right" in scenario else "physical, value right"
            havoc(D, oPs, a, base)
            s = sp.Snap(oPs)
            X = [sp.value(s, a), sp.value(s, b)]
            if scenario == "first nearly right":
                X[0] = X[0] + nearly(D)
            if scenario == "second nearly right":
                X[1] = X[1] + nearly(D)
            if scenario == "signs flipped":
                X = [-X[0], X[1]]
            if scenario == "both signs flipped":
                X = [-X[0], -X[1]]
            if scenario == "exchanged":
                X = [X[1], X[0]]
            frozen = [oPs[i] for i in range(1, n + 1)]

            def inner(*args, **k):
                called.append(args)
                for i in range(1, n + 1):
                    oPs[i] = frozen[i - 1]
        err = None
        with D.stub(oPs, "_set_pair_inner", inner):
            try:
                quiet(oPs._set_pair, a, X[0], b, X[1])
            except Unsupported:
                raise
            except Exception as e:
                err = e
        s = sp.Snap(oPs)
        D.true("multiplicity", len(oPs) == n, len(oPs))
        near = [D.f_or(D.f_le_tol(v - x), D.f_le_tol(v + x)) for v, x in ((sp.value(s, a), X[0]), (sp.value(s, b), X[1]))]
        mom = [D.f_le_tol(x) for x in sp.flat(sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1))))]
        shell = [D.f_le_tol(sp.det2(s.up[i])) for i in range(1, n + 1)]
        post = D.f_and(*(near + mom + shell))
        if scenario in ("raises", "not implemented") and called:
            D.true("a refused pair raises, unless the point is the requested one", err is not None or post)
        elif err is None:
            D.true("normal return => both values reached up to sign, momentum conserved, on shell", post)
        else:
            D.true("error => the point is not the requested one", D.f_not(post), err)


def pair(D, n, a, b, must=False, conserve="square", same=False):
    """construction + wrapper on an arbitrary conserved light-like point and arbitrary targets"""
    with convention("asymmetric"):
        oPs = D.point(n, conserve=conserve)
        X = D.scalar("X")
        Y = X if same else D.scalar("Y")
        try:
            quiet(oPs._set_pair, a, X, b, Y)
        except (Unsupported, ZeroDivisionError):
            raise
        except Exception as e:
            D.true("the pair is reached", not must or isinstance(e, NotImplementedError), f"{type(e).__name__}: {e}")
            return
        s = sp.Snap(oPs)
        D.true("multiplicity", len(oPs) == n and type(oPs) is Particles, len(oPs))
        for inv, x in ((a, X), (b, Y)):
            v = sp.value(s, inv)
            D.true(f"{inv} at the requested value up to sign", D.f_or(D.f_le_tol(v - x), D.f_le_tol(v + x)), "")
        for x in sp.flat(sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1)))):
            D.true("momentum conserved", D.f_le_tol(x))
        for i in range(1, n + 1):
            D.true(f"leg {i} on shell", D.f_le_tol(sp.det2(s.up[i])))


def on_field(D, n, pairs):
    for k, (a, b, must) in enumerate(pairs):
        with D.setup():
            oPs = Particles(n, field=D.field, seed=D.seed + k)
        X, Y = D.scalar("X"), D.scalar("Y")
        if k % 2:
            small = D.field(D.field.characteristic) if D.fname == "padic" else (D.field("1e-28") if D.fname == "mpc" else D.field(0))
            X, Y = 3 * small, 5 * small
            if D.fname == "padic" and k % 4 == 3:
                Y = Y * small
        try:
            quiet(oPs._set_pair, a, X, b, Y)
        except Exception as e:
            D.true(f"{a}, {b}: reached", not must or isinstance(e, NotImplementedError), f"{type(e).__name__}: {e!s:.200}")
            continue
        s = sp.Snap(oPs)
        for inv, x in ((a, X), (b, Y)):
            v = sp.value(s, inv)
            D.true(f"{a}, {b}: {inv} at the requested value", small_(D, v - x) or small_(D, v + x), f"{v!s:.80} instead of {x!s:.80}")
        tot = sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1)))
        D.true(f"{a}, {b}: momentum conserved", all(small_(D, x) for x in sp.flat(tot)), tot)
        D.true(f"{a}, {b}: on shell", all(small_(D, sp.det2(s.up[i])) for i in range(1, n + 1)))


def not_a_number(D, a, b):
    """a target that is not a number is refused"""
    import mpmath
    for x in (mpmath.mpc("nan"), mpmath.mpc(0, "nan"), mpmath.mpc("inf")):
        for k in (0, 1):
            with D.setup():
                oPs = Particles(6, field=D.field, seed=D.seed)
                X = [oPs(a), oPs(b)]                                # the other one has its value already
            X[k] = x
            with D.stub(oPs, "_set_pair_inner", lambda *args, **kw: None):
                try:
                    quiet(oPs._set_pair, a, X[0], b, X[1])
                except Exception as e:
                    D.true(f"target {k} = {x} refused", True, e)
                else:
                    D.true(f"target {k} = {x} refused", False, "returned normally")


def small_(D, x):
    if D.fname == "mpc":
        import mpmath
        return bool(abs(x) <= mpmath.mpf(10) ** -150)
    return bool(x == 0)


def complete(n, A, B):
    """families documented as having no failing pair"""
    two = ("⟨|⟩", "[|]")
    if A in two and B in two:
        return True
    if n == 6 and ((A in two and B in ("s_", "Δ_")) or (B in two and A in ("s_", "Δ_"))):
        return True
    return n == 6 and A == "s_" and B == "s_"


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 29 + 14)
    F = "finite field"
    W = ("Particles_SetPair._set_pair", "Particles.momentum_conservation_check", "Particles.onshell_relation_check", "Particles_Compute.compute")
    out = []
    for n, a, b in ((4, "⟨1|2⟩", "⟨1|3⟩"), (5, "[2|4]", "⟨1|(2+3)|1]"), (6, "s_123", "⟨1|(2+3)|1]"), (6, "⟨1|2⟩", "Δ_135"), (6, "s_123", "s_345"), (7, "⟨1|2⟩", "[1|3]"), (8, "⟨1|(2+3)|4]", "s_567"), (9, "[1|9]", "⟨2|9⟩")):
        for sc in SCEN:
            for f in (ALL[len(out) % 3],) if n > 6 and q else ALL if not q else (F,) if sc == "arbitrary" and n != 5 else ALL if n < 6 else (F, "mpc"):
                if q and sc == "arbitrary" and (n == 6 and a != "s_123" or n > 7):
                    continue
                out.append(Case(f"wrapper {a} {b} n={n} {sc} {f}", "wrapper", dict(n=n, a=a, b=b, scenario=sc), f, (f,), 2, target=W, timeout=100, max_paths=4000))
    T = ("Particles_SetPair._set_pair", "Particles_SetPair._set_pair_inner", "Particles_Set._set", "Particles.fix_mom_cons")
    for n in (4, 5, 6):
        fams = {}
        for inv in INVS[n]:
            fams.setdefault(family(inv), []).append(inv)
        if n == 4:
            fams["[|]"] = [f"[{a}|{b}]" for a in range(1, 5) for b in range(1, 5) if a < b]
        usable = [f for f in fams if f[0] in "⟨[sΔ"]
        for A in usable:
            for B in usable:
                if n == 4:
                    continue
                allp = [(a, b) for a in fams[A] for b in fams[B] if a != b]
                k = (3 if A in ("⟨|⟩", "[|]") and B in ("⟨|⟩", "[|]") else 2 if n < 6 else 1) if q else 12
                must = complete(n, A, B)
                for a, b in rng.sample(allp, min(k, len(allp))):
                    cons = "angle" if a[0] == "[" or (a[0] not in "⟨[" and b[0] == "[") else "square"
                    out.append(Case(f"pair {a} {b} n={n}", "pair", dict(n=n, a=a, b=b, must=must, conserve=cons), F, (ALL[len(out) % 3],), 1, target=T + (ctor(A, B),), timeout=25 if q else 300, max_paths=60))
                for f in ALL:
                    k = (len(allp) if must and n < 6 else 60 if must else 10) if f == F else 4
                    L = [(a, b, must) for a, b in rng.sample(allp, min(k if q else 6 * k, len(allp)))]
                    out.append(Case(f"pairs {A} {B} n={n} {f}", "on_field", dict(n=n, pairs=L), f, (f,), 1 if q else 2, deductive=False, target=T + (ctor(A, B),), timeout=200))
    # strings beyond the generated letters: both reached, or refused
    for n in (5, 6, 7):
        for f in ALL:
            L = [(any_letter(rng, n), any_letter(rng, n), False) for _ in range(16 if q else 120)]
            out.append(Case(f"any pair n={n} {f}", "on_field", dict(n=n, pairs=L), f, (f,), 1, deductive=False, target=T, timeout=200))
    for a, b in (("s_123", "⟨1|(2+3)|1]"), ("⟨6|(4+5)|6]", "s_123"), ("s_345", "⟨4|(3+5)|4]")):
        for same in (False, True):
            out.append(Case(f"pair {a} {b} n=6 {'equal' if same else 'independent'} targets", "pair", dict(n=6, a=a, b=b, same=same, must=True), F, ALL, 1, target=T + ("Particles_SetPair._set_pair_3B_and_Sijk",), timeout=60, max_paths=60))
    # seven and eight legs: brackets with brackets and Mandelstams, Mandelstams with Mandelstams
    for n in (7, 8):
        br = [f"{l}{a}|{b}{r}" for l, r in ("⟨⟩", "[]") for a in range(1, n + 1) for b in range(1, n + 1) if a != b]
        s3, s4 = (["s_" + "".join(map(str, c)) for c in itertools.combinations(range(1, n + 1), k)] for k in (3, 4))
        for A, B, tag in ((br, br, "brackets"), (br, s3 + s4, "brackets and Mandelstams"), (s3 + s4, br, "Mandelstams and brackets"), (s3, s3, "Mandelstams"), (s3, s4, "different Mandelstams")):
            L = []
            while len(L) < (8 if q else 60):
                a, b = rng.choice(A), rng.choice(B)
                la, lb = ({int(c) for c in x if c.isdigit()} for x in (a, b))
                if la != lb and not (la | lb == set(range(1, n + 1)) and not la & lb):
                    L.append((a, b, True))
            for f in ALL:
                out.append(Case(f"pairs of {tag} n={n} {f}", "on_field", dict(n=n, pairs=L), f, (f,), 1, deductive=False, target=T, timeout=200))
    out.append(Case("pair ⟨7|3+4|5+6|7⟩ [7|3+4|5+6|7] n=7", "pair", dict(n=7, a="⟨7|3+4|5+6|7⟩", b="[7|3+4|5+6|7]", must=True), "mpc", ("mpc",), 1, deductive=False, target=T))
    for a, b in (("⟨1|2⟩", "⟨1|3⟩"), ("s_123", "[1|2]"), ("⟨1|(2+3)|4]", "Δ_135")):
        out.append(Case(f"not a number {a} {b}", "not_a_number", dict(a=a, b=b), "mpc", ("mpc",), 1, deductive=False, target=W))
    return out


def ctor(A, B):
    def kind(x):
        return "A2_or_S2" if x in ("⟨|⟩", "[|]") else "Sijk" if x == "s_" else "Dijk" if x[0] == "Δ" else "3B" if x.count("|") == 2 else "NB"
    order = ["A2_or_S2", "3B", "NB", "Sijk", "Dijk"]
    k = sorted((kind(A), kind(B)), key=order.index)
    name = "_set_pair_" + "_and_".join(k)
    return "Particles_SetPair." + name.replace("A2_or_S2_and_3B", "A2_or_S2_and_NB")
