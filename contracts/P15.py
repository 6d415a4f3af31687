"""P15 requesting a variety."""
import itertools
import os
import random
from .common import *                                              # noqa
from .P13 import quiet
from lips.tools import myException
from vc.sym import Unsupported

LEVEL = "proof"
ASSUMPTIONS = ["variety is proved for arbitrary effects (weakest contracts) of the dedicated constructions _set, _set_pair and of the algebraic solver _singular_variety: each may leave any point behind, return or raise",
               "the algebraic solver itself is syngular's point_on_variety (external): what is proved of lips is that its solution is written into the point exactly, and that variety verifies the outcome",
               "from_singular_variety and _singular_variety return the solver's point without a further check of their own (only variety verifies)",
               "in p-adic fields the valuation of a value is an integer-valued function of it"]

HARD = ("ok", "ok but wrong", "raises", "raises midway", "raises after an in-place change")
SOLVER = ("ok", "ok but wrong", "raises", "raises midway")
INVS = {1: ("⟨1|2⟩",), 2: ("⟨1|2⟩", "[1|3]"), 3: ("⟨1|2⟩", "[1|3]", "s_14")}


def vals(D, k):
    if D.fname == "padic":
        return tuple((1, 2, 3)[:k])
    if D.fname == "mpc":
        return tuple(D.scalar(f"v{i}") for i in range(k))
    return (0,) * k


def replace(D, oPs, kind):
    """an arbitrary new point; the real-field interpretation needs representative ones"""
    n = len(oPs)
    with D.setup():
        if D.symbolic:
            new = D.point(n, massive=(n - 1, n))
        else:
            new = D.point(n, conserve=D.choose(f"{kind} conserved", (True, True, False)), massive=D.choose(f"{kind} massive", ((), (), (n,))))
    for i in range(1, n + 1):
        oPs[i] = new[i]


def place(D, oPs, invs, values, keep, skew=None, massive=False):
    """a point that satisfies the request (built by the specification: moves |2> and [3|, then restores conservation with the last two legs)"""
    n = len(oPs)
    targets = []
    for v in values:
        if D.fname == "padic":
            targets.append(D.field(D.field.characteristic) ** v * D.scalar("u"))
        else:
            targets.append(v if D.fname == "mpc" else D.field(0))
    if skew is not None:
        targets[skew] = D.scalar("skew")
    with D.setup():
        new = D.point(n)
        r = new[1].r_sp_d
        c = (targets[0] + r[0, 0] * new[2].r_sp_d[1, 0]) / r[1, 0]
        new[2].r_sp_d = D.arr([[c], [new[2].r_sp_d[1, 0]]])
        if len(targets) > 1:
            l = new[1].l_sp_d
            d = (targets[1] + l[0, 1] * new[3].l_sp_d[0, 0]) / l[0, 0]
            new[3].l_sp_d = D.arr([[new[3].l_sp_d[0, 0], d]])
        D.conserve(new, n - 1, n)
        if massive:                                              # momentum moved between two legs: conserved, but neither leg is light-like
            d = D.mat("shift")
            new[4].r2_sp, new[5].r2_sp = new[4].r2_sp + d, new[5].r2_sp - d
        if not keep:
            new[4].r_sp_d = D.arr([[new[4].r_sp_d[0, 0] + D.scalar("w")], [new[4].r_sp_d[1, 0]]])
    for i in range(1, n + 1):
        oPs[i] = new[i]


def variety(D, n, k, hard, solver, try_solver=True, positional=True, wrong="anything"):
    with convention("asymmetric"):
        oPs = D.point(n, conserve=True)
        invs, values = INVS[k], vals(D, k)
        st = [snapshot(oPs[i]) for i in range(1, n + 1)]
        calls, rollback = [], []

        def effect(kind, mode):
            if mode == "raises":
                raise myException("refused")
            if mode == "raises after an in-place change":
                with D.setup():
                    oPs[1].r_sp_d = D.col("moved1_")
                    oPs[2].l_sp_d = D.row("moved2_")
                    oPs[3].r2_sp = D.mat("moved3_")
                    oPs[4]._r_sp_d[0, 0] = D.scalar("moved4")
                raise myException("failed after moving spinors of the existing legs")
            if mode == "ok" and not D.symbolic:
                place(D, oPs, invs, values, True)
                if k == 3:
                    replace(D, oPs, kind)
                return None
            if not D.symbolic and wrong == "value":
                # a physical point, only the requested values are missed
                new = D.point(n, conserve=True)
                for i in range(1, n + 1):
                    oPs[i] = new[i]
            elif not D.symbolic and wrong in ("first value", "second value"):
                # one of the requested values is missed, the other is right
                v = list(values)
                j = 0 if wrong == "first value" else k - 1
                if D.fname == "padic":
                    v[j] = v[j] + 1
                elif D.fname == "mpc":
                    v[j] = v[j] * 2
                place(D, oPs, invs, v, True, skew=j if D.fname == "finite field" else None)
            elif not D.symbolic and wrong == "mass":
                place(D, oPs, invs, values, True, massive=True)
            elif not D.symbolic and wrong == "momentum":
                place(D, oPs, invs, values, False)
            else:
                replace(D, oPs, kind)
            if mode == "raises midway":
                raise myException("failed midway")

        def set_(*a, **kw):
            calls.append(("set", a))
            return effect("hard", hard)

        def set_pair(*a, **kw):
            calls.append(("pair", a))
            return effect("hard", hard)

        def sing(invariants, valuations=(), **kw):
            calls.append(("solver", tuple(invariants), tuple(valuations)))
            rollback.extend([snapshot(oPs[i]) for i in range(1, n + 1)])
            return effect("solver", solver)
        err = None
        with D.stub(oPs, "_set", set_), D.stub(oPs, "_set_pair", set_pair), D.stub(oPs, "_singular_variety", sing):
            try:
                if try_solver:
                    quiet(oPs.variety, invs, values)
                else:
                    quiet(oPs.variety, invs, values, try_singular_variety_solver=False)
            except Unsupported:
                raise
            except Exception as e:
                err = e
        kinds = [c[0] for c in calls]
        D.true("multiplicity", len(oPs) == n, len(oPs))
        if "solver" in kinds:
            c = calls[kinds.index("solver")]
            D.true("the solver is asked for the request", c[1] == tuple(invs) and len(c[2]) == k and all(x is y or x == y for x, y in zip(c[2], values)), c)
            for i in range(n):
                D.eq(f"the solver starts from the original point: leg {i + 1}", rollback[8 * 0 + i][4], st[i][4])
                D.eq(f"the solver starts from the original point: |{i + 1}>", rollback[i][0], st[i][0])
                D.eq(f"the solver starts from the original point: [{i + 1}|", rollback[i][2], st[i][2])
        D.true("the solver runs only when allowed", try_solver or "solver" not in kinds, kinds)
        if try_solver and (k == 3 or hard.startswith("raises")):
            D.true("the solver is tried when the dedicated construction fails", "solver" in kinds, kinds)
        # the normal-return postcondition
        s = sp.Snap(oPs)
        mom = [D.f_le_tol(x) for x in sp.flat(sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1))))]
        shell = [D.f_le_tol(sp.det2(s.up[i])) for i in range(1, n + 1)]
        val = []
        for inv, v in zip(invs, values):
            x = sp.value(s, inv)
            if D.fname == "padic":
                val.append(D.f_val(x, "==", v))
            elif D.fname == "mpc":
                val.append(D.f_or(D.f_le_tol(x - v), D.f_le_tol(x + v)))
            else:
                val.append(D.f_zero(x))
        post = D.f_and(*(mom + shell + val))
        if err is None:
            D.true("normal return => physical point on the requested variety", post)
        elif "solver" in kinds and solver in ("raises", "raises midway"):
            D.true("failure of both is reported", True)
        else:
            D.true("error => the point left behind is not on the requested variety", D.f_not(post) if not D.symbolic or hard not in ("raises", "raises midway") else True, repr(err)[:200])


def write_back(D, n):
    """update_particles writes exactly the solution, with all representations in step"""
    from lips.algebraic_geometry.particles_singular_variety import update_particles
    with convention("asymmetric"):
        oPs = D.point(n)
        d = {f"{x}{i}": D.scalar(f"new_{x}{i}") for i in range(1, n + 1) for x in "abcd"}
        before = dict(d)
        update_particles(oPs, d)
        D.true("dictionary unchanged", d == before)
        D.true("multiplicity", len(oPs) == n)
        for i in range(1, n + 1):
            D.eq(f"|{i}>", oPs[i].r_sp_d, D.arr([[d[f"a{i}"]], [d[f"b{i}"]]]))
            D.eq(f"[{i}|", oPs[i].l_sp_d, D.arr([[d[f"c{i}"], d[f"d{i}"]]]))
            coherent(D, f"leg {i}", oPs[i], True)


def singular_call(D, n, field_name, new=False, options=False, k=2):
    """_singular_variety (and from_singular_variety, without a base point) hands the point and the request to the solver and writes back what it returns"""
    import lips.algebraic_geometry.particles_singular_variety as psv
    invs, vals = ("⟨1|2⟩", "[1|2]", "⟨2|3⟩", "[1|3]")[:k], (1, 2, 3, 1)[:k]
    dirs = ["-a1*b2 + a2*b1", "c1*d2 - c2*d1", "-a2*b3 + a3*b2", "c1*d3 - c3*d1"][:k]
    with convention("asymmetric"):
        oPs = D.point(n)
        want = {f"{x}{i}": oPs[i].r_sp_d[j, 0] if x in "ab" else oPs[i].l_sp_d[0, j] for i in range(1, n + 1) for j, x in ((0, "a"), (1, "b"), (0, "c"), (1, "d"))}
        sol = {f"{x}{i}": D.scalar(f"sol_{x}{i}") for i in range(1, n + 1) for x in "abcd"}
        seen = {}

        class FakeIdeal:
            def __init__(self, m, gens, *a, **k):
                seen["n"], seen["gens"] = m, gens

            def to_mom_cons_qring(self):
                seen["qring"] = True

            def point_on_variety(self, field, base_point={}, directions=None, valuations=(), **k):
                seen.update(options={x: k.get(x, y) for x, y in (("indepSetNbr", None), ("indepSet", "guess"), ("seed", None))})
                seen.update(field=field, base={str(k): v for k, v in base_point.items()}, directions=directions, valuations=valuations)
                return sol
        with D.stub(psv, "LipsIdeal", FakeIdeal), D.pristine():                  # the random point drawn for the directions is overwritten by symbols
            opt = dict(generators=("⟨1|2⟩", "[1|2]", "⟨1|3|2]"), indepSetNbr=2, indepSet=(1, 0, 1), seed=7) if options else {}
            if new:
                oPs, want = Particles.from_singular_variety(n, oPs.field, invs, valuations=vals, **opt), {}
            else:
                oPs._singular_variety(invs, vals, **opt)
        D.true("ideal of the request", seen["n"] == n and tuple(seen["gens"]) == opt.get("generators", invs), seen.get("gens"))
        D.true("modulo momentum conservation", seen.get("qring") is True)
        D.true("options passed on", seen["options"] == {k: opt.get(k, d) for k, d in (("indepSetNbr", None), ("indepSet", "guess"), ("seed", None))}, seen["options"])
        D.true("a point of that multiplicity and field", type(oPs) is Particles and len(oPs) == n and oPs.field == D.field)
        D.true("field and valuations passed on", seen["field"] == oPs.field and tuple(seen["valuations"]) == vals)
        D.true("base point has every component", set(seen["base"]) == set(want), sorted(seen["base"]))
        for k in want:
            D.eq(f"base point {k}", seen["base"][k], want[k])
        if D.fname != "finite field":
            D.true("one direction per invariant", [str(x) for x in seen["directions"]] == dirs, seen["directions"])
        else:
            D.true("no directions in a finite field", seen["directions"] is None)
        for i in range(1, n + 1):
            D.eq(f"|{i}>", oPs[i].r_sp_d, D.arr([[sol[f"a{i}"]], [sol[f"b{i}"]]]))
            D.eq(f"[{i}|", oPs[i].l_sp_d, D.arr([[sol[f"c{i}"], sol[f"d{i}"]]]))


def real(D, n, invs, values, try_solver=True):
    """end to end, Singular included"""
    with D.setup():
        oPs = Particles(n, field=D.field, seed=D.seed + 17)
    v = values
    if D.fname == "mpc":
        import mpmath
        v = tuple(mpmath.mpf(10) ** (-30 * x) for x in values)
    if D.fname == "finite field":
        v = (0,) * len(values)
    try:
        quiet(oPs.variety, tuple(invs), tuple(v), try_singular_variety_solver=try_solver)
    except ZeroDivisionError:
        raise
    except Exception as e:
        D.true("refused with an error", True, e)
        return
    s = sp.Snap(oPs)
    for inv, x in zip(invs, v):
        y = sp.value(s, inv)
        if D.fname == "padic":
            D.true(f"{inv} has valuation {x}", abs(y).n == x, y)
        elif D.fname == "mpc":
            D.true(f"{inv} = {x}", min(abs(y - x), abs(y + x)) < abs(x) * 1e-30, y)
        else:
            D.true(f"{inv} vanishes", y == 0, y)
    tot = sp.comb(s.up, "+".join(str(i) for i in range(1, n + 1)))
    sm = (lambda z: abs(z) < 1e-100) if D.fname == "mpc" else (lambda z: z == 0)
    D.true("momentum conserved", all(sm(x) for x in sp.flat(tot)))
    D.true("on shell", all(sm(sp.det2(s.up[i])) for i in range(1, n + 1)))


def lengths(D):
    oPs = D.point(5)
    for a, b in ((("⟨1|2⟩",), ()), (("⟨1|2⟩", "[1|2]"), (0,)), ((), (0,))):
        try:
            oPs.variety(a, b)
        except Exception as e:
            D.true("mismatched request refused", type(e).__name__ != "Unsupported")
        else:
            D.true("mismatched request refused", False)


def cases(tier):
    q = tier == "quick"
    F = "finite field"
    V = ("Particles_Variety.variety", "Particles.momentum_conservation_check", "Particles.onshell_relation_check", "Particles.__deepcopy__")
    out = []
    for f in ALL:
        for k in (1, 2, 3):
            for hard in HARD if k < 3 else ("ok",):
                for solver in SOLVER if hard.startswith("raises") or k == 3 else ("raises",):
                    for ts in (True, False):
                        if not ts and solver != "raises":
                            continue
                        # symbolic exploration once per combination; runtime scenarios on the real field
                        n = 5 if k < 3 else 4
                        if q and k == 3 and (solver not in ("raises", "ok but wrong") or not ts or f == "mpc"):
                            continue
                        out.append(Case(f"variety {f} k={k} hard={hard} solver={solver} try_solver={ts}", "variety", dict(n=n, k=k, hard=hard, solver=solver, try_solver=ts),
                                        f, (f,), 4 if q else 12, target=V, timeout=200, max_paths=6000))
        for wrong in ("value", "momentum", "second value", "first value", "mass"):
            for hard, solver in (("ok but wrong", "raises"), ("raises", "ok but wrong"), ("raises midway", "ok but wrong")):
                for k in (1, 2):
                    out.append(Case(f"variety {f} k={k} hard={hard} solver={solver} wrong {wrong}", "variety", dict(n=5, k=k, hard=hard, solver=solver, wrong=wrong), f, (f,), 3, deductive=False, target=V))
        for n in (4, 6):
            out.append(Case(f"write back n={n} {f}", "write_back", dict(n=n), f, (f,), 1, target=("update_particles", "Particle.r_sp_d", "Particle._l_sp_d_to_l_sp_u")))
        out.append(Case(f"solver call {f}", "singular_call", dict(n=5, field_name=f), f, (f,), 1, target=("Particles_SingularVariety._singular_variety", "update_particles", "Particles.analytical_subs_d")))
        for n, new, opt, k in ((5, False, True, 2), (4, True, False, 2), (5, True, True, 2), (6, True, False, 2), (4, False, False, 1), (5, False, False, 3), (5, True, False, 4), (6, False, True, 4)):
            out.append(Case(f"solver call {f} n={n} new={new} options={opt} k={k}", "singular_call", dict(n=n, field_name=f, new=new, options=opt, k=k), f, (f,), 1,
                            target=("Particles_SingularVariety._singular_variety", "Particles_SingularVariety.from_singular_variety")))
    R = ("Particles_Variety.variety", "Particles_SingularVariety._singular_variety", "Particles_Set._set", "Particles_SetPair._set_pair")
    reqs = [(5, ("⟨1|2⟩",), (1,)), (5, ("⟨1|2⟩",), (2,)), (5, ("⟨1|2⟩", "[1|2]"), (1, 2)), (5, ("⟨1|2⟩", "[1|2]"), (2, 1)), (6, ("s_123", "⟨1|(2+3)|1]"), (1, 2)), (6, ("s_123", "⟨1|(2+3)|1]"), (2, 1)),
            (6, ("Δ_135",), (1,)), (5, ("tr5_1234",), (1,)), (6, ("s_123", "s_345"), (1, 1)), (5, ("⟨1|2⟩", "⟨2|3⟩", "⟨1|3⟩"), (1, 1, 1))]
    for f in ALL:
        for n, invs, v in reqs:
            if len(invs) == 3 and q:
                continue
            out.append(Case(f"real {f} n={n} {invs} {v}", "real", dict(n=n, invs=invs, values=v), f, (f,), 1 if q else 3, deductive=False, target=R, timeout=120))
            out.append(Case(f"real {f} n={n} {invs} {v} no solver", "real", dict(n=n, invs=invs, values=v, try_solver=False), f, (f,), 1, deductive=False, target=R, timeout=120))
    out.append(Case("mismatched lengths", "lengths", {}, F, (F,), 1, deductive=True, target=V))
    return out
