"""P03 phase-space generation and momentum-conservation repair."""
import random
import numpy
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["the two repaired legs have a non-vanishing spinor product (the code divides by it and the field raises otherwise); for real momenta the energy and the chosen axis component of the recoil differ",
               "multiplicities 3 to 9 (each one proved for all kinematics of that multiplicity and all choices of the two legs)"]


def close(D, tag, oPs):
    """total momentum within tolerance"""
    tot = sp.comb({i: oPs[i].r2_sp for i in range(1, len(oPs) + 1)}, "+".join(str(i) for i in range(1, len(oPs) + 1)))
    for k, x in enumerate(tot.flatten()):
        D.true(f"{tag}: |total momentum| <= tolerance [{k}]", D.f_le_tol(x), f"{x}")


def repair(D, n, A, B, axis, massive=(), conv="symmetric"):
    with convention(conv):
        oPs = D.point(n, massive=massive)
        before = {i: snapshot(oPs[i]) for i in range(1, n + 1)}
        objs = [oPs[i] for i in range(1, n + 1)]
        oPs.fix_mom_cons(A, B, axis=axis)
        D.true("multiplicity kept", len(oPs) == n)
        D.true("particle objects kept", all(oPs[i] is objs[i - 1] for i in range(1, n + 1)))
        for i in range(1, n + 1):
            if i not in (A, B):
                unchanged(D, f"leg {i} untouched", oPs[i], before[i])
        for i in (A, B):
            if axis == 1:
                D.eq(f"[{i}| untouched", oPs[i].l_sp_d, before[i][2])
            else:
                D.eq(f"|{i}> untouched", oPs[i].r_sp_d, before[i][0])
            coherent(D, f"leg {i}", oPs[i], True, True)
        tot = sp.comb({i: oPs[i].r2_sp for i in range(1, n + 1)}, "+".join(str(i) for i in range(1, n + 1)))
        D.eq("momentum conserved", tot, sp.mscale(tot, 0))
        D.eq("total_mom reports it", oPs.total_mom, sp.mscale(tot, 0))


def repair_real(D, n, A, B, axis):
    oPs = D.point(n)
    with D.setup():
        for i in range(1, n + 1):                                # arbitrary real momenta
            if i in (A, B):
                continue
            oPs[i].four_mom = D.vec4(f"k{i}", real=True)
    before = {i: snapshot(oPs[i]) for i in range(1, n + 1)}
    oPs.fix_mom_cons(A, B, real_momenta=True, axis=axis)
    tot = sp.comb({i: oPs[i].r2_sp for i in range(1, n + 1)}, "+".join(str(i) for i in range(1, n + 1)))
    D.eq("momentum conserved", tot, sp.mscale(tot, 0))
    for k in range(4):
        D.eq(f"four momenta sum to zero [{k}]", sp.sum_(oPs[i].four_mom[k] for i in range(1, n + 1)), 0)
    for i in range(1, n + 1):
        if i not in (A, B):
            unchanged(D, f"leg {i} untouched", oPs[i], before[i])
        else:
            D.eq(f"leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)
            for k in range(4):
                D.true(f"leg {i} component {k} real", D.is_real(oPs[i].four_mom[k]))
            coherent(D, f"leg {i}", oPs[i], True)


def random_choice(D, n, axis):
    """fix_mom_cons() without arguments: any pair may be drawn."""
    oPs = D.point(n)
    before = {i: snapshot(oPs[i]) for i in range(1, n + 1)}
    oPs.fix_mom_cons(axis=axis)
    on_shell_and_conserved(D, "random legs", oPs)
    k = 2 if axis == 1 else 0
    for i in range(1, n + 1):
        D.eq(f"leg {i}: opposite-chirality spinor untouched", (oPs[i].l_sp_d if axis == 1 else oPs[i].r_sp_d), before[i][k])


def construct(D, n, conv="symmetric"):
    with convention(conv):
        oPs = Particles(n, field=D.field)
        D.true("multiplicity", len(oPs) == n and oPs.multiplicity == n)
        D.true("field", oPs.field == D.field and all(oPs[i].field == D.field for i in range(1, n + 1)))
        close(D, "ctor", oPs)
        for i in range(1, n + 1):
            coherent(D, f"leg {i}", oPs[i], True)
        coherent(D, "reference vector", oPs.oRefVec, True)


def leg_real(D, conv="symmetric", again=False):
    """contract of Particle.randomise(real_momentum=True): an arbitrary real light-like momentum, whatever is drawn"""
    with convention(conv):
        if again:
            p = D.massless(1)
            p.randomise(real_momentum=True)
        else:
            p = Particle(real_momentum=True, field=D.field)
        coherent(D, "leg", p, True)
        D.eq("light-like", sp.det2(p.r2_sp), 0)
        for k in range(4):
            D.true(f"component {k} real", D.is_real(p.four_mom[k]), p.four_mom[k])


def construct_real(D, n, again=False):
    """the constructor and randomise_all against the contract of Particle.randomise (proved in leg_real)"""
    if not D.symbolic:
        return construct_real_body(D, n, again)
    count = [0]

    def randomise(self, real_momentum=False):
        count[0] += 1
        t = f"d{count[0]}_"
        v = [D.scalar(t + str(k)) for k in range(3)] if real_momentum is True else [D.scalar(t + str(k)) + 1j * D.scalar(t + "i" + str(k)) for k in range(3)]
        with D.setup():
            self.four_mom = numpy.array([D.field.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])] + v)
    with D.stub(Particle, "randomise", randomise):
        construct_real_body(D, n, again)


def construct_real_body(D, n, again):
    if again:
        oPs = D.point(n)
        oPs.randomise_all(real_momenta=True)
    else:
        oPs = Particles(n, field=D.field, real_momenta=True)
    close(D, "real point", oPs)
    for i in range(1, n + 1):
        D.eq(f"leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)
        for k in range(4):
            D.true(f"leg {i} component {k} real", D.is_real(oPs[i].four_mom[k]), oPs[i].four_mom[k])


def construct_list(D, n, fix, massive=()):
    with D.setup():
        ps = [D.massive(i) if i in massive else D.massless(i) for i in range(1, n + 1)]
    snaps = [snapshot(p) for p in ps]
    oPs = Particles(list(ps), field=D.field, fix_mom_cons=fix)
    D.true("order and identity of the given particles", len(oPs) == n and all(oPs[i] is ps[i - 1] for i in range(1, n + 1)))
    if fix:
        close(D, "ctor(list)", oPs)
        for i in range(1, n + 1):
            if i not in massive:
                D.eq(f"leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)
    else:
        for i in range(1, n + 1):
            unchanged(D, f"fix_mom_cons=False leaves leg {i} alone", ps[i - 1], snaps[i - 1])


def list_partly_conserved(D, n, which):
    """one row or column of the total momentum vanishes already."""
    with D.setup():
        ps = [D.massless(i) for i in range(1, n + 1)]
        row, k = which
        T = sum((p.r2_sp for p in ps[:-1]), 0 * ps[0].r2_sp)
        q = ps[-1]
        if row:
            u = (q.r2_sp[0, 0], q.r2_sp[1, 0])                      # the last leg is an outer product u v^t: choose v = -T[k]/u_k
            M = numpy.array([[-u[r] / u[k] * T[k, c] for c in range(2)] for r in range(2)], dtype=object)
        else:
            v = (q.r2_sp[0, 0], q.r2_sp[0, 1])
            M = numpy.array([[-v[c] / v[k] * T[r, k] for c in range(2)] for r in range(2)], dtype=object)
        q.r2_sp = M
    oPs = Particles(list(ps), field=D.field)
    close(D, "ctor(list)", oPs)
    for i in range(1, n + 1):
        D.eq(f"leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)


def already_conserved(D, n):
    """a point that conserves momentum is not touched by construction."""
    oPs = D.point(n, conserve=True)
    snaps = [snapshot(oPs[i]) for i in range(1, n + 1)]
    new = Particles(list(oPs), field=D.field)
    for i in range(1, n + 1):
        unchanged(D, f"leg {i}", new[i], snaps[i - 1])


def randomise(D, n):
    oPs = D.point(n)
    oPs.randomise_all()
    D.true("multiplicity kept", len(oPs) == n)
    close(D, "randomise_all", oPs)
    for i in range(1, n + 1):
        coherent(D, f"leg {i}", oPs[i], True)


def twistor(D, n, conv):
    """momentum-twistor generation: neighbouring legs have a non-vanishing spinor product (the code divides by it)"""
    with convention(conv):
        oPs = D.point(n, conserve=n > 2)
        objs = [oPs[i] for i in range(1, n + 1)]
        r = oPs.randomise_twistor()
        D.true("returns nothing, keeps the legs", r is None and len(oPs) == n and all(oPs[i] is objs[i - 1] for i in range(1, n + 1)))
        D.true("field", all(oPs[i].field == D.field for i in range(1, n + 1)))
        tot = sp.comb({i: oPs[i].r2_sp for i in range(1, n + 1)}, "+".join(str(i) for i in range(1, n + 1)))
        D.eq("momentum conserved", tot, sp.mscale(tot, 0))
        for i in range(1, n + 1):
            D.eq(f"leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)
            coherent(D, f"leg {i}", oPs[i], True)


def fresh(D, n):
    """randomising replaces every momentum: none of the old ones survives."""
    oPs = D.point(n)
    old = [oPs[i].r2_sp.copy() for i in range(1, n + 1)]
    oPs.randomise_all()
    for i in range(1, n + 1):
        D.true(f"leg {i} redrawn", not bool(numpy.all(oPs[i].r2_sp == old[i - 1])))


def seeded(D, n, seed, real=False):
    a = Particles(n, field=D.field, seed=seed, real_momenta=real)
    random.random()
    b = Particles(n, field=D.field, seed=seed, real_momenta=real)
    c = Particles(n, field=D.field, seed=seed + 1, real_momenta=real)
    for i in range(1, n + 1):
        D.eq(f"same seed, same |{i}>", a[i].r_sp_d, b[i].r_sp_d)
        D.eq(f"same seed, same [{i}|", a[i].l_sp_d, b[i].l_sp_d)
    D.true("different seed, different point", not a == c)
    d, e = Particles(n, field=D.field), Particles(n, field=D.field)
    D.true("no seed, different points", not d == e)


def cases(tier):
    out = []
    q = tier == "quick"
    F = "Particles.fix_mom_cons"
    for n in range(3, 8 if q else 10):
        for A in range(1, n + 1):
            for B in range(1, n + 1):
                if A == B:
                    continue
                for axis in (1, 2):
                    fn = "mpc" if (A + B + n) % 5 == 0 else "finite field"
                    out.append(Case(f"repair n={n} A={A} B={B} axis={axis}", "repair", dict(n=n, A=A, B=B, axis=axis), fn,
                                    ("mpc",) if fn == "mpc" else (("finite field", "padic")[(A + B) % 2],), 1 if q else 3, target=F))
    for n in (10, 11):
        for (A, B) in ((1, 10), (10, 1), (n, 2), (2, n), (10, n) if n > 10 else (9, 10)):
            for axis in (1, 2):
                out.append(Case(f"repair n={n} A={A} B={B} axis={axis}", "repair", dict(n=n, A=A, B=B, axis=axis), "finite field", ("finite field",), 1, target=F))
    for n, m in ((4, (1,)), (5, (2, 4)), (6, (1, 2, 3, 4)), (5, (5,))):
        for A in range(1, n + 1):
            for B in range(1, n + 1):
                if A == B or A in m or B in m:
                    continue
                for axis in (1, 2):
                    out.append(Case(f"repair n={n} massive={m} A={A} B={B} axis={axis}", "repair", dict(n=n, A=A, B=B, axis=axis, massive=m), "finite field", ("finite field",), 1, target=F))
    for n in (4, 5) if q else (3, 4, 5, 6):
        for axis in (1, 2, 3):
            for (A, B) in ((1, 2), (2, 1), (n, 1), (2, n)):
                out.append(Case(f"repair real n={n} A={A} B={B} axis={axis}", "repair_real", dict(n=n, A=A, B=B, axis=axis), "mpc", ("mpc",), 1, target=F, max_paths=600))
    for conv in ("symmetric", "asymmetric"):
        for again in (False, True):
            out.append(Case(f"real leg {conv} {'again' if again else 'fresh'}", "leg_real", dict(conv=conv, again=again), "mpc", ("mpc",), 4, target=("Particle.randomise", "Particle.randomise_mpc"), max_paths=2000))
    for n in (3, 4, 5) if q else (3, 4, 5, 6, 7):
        for axis in (1, 2):
            out.append(Case(f"random legs n={n} axis={axis}", "random_choice", dict(n=n, axis=axis), "finite field", ALL, 2, target=F))
    for n in (3, 4, 5, 6) if q else (3, 4, 5, 6, 7, 8):
        out.append(Case(f"ctor n={n}", "construct", dict(n=n), "finite field", ALL + ("rational", "gaussian rational"), 2 if q else 20, target=("Particles.__init__",), max_paths=3000))
    out.append(Case("ctor asymmetric n=4", "construct", dict(n=4, conv="asymmetric"), "finite field", ALL, 2, target=("Particles.__init__",), max_paths=3000))
    for n in (4, 5, 6) if q else (4, 5, 6, 7):
        for again in (False, True):
            out.append(Case(f"ctor real n={n} {'again' if again else 'fresh'}", "construct_real", dict(n=n, again=again), "mpc", ("mpc",), 4 if q else 40, max_paths=3000, timeout=300, target=("Particles.__init__", "Particles.randomise_all")))
    for n in (3, 4, 5, 6) if q else (3, 4, 5, 6, 7, 8):
        for conv in ("symmetric", "asymmetric"):
            for fn in ALL + ("rational", "gaussian rational"):
                out.append(Case(f"twistors n={n} {conv} {fn}", "twistor", dict(n=n, conv=conv), fn, (fn,), 2, target=("Particles.randomise_twistor", "Particle.randomise_twist", "Particle.comp_twist_x", "Particle.twist_x_to_mom"), max_paths=3000))
    for n, m in ((3, ()), (4, ()), (5, ()), (4, (1,))):
        for fix in (True, False):
            if fix and m:
                continue
            out.append(Case(f"ctor list n={n} fix={fix} massive={m}", "construct_list", dict(n=n, fix=fix, massive=m), "finite field", ALL, 2, target=("Particles.__init__",), max_paths=3000))
    for n in (4, 5):
        for w in ((True, 0), (True, 1), (False, 0), (False, 1)):
            out.append(Case(f"ctor list n={n} {'row' if w[0] else 'column'} {w[1]} vanishes", "list_partly_conserved", dict(n=n, which=w), "finite field", ALL, 1, target=("Particles.__init__",), max_paths=3000))
    for n in (3, 4, 5, 6):
        out.append(Case(f"already conserved n={n}", "already_conserved", dict(n=n), "finite field", ALL, 2, target=("Particles.__init__",)))
        out.append(Case(f"randomise_all n={n}", "randomise", dict(n=n), "finite field", ALL + ("rational",), 2, target=("Particles.randomise_all", "Particle.randomise"), max_paths=3000))
        out.append(Case(f"randomise_all fresh n={n}", "fresh", dict(n=n), "finite field", ALL, 2, deductive=False, target=("Particles.randomise_all", "Particle.randomise")))
        for s in (0, 1, 7):
            out.append(Case(f"seeded n={n} seed={s}", "seeded", dict(n=n, seed=s), "finite field", ALL + ("rational",), 1, deductive=False, target="Particles.__init__"))
        out.append(Case(f"seeded real n={n}", "seeded", dict(n=n, seed=3, real=True), "mpc", ("mpc",), 1, deductive=False, target="Particles.__init__"))
    return out
