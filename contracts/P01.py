"""P01 representation coherence of a particle."""
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["the coherence of lambda lambda-tilde with the momentum is claimed for light-like momenta whose P^0+P^3 does not vanish; for massive momenta the spinor fields carry no meaning and are only required to be mutually consistent"]


def build(D, tag="a"):
    r, l = D.col(f"r{tag}_"), D.row(f"l{tag}_")
    return r, l


def construct(D, how, conv):
    """requires: arbitrary kinematics; ensures: coherent particle denoting exactly the given kinematics."""
    with convention(conv):
        r, l = build(D)
        I = D.imag() if D.symbolic or D.fname == "mpc" else None
        if how == "spinors":
            p = Particle((r.copy(), l.copy()), field=D.field)
            D.eq("given |a>", p.r_sp_d, r)
            D.eq("given [a|", p.l_sp_d, l)
            coherent(D, "ctor(spinors)", p, True, True)
        elif how == "rank2 massless":
            M = sp.P_up(r, l)
            p = Particle(M.copy(), field=D.field)
            D.eq("given P", p.r2_sp, M)
            coherent(D, "ctor(rank2)", p, True)
        elif how == "rank2 massive":
            M = D.mat("P")
            p = Particle(M.copy(), field=D.field)
            D.eq("given P", p.r2_sp, M)
            coherent(D, "ctor(rank2 massive)", p, False)
        elif how == "four massless":
            v = sp.four(sp.P_up(r, l), I)
            p = Particle(numpy.array(v, dtype=object), field=D.field)
            D.eq("given P^mu", list(p.four_mom), v)
            coherent(D, "ctor(four)", p, True)
        elif how == "four massive":
            v = D.vec4("p")
            p = Particle(v.copy(), field=D.field)
            D.eq("given P^mu", list(p.four_mom), list(v))
            coherent(D, "ctor(four massive)", p, False)
        elif how == "random":
            p = Particle(field=D.field)
            coherent(D, "ctor(random)", p, True)
        elif how == "random real":
            p = Particle(real_momentum=True, field=D.field)
            coherent(D, "ctor(random real)", p, True)
            if not D.symbolic:
                for k in range(4):
                    D.true(f"real momentum component {k}", abs(p.four_mom[k].imag) == 0, p.four_mom[k])
        elif how == "rerandomise":
            p = Particle((r.copy(), l.copy()), field=D.field)
            p.randomise()
            coherent(D, "randomise()", p, True)


def setter(D, which, conv, pre="massless"):
    """requires: coherent particle; ensures: the assigned representation has the assigned value, all others follow it,
    the opposite-chirality spinor is untouched by a spinor assignment."""
    with convention(conv):
        p = D.massless("q") if pre == "massless" else D.massive("q")
        if p.r_sp_d is None:
            return
        r0, l0 = p.r_sp_d.copy(), p.l_sp_d.copy()
        r, l = build(D, "v")
        I = D.imag() if D.symbolic or D.fname == "mpc" else None
        if which == "r_sp_d":
            p.r_sp_d = r.copy()
            D.eq("assigned |a>", p.r_sp_d, r)
            D.eq("[a| untouched", p.l_sp_d, l0)
        elif which == "l_sp_d":
            p.l_sp_d = l.copy()
            D.eq("assigned [a|", p.l_sp_d, l)
            D.eq("|a> untouched", p.r_sp_d, r0)
        elif which == "r_sp_u":
            p.r_sp_u = sp.r_up(r)
            D.eq("assigned <a|", p.r_sp_u, sp.r_up(r))
            D.eq("|a> follows", p.r_sp_d, r)
            D.eq("[a| untouched", p.l_sp_d, l0)
        elif which == "l_sp_u":
            p.l_sp_u = sp.l_up(l)
            D.eq("assigned |a]", p.l_sp_u, sp.l_up(l))
            D.eq("[a| follows", p.l_sp_d, l)
            D.eq("|a> untouched", p.r_sp_d, r0)
        elif which == "flat r_sp_d":
            p.r_sp_d = numpy.array([r[0, 0], r[1, 0]], dtype=object)
            D.eq("assigned |a> from a flat array", p.r_sp_d, r)
        elif which == "flat l_sp_d":
            p.l_sp_d = numpy.array([l[0, 0], l[0, 1]], dtype=object)
            D.eq("assigned [a| from a flat array", p.l_sp_d, l)
        elif which == "flat r_sp_u":
            p.r_sp_u = numpy.array([r[1, 0], -r[0, 0]], dtype=object)
            D.eq("assigned <a| from a flat array", p.r_sp_d, r)
        elif which == "flat l_sp_u":
            p.l_sp_u = numpy.array([l[0, 1], -l[0, 0]], dtype=object)
            D.eq("assigned |a] from a flat array", p.l_sp_d, l)
        massless = True
        if which in ("r2_sp", "r2_sp_b", "four_mom", "four_mom_d"):
            M = sp.P_up(r, l)
            if which == "r2_sp":
                p.r2_sp = M.copy()
            elif which == "r2_sp_b":
                p.r2_sp_b = sp.adj(M)
            else:
                v = sp.four(M, I)
                w = numpy.array(v if which == "four_mom" else [v[0], -v[1], -v[2], -v[3]], dtype=object)
                setattr(p, which, w)
            D.eq("assigned momentum", p.r2_sp, M)
        if which in ("r2_sp massive", "r2_sp_b massive", "four_mom massive", "four_mom_d massive"):
            massless = False
            M = D.mat("M")
            if which.startswith("r2_sp "):
                p.r2_sp = M.copy()
            elif which.startswith("r2_sp_b"):
                p.r2_sp_b = sp.adj(M)
            else:
                v = sp.four(M, I)
                w = numpy.array(v if which == "four_mom massive" else [v[0], -v[1], -v[2], -v[3]], dtype=object)
                setattr(p, which.split()[0], w)
            D.eq("assigned momentum", p.r2_sp, M)
        coherent(D, which, p, massless)


def assign(D, p, which, r, l, I):
    """one update through the named representation; returns the spinors that are fixed by it"""
    M = sp.P_up(r, l)
    if which == "r_sp_d":
        p.r_sp_d = r.copy()
    elif which == "l_sp_d":
        p.l_sp_d = l.copy()
    elif which == "r_sp_u":
        p.r_sp_u = sp.r_up(r)
    elif which == "l_sp_u":
        p.l_sp_u = sp.l_up(l)
    elif which == "r2_sp":
        p.r2_sp = M.copy()
    elif which == "r2_sp_b":
        p.r2_sp_b = sp.adj(M)
    elif which == "angles_for_squares":
        p.angles_for_squares()
    else:
        v = sp.four(M, I)
        setattr(p, which, numpy.array(v if which == "four_mom" else [v[0], -v[1], -v[2], -v[3]], dtype=object))
    return M


def sequence(D, first, second, conv, partial=None):
    """two updates in a row: the second wins, whatever the first left behind; with `partial`, the second value shares
    components with the first"""
    with convention(conv):
        p = D.massless("q")
        I = D.imag() if D.symbolic or D.fname == "mpc" else None
        r, l = build(D, "v")
        assign(D, p, first, r, l, I)
        if p.r_sp_d is None:
            return
        coherent(D, f"after {first}", p, True)
        if partial == "frame" and second != "angles_for_squares":  # the same momentum, spinors rescaled
            z = D.scalar("z")
            r2, l2 = r * z, l / z
        elif partial is not None:
            r2, l2 = r.copy(), l.copy()
            if partial in (0, 1):
                r2[partial, 0] = D.scalar("w")
            else:
                l2[0, partial - 2] = D.scalar("w")
        else:
            r2, l2 = build(D, "w")
        before = p.r2_sp.copy()
        r0, l0 = p.r_sp_d.copy(), p.l_sp_d.copy()
        M = assign(D, p, second, r2, l2, I)
        if second == "angles_for_squares":
            D.eq("conjugated momentum", p.r2_sp, before.T)
        elif second in ("r_sp_d", "r_sp_u"):
            D.eq("momentum |new>[old|", p.r2_sp, sp.P_up(r2, l0))
        elif second in ("l_sp_d", "l_sp_u"):
            D.eq("momentum |old>[new|", p.r2_sp, sp.P_up(r0, l2))
        else:
            D.eq("momentum assigned last", p.r2_sp, M)
        coherent(D, f"{first} then {second}", p, True)


def in_place(D, which, conv, idx):
    """an entry of an exposed array is changed and the array assigned back"""
    with convention(conv):
        p = D.massless("q")
        I = D.imag() if D.symbolic or D.fname == "mpc" else None
        A = getattr(p, which)
        w = D.scalar("w")
        if which in ("r2_sp", "r2_sp_b", "four_mom", "four_mom_d"):
            A[...] = A * w                                          # stays light-like
            want = A.copy()
        else:
            i = idx if A.shape[0] == 2 else 0
            A[(i, 0) if A.shape[0] == 2 else (0, idx)] = w
            want = A.copy()
        setattr(p, which, A)
        D.eq("the array assigned back", list(getattr(p, which).flatten()), list(want.flatten()))
        coherent(D, f"{which} assigned back", p, True)


def degenerate(D, which):
    """light-like momentum with P^0+P^3 = 0: the symmetric gauge has no spinor; the momentum must survive and the spinors
    must be reported as undefined rather than wrong."""
    with convention("symmetric"):
        r = sp.mat([[D.zero()], [D.scalar("r2")]])
        l = D.row("l_")
        M = sp.P_up(r, l)
        if which == "r2_sp":
            p = D.massless("q")
            p.r2_sp = M.copy()
        elif which == "r2_sp_b":
            p = D.massless("q")
            p.r2_sp_b = sp.adj(M)
        elif which == "ctor":
            p = Particle(M.copy(), field=D.field)
        else:
            I = D.imag()
            p = D.massless("q")
            p.four_mom = numpy.array(sp.four(M, I), dtype=object)
        D.eq("momentum kept", p.r2_sp, M)
        coherent(D, f"degenerate {which}", p, True, False)


def getitem(D):
    I = D.imag()
    v = D.vec4("p")
    p = Particle(v.copy(), field=D.field)
    for k in range(4):
        D.eq(f"p[{k}] is P^{k}", p[k], v[k])


def gauge(D, conv):
    """documented spinor gauges: symmetric |a> = (sqrt(P0+P3), ...), [a| likewise; asymmetric |a> = (P0+P3, P1+iP2), [a| = (1, ...)."""
    with convention(conv):
        r, l = build(D)
        M = sp.P_up(r, l)
        p = Particle(M.copy(), field=D.field)
        if p.r_sp_d is None:
            D.true("undefined only where P0+P3 vanishes", D.f_le_tol(M[1, 1]))
            return
        if conv == "asymmetric":
            D.eq("|a> = (P0+P3, P1+iP2)", p.r_sp_d, sp.mat([[M[1, 1]], [-M[1, 0]]]))
            D.eq("[a|_1 = 1", p.l_sp_d[0, 0], 1)
        else:
            D.eq("|a>_1 [a|_1 = P0+P3", p.r_sp_d[0, 0] * p.l_sp_d[0, 0], M[1, 1])
            D.eq("|a>_1 = [a|_1", p.r_sp_d[0, 0], p.l_sp_d[0, 0])


def tofield(D, other):
    """to_field maps the spinor components into the target field and keeps the particle coherent."""
    p = D.massless("q")
    r, l = p.r_sp_d.copy(), p.l_sp_d.copy()
    if D.symbolic:
        f = type(D.field)(other)
        p.to_field(f)
        D.eq("|a> kept", p.r_sp_d, r)
        D.eq("[a| kept", p.l_sp_d, l)
        D.true("field recorded", p.field is f)
    else:
        from vc.domain import REAL_FIELDS
        r, l = sp.mat([[3], [7]]), sp.mat([[-2, 5]])
        p = Particle((sp.mat([[D.field(3)], [D.field(7)]]), sp.mat([[D.field(-2), D.field(5)]])), field=D.field)
        f = REAL_FIELDS[other]()
        p.to_field(f)
        D.fname, D.field = other, f
        D.eq("|a> image", p.r_sp_d, sp.mat([[f(3)], [f(7)]]))
        D.eq("[a| image", p.l_sp_d, sp.mat([[f(-2), f(5)]]))
        D.true("components live in the target field", all(type(x) is type(f(1)) for x in list(p.r_sp_d.flatten()) + list(p.l_sp_d.flatten())), [type(x) for x in p.r_sp_d.flatten()])
        D.true("field recorded", p.field == f)
    coherent(D, "to_field", p, True, True)


def cases(tier):
    out = []
    seeds = 2 if tier == "quick" else 40
    T1 = "Particle.__init__"
    for conv in ("symmetric", "asymmetric"):
        for fn in ("finite field", "mpc"):
            real = ALL if fn == "finite field" else ("mpc",)
            for how in ("spinors", "rank2 massless", "rank2 massive"):
                out.append(Case(f"ctor {how} {conv} {fn}", "construct", dict(how=how, conv=conv), fn, real, seeds, target=(T1, "Particle.r2_sp", "Particle.lsq")))
            for how in ("four massless", "four massive"):
                out.append(Case(f"ctor {how} {conv} {fn}", "construct", dict(how=how, conv=conv), fn, ("mpc",), seeds, target=(T1, "Particle.four_mom")))
            for how in ("random", "rerandomise"):
                out.append(Case(f"ctor {how} {conv} {fn}", "construct", dict(how=how, conv=conv), fn, real, seeds,
                                target=(T1, "Particle.randomise", "Particle.randomise_mpc" if fn == "mpc" else "Particle.randomise_spinors_in_field")))
            if fn == "mpc":
                out.append(Case(f"ctor random real {conv}", "construct", dict(how="random real", conv=conv), fn, ("mpc",), 20 if tier == "quick" else 300, target=("Particle.randomise_mpc",)))
            for w in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "flat r_sp_d", "flat l_sp_d", "flat r_sp_u", "flat l_sp_u", "r2_sp", "r2_sp_b", "r2_sp massive", "r2_sp_b massive"):
                out.append(Case(f"set {w} {conv} {fn}", "setter", dict(which=w, conv=conv), fn, real, seeds, target=f"Particle.{w.replace('flat ', '').split()[0]}.setter"))
            for w in ("four_mom", "four_mom_d", "four_mom massive", "four_mom_d massive"):
                out.append(Case(f"set {w} {conv} {fn}", "setter", dict(which=w, conv=conv), fn, ("mpc",), seeds, target=f"Particle.{w.split()[0]}.setter"))
            for w in ("r_sp_d", "l_sp_u", "r2_sp"):
                out.append(Case(f"set {w} from massive {conv} {fn}", "setter", dict(which=w, conv=conv, pre="massive"), fn, real, seeds, target=f"Particle.{w}.setter"))
            out.append(Case(f"gauge {conv} {fn}", "gauge", dict(conv=conv), fn, real, seeds, target=("Particle._set_r_sp_d", "Particle._set_l_sp_d")))
    REP = ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")
    for conv in ("symmetric", "asymmetric"):
        for a in REP + ("angles_for_squares",):
            for b in REP + ("angles_for_squares",):
                mpc = a.startswith("four") or b.startswith("four")
                out.append(Case(f"{a} then {b} {conv}", "sequence", dict(first=a, second=b, conv=conv), "mpc" if mpc else "finite field", ("mpc",) if mpc else ALL, 1, target=tuple(f"Particle.{x}" for x in (a, b))))
        for a in REP:
            mpc = a.startswith("four")
            for k in (0, 1, 2, 3, "frame"):
                out.append(Case(f"{a} again, sharing {k} {conv}", "sequence", dict(first=a, second=a, conv=conv, partial=k), "mpc" if mpc else "finite field", ("mpc",) if mpc else ALL, 1, target=f"Particle.{a}"))
            for k in (0, 1):
                out.append(Case(f"{a} in place {k} {conv}", "in_place", dict(which=a, conv=conv, idx=k), "mpc" if mpc else "finite field", ("mpc",) if mpc else ALL, 1, target=f"Particle.{a}"))
    for fn in ("rational", "gaussian rational"):
        for how in ("spinors", "random", "rerandomise"):
            out.append(Case(f"ctor {how} {fn}", "construct", dict(how=how, conv="symmetric"), fn, (fn,), seeds, target=(T1,)))
        for w in ("r_sp_d", "l_sp_d", "r_sp_u", "l_sp_u"):
            out.append(Case(f"set {w} {fn}", "setter", dict(which=w, conv="symmetric"), fn, (fn,), seeds, target=f"Particle.{w}.setter"))
        for w in ("r2_sp", "r2_sp_b"):
            out.append(Case(f"set {w} {fn}", "setter", dict(which=w, conv="asymmetric"), fn, (fn,), seeds, target=f"Particle.{w}.setter"))
    for w in ("r2_sp", "r2_sp_b", "ctor", "four_mom"):
        out.append(Case(f"degenerate {w}", "degenerate", dict(which=w), "mpc", ("mpc",) if w == "four_mom" else ("mpc", "finite field"), seeds, target=("Particle._set_r_sp_d", "Particle._set_l_sp_d")))
    out.append(Case("getitem", "getitem", {}, "mpc", ("mpc",), seeds, target="Particle.__getitem__"))
    for src, dst in (("rational", "finite field"), ("rational", "padic"), ("rational", "mpc"), ("finite field", "padic"), ("mpc", "mpc")):
        out.append(Case(f"to_field {src}->{dst}", "tofield", dict(other=dst), src, (src,) if src != "finite field" else ("rational",), seeds, target="Particle.to_field"))
    return out
