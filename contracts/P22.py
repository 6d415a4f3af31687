"""P22 changing number field commutes with evaluation."""
import contextlib
import copy
from .common import *                                              # noqa
from vc.domain import SymField, REAL_FIELDS, RealDomain
import lips.algebraic_geometry.particles_singular_variety as sv

LEVEL = "proof"
ASSUMPTIONS = ["the cast of the target field is a ring homomorphism on the components (contract of the dependency): modelled as the generic homomorphism x -> x' on every symbol; the concrete pairs (rational to F_p, Q_p, complex, Q[i]; Q_p to F_p; F_p to itself) are runtime contracts",
               "conversions that are not homomorphisms (F_p to Q_p, complex to exact fields) are not claimed to commute; for F_p to Q_p only the components and coherence are",
               "massive legs: spinors are re-derived from the converted momentum, so only expressions in momenta commute for them",
               "tolerance zero in the source field (exact fields; p-adic zeros at the working precision are zero)",
               "after an exception of the target field's cast (denominator divisible by p) the point is unspecified"]

EXPR = ["⟨1|2⟩", "[1|2]", "⟨1|(2+3)|4]", "⟨1|2|3|4⟩", "s_12", "s_123", "tr(1|2|3|4)", "tr5_1234", "⟨1|2⟩[2|3]-3/5⟨3|4⟩^2/[1|4]", "(s_12+2)^3-s_23", "Δ_13"]
MEXPR = ["s_12", "s_13", "s_123", "tr(1|2|3|4)", "s_14/7+s_24^2"]


class Hom(SymField):
    """target field of a generic ring homomorphism"""

    def __init__(self, D, name):
        super().__init__(name)
        self.D, self.memo, self.done, self.busy = D, {}, set(), False
        D.path.assume(D.path.tol == 0)         # exact source fields

    def transfer(self):
        """an equality that holds among the source components holds among their images"""
        from vc.sym import Sym
        import vc.sym as S
        if self.busy:
            return
        self.busy = True
        for k, q in [(("eq", i), Sym(dict(q))) for i, q in enumerate(self.D.path.eqs)] + [(("sub", i), Sym({1 << (S.BITS * i): 1}) - v) for i, v in self.D.path.subst]:
            if k not in self.done and not any(S.NAMES[v].endswith("'") for v in S.pvars(q.n)):
                self.done.add(k)
                z = self(q)
                self.D.path.assume(self.D.path.zero_formula(z))
                self.D.path._learn_zero(z)
        self.busy = False

    def __call__(self, *args):
        from vc.sym import Sym
        import vc.sym as S
        self.transfer()
        x = args[0]
        if x is None or isinstance(x, str):
            return super().__call__(*args)
        x = Sym.lift(x)
        if x is None:
            return super().__call__(*args)

        def image(p):
            t = Sym.const(0)
            for m, c in p.items():
                f, i = Sym.const(c), 0
                while m:
                    e = m & S.ONE_MASK
                    if e:
                        if i not in self.memo:
                            if i in S.SQ and S.SQ[i] != {0: -1}:          # a root goes to some root of the image of its radicand
                                rad = image(S.SQ[i])
                                self.memo[i] = Sym.var(S.NAMES[i] + "'")
                                assert not rad.d and rad.c == 1 and S.INDEX[S.NAMES[i] + "'"] == len(S.NAMES) - 1
                                S._register_sqrt(len(S.NAMES) - 1, dict(rad.n))
                                f = f * self.memo[i] ** e
                                m >>= S.BITS
                                i += 1
                                continue
                            self.memo[i] = Sym.var(S.NAMES[i] + "'")
                            self.memo[S.INDEX[S.NAMES[i] + "'"]] = self.memo[i]
                        f = f * self.memo[i] ** e
                    m >>= S.BITS
                    i += 1
                t = t + f
            return t
        with self.D.setup():
            r = image(x.n) / Sym.const(x.c)
            for k, e in x.d:
                d = image(S.FACT[k])
                self.D.nonzero(d)
                r = r / d ** e
        return r


def target(D, name):
    """-> (field, cast, equality in the target field)"""
    if D.symbolic:
        F = Hom(D, name)
        return F, F, D.eq
    F = REAL_FIELDS[name]()
    T = RealDomain(name, 1)
    T.results = D.results

    def eq(nm, a, b):
        from vc.domain import _entries
        bad = [x for x in _entries(a) or [] if x is not None and type(x) is not type(F(1))]
        D.true(f"{nm} (in the target field)", not bad, f"{bad[:1]} is not an element of {F}")
        return T.eq(nm, a, b)
    return F, F, eq


def mapped(F, a):
    if a is None:
        return None
    b = numpy.empty(a.shape, dtype=object)
    for k, x in enumerate(a.flatten()):
        b[numpy.unravel_index(k, a.shape)] = F(x)
    return b


class view:
    """coherence is judged in the target field"""

    def __init__(self, D, name):
        self.D = D
        if not D.symbolic:
            self.T = RealDomain(name, 1)
            self.T.results = D.results

    def __call__(self):
        return self.D if self.D.symbolic else self.T


def legs(D, n, to, massive=(), conserve=False, exprs=(), conv=None, masses=True, same=False):
    with convention(conv) if conv else contextlib.nullcontext():
        o = D.point(n, massive=massive, conserve=conserve)
        with D.setup():
            o.oRefVec = Particle((D.col("q"), D.row("qt")), field=D.field)
            if same:                                                 # coinciding momenta
                o[2] = copy.deepcopy(o[1])
                o.oRefVec = copy.deepcopy(o[3])
            if masses:
                o.m_t, o.m_H = D.scalar("mt"), D.scalar("mh")
                o.M_Z = "s_12"
                o.m_W = 7
        F, cast, eq = target(D, to)
        V = view(D, to)()
        parts = list(list.__iter__(o)) + [o.oRefVec]
        before = [snapshot(p) for p in parts]
        vals = [(e, o(e)) for e in exprs]
        m0 = (o.m_t, o.m_H) if masses else ()
        alias = (o("M_Z")) if masses and exprs else None
        r = o.to_field(F)
        D.true("returns nothing", r is None)
        D.true("same legs", len(o) == n and all(a is b for a, b in zip(list(list.__iter__(o)) + [o.oRefVec], parts)))
        D.true("field recorded", o.field is F or o.field == F)
        for k, (p, b) in enumerate(zip(parts, before)):
            nm = f"leg {k + 1}" if k < n else "reference vector"
            D.true(f"{nm}: field recorded", p.field is F or p.field == F)
            eq(f"{nm}: momentum is the image", p.r2_sp, mapped(cast, b[4]))
            eq(f"{nm}: lower momentum is the image", p.r2_sp_b, mapped(cast, b[5]))
            light = k + 1 not in massive
            if light:
                for x, nm2, i in ((p.r_sp_d, "|a>", 0), (p.r_sp_u, "<a|", 1), (p.l_sp_d, "[a|", 2), (p.l_sp_u, "|a]", 3)):
                    eq(f"{nm}: {nm2} is the image", x, mapped(cast, b[i]))
            coherent(V, nm, p, light, True if light else None)
        if masses:
            eq("mass m_t is the image", o.m_t, cast(m0[0]))
            eq("mass m_H is the image", o.m_H, cast(m0[1]))
            eq("mass given as an integer is an element of the target field", o.m_W, cast(7))
            D.true("mass alias kept", o.M_Z == "s_12" and o.internal_masses == {"m_t", "m_H", "M_Z", "m_W"}, (o.M_Z, o.internal_masses))
            if alias is not None:
                eq("mass alias evaluates to the image", o("M_Z"), cast(alias))
        for e, v in vals:
            eq(f"{e} commutes with the conversion", o(e), cast(v))
        if conserve:
            z = cast(D.zero())
            tot = sp.comb({i: o[i].r2_sp for i in range(1, n + 1)}, "+".join(map(str, range(1, n + 1))))
            eq("momentum still conserved", tot, sp.mat([[z, z], [z, z]]))


def fermion(D, to, pos, val):
    """legs with a spin index keep their two spinors"""
    o = D.point(6)
    with D.setup():
        c = o.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, pos, val),))
    b = snapshot(c[3])
    F, cast, eq = target(D, to)
    c.to_field(F)
    D.true("spin index kept", c[3].spin_index == (pos, val))
    for nm, x, y in zip(("|a>", "<a|", "[a|", "|a]", "P^", "P_"), (c[3].r_sp_d, c[3].r_sp_u, c[3].l_sp_d, c[3].l_sp_u, c[3].r2_sp, c[3].r2_sp_b), b):
        eq(f"{nm} is the image", x, mapped(cast, y))


def single(D, to, rep, conv):
    """conversion of one particle built through any representation, light-like or not"""
    with convention(conv):
        with D.setup():
            p = {"spinors": lambda: Particle((D.col("r"), D.row("l")), field=D.field), "rank two": lambda: Particle(D.mat("P"), field=D.field)}[rep]()
        b = snapshot(p)
        F, cast, eq = target(D, to)
        p.to_field(F)
        eq("momentum is the image", p.r2_sp, mapped(cast, b[4]))
        D.true("field recorded", p.field is F or p.field == F)
        coherent(view(D, to)(), "particle", p, rep == "spinors", True if rep == "spinors" else None)
        if rep == "spinors":
            eq("spinors are the image", [p.r_sp_d, p.l_sp_d], [mapped(cast, b[0]), mapped(cast, b[2])])


def reduction(D, n, back=False):
    """padic_to_finite_field / finite_field_to_padic act component by component and keep every representation in step"""
    o = D.point(n)
    F, cast, eq = target(D, "padic" if back else "finite field")
    if D.symbolic:
        for nm in ("ModP", "PAdic"):
            if hasattr(sv, nm):
                D.patch.set(sv, nm, lambda x, *a, **k: cast(x))
    before = [snapshot(p) for p in list.__iter__(o)]
    fld = o.field
    if back:
        if not D.symbolic:
            o.field = F                                     # the function reads the p-adic field from the point
        sv.finite_field_to_padic(o)
    else:
        sv.padic_to_finite_field(o)
    V = view(D, "padic" if back else "finite field")()
    for k, (p, b) in enumerate(zip(list(list.__iter__(o)), before), start=1):
        coherent(V, f"leg {k}", p, True, True)
        eq(f"leg {k}: |a>", p.r_sp_d, mapped(cast, b[0]))
        eq(f"leg {k}: [a|", p.l_sp_d, mapped(cast, b[2]))
    D.true("multiplicity", len(o) == n)


def twice(D):
    """converting back and forth and to the same field"""
    o = D.point(3)
    F, cast, eq = target(D, "finite field")
    b = [snapshot(p) for p in list.__iter__(o)]
    o.to_field(F)
    b1 = [snapshot(p) for p in list.__iter__(o)]
    o.to_field(F)
    for k in range(3):
        for x, y in zip(snapshot(o[k + 1])[:6], b1[k][:6]):
            eq(f"leg {k + 1}: converting again changes nothing", x, y)


def cases(tier):
    out = []
    T = ("Particles.to_field", "Particle.to_field")
    pairs = [("rational", "finite field"), ("rational", "padic"), ("rational", "mpc"), ("rational", "gaussian rational"), ("padic", "finite field"), ("finite field", "finite field")]
    for src, to in pairs:
        kw = dict(fname=src, real=(src,), seeds=2, target=T, timeout=200)
        for n in (1, 2, 4, 5, 6):
            ex = [e for e in EXPR if n >= 4 and not (e == "Δ_13" and n != 4) and not (n < 5 and "tr5" in e)] if n in (4, 5) else ()
            ex = [e for e in ex if e != "Δ_13"]
            out.append(Case(f"{src} to {to} n={n}", "legs", dict(n=n, to=to, exprs=ex, masses=n != 2), **kw))
        out.append(Case(f"{src} to {to} coinciding momenta", "legs", dict(n=4, to=to, same=True), **kw))
        for c in ("square", "angle"):
            out.append(Case(f"{src} to {to} conserving ({c})", "legs", dict(n=4, to=to, conserve=c), **kw))
        for m in ((4,), (1, 3), (1, 2, 3, 4)):
            out.append(Case(f"{src} to {to} massive {m}", "legs", dict(n=4, to=to, massive=m, exprs=MEXPR, conv="asymmetric"), **kw))
        for rep in ("spinors", "rank two"):
            for conv in ("symmetric", "asymmetric"):
                out.append(Case(f"{src} to {to} {rep} {conv}", "single", dict(to=to, rep=rep, conv=conv), **kw))
        for pos in "ud":
            for val in (1, 2, all):
                out.append(Case(f"{src} to {to} fermion {pos}{val if val != all else 'all'}", "fermion", dict(to=to, pos=pos, val=val), **kw))
    out.append(Case("again", "twice", {}, target=T))
    for n in (1, 3, 4, 6):
        out.append(Case(f"p-adic to finite field reduction n={n}", "reduction", dict(n=n), fname="padic", real=("padic",), seeds=2, target=("padic_to_finite_field",)))
        out.append(Case(f"finite field to p-adic n={n}", "reduction", dict(n=n, back=True), real=("finite field",), seeds=2, target=("finite_field_to_padic",)))
    return out
