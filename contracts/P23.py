"""P23 slices through phase space.

The slice functions run unmodified on sympy symbols over F_p: the base point (result of the solver), the shift directions and
the solution of the slice equations are universally quantified; the two external solvers are replaced by their contracts
(an arbitrary point on the variety that was asked for).  Every obligation is an ideal membership decided by Singular."""
import contextlib
import random
import subprocess
import sympy
import syngular
from syngular import Ideal, Ring, Field
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["contract of the external solver (Ideal.point_on_variety, Ring.univariate_slice, _singular_variety): the returned point lies on the variety asked for, and is determined by the seed; a returned parameter may be zero",
               "identities decided over F_p with p = 2^31-1; multiplicity and constraints enumerated",
               "substituting numbers for the parameters and the solver itself are bounded runtime contracts on the real field",
               "the two solvers inside syngular give up after a wall-clock timeout, so equal seeds are claimed for what lips passes on, not for the external process"]
PR = 2 ** 31 - 1


# ---- constraints: the text given to lips and its independent value
def _v(i, j):
    return lambda s: sp.ang(s, i, j)


def _w(i, j):
    return lambda s: sp.sqr(s, i, j)


CONS = {
    "⟨1|2⟩": _v(1, 2), "[1|2]": _w(1, 2), "[2|4]": _w(2, 4),
    "⟨12⟩+[12]": lambda s: sp.ang(s, 1, 2) + sp.sqr(s, 1, 2),
    "⟨12⟩-⟨34⟩": lambda s: sp.ang(s, 1, 2) - sp.ang(s, 3, 4),
    "s_12-s_34": lambda s: sp.mand(s, [1, 2]) - sp.mand(s, [3, 4]),
    "s_12": lambda s: sp.mand(s, [1, 2]), "s_123": lambda s: sp.mand(s, [1, 2, 3]),
    "⟨1|(2+3)|4]": lambda s: sp.value(s, "⟨1|(2+3)|4]"),
    "⟨12⟩[23]⟨34⟩-⟨14⟩": lambda s: sp.ang(s, 1, 2) * sp.sqr(s, 2, 3) * sp.ang(s, 3, 4) - sp.ang(s, 1, 4),
}


def coeffs(expr, params, vars_):
    """coefficients of a polynomial expression in the parameters, as polynomials in the other symbols mod p"""
    e = sympy.expand(expr)
    if e == 0:
        return {}
    P = sympy.Poly(e, *params, *vars_, modulus=PR)
    k = len(params)
    out = {}
    for m, c in P.terms():
        out.setdefault(m[:k], []).append((m[k:], int(c)))
    return {m: sympy.Poly(dict(t), *vars_, modulus=PR) for m, t in out.items()}


def text(p, names):
    return "+".join("*".join([str(int(c) % PR)] + [f"{names[i]}^{e}" for i, e in enumerate(m) if e]) for m, c in p.terms()) or "0"


def linear_members(goals, hyps):
    """goals that are constant linear combinations of the hypotheses (Gauss elimination over F_p) -> list of bool"""
    rows = {}

    def reduce(v):
        v = dict(v)
        for m in sorted(v, reverse=True):
            c = v.get(m, 0)
            if c and m in rows:
                for k, x in rows[m].items():
                    y = (v.get(k, 0) - c * x) % PR
                    if y:
                        v[k] = y
                    else:
                        v.pop(k, None)
        return v

    def full(v):
        while True:
            w = reduce(v)
            if not any(m in rows for m in w):
                return w
            v = w
    for h in hyps:
        v = full({m: int(c) % PR for m, c in h.terms() if int(c) % PR})
        if v:
            m = max(v)
            inv = pow(v[m], -1, PR)
            rows[m] = {k: x * inv % PR for k, x in v.items()}
    return [not full({m: int(c) % PR for m, c in g.terms() if int(c) % PR}) for g in goals]


def members(goals, hyps, vars_):
    """all goals in the ideal generated by the hypotheses (F_p)?  -> list of True / False / None (no verdict in time)"""
    hyps = [h for h in hyps if not h.is_zero]
    lin = linear_members(goals, hyps)
    if all(lin):
        return lin
    names = [f"v{i}" for i in range(len(vars_))]
    rest = [g for g, ok in zip(goals, lin) if not ok]
    bound = max(g.total_degree() for g in rest) + 1
    prog = f"ring r={PR},({','.join(names)}),dp;degBound={bound};ideal J={','.join(text(h, names) for h in hyps) or '0'};J=std(J);"
    for g in rest:
        prog += f"reduce({text(g, names)},J)==0;"
    try:
        r = subprocess.run(["Singular", "-q", "--no-rc"], input=prog + "quit;", capture_output=True, text=True, timeout=60)
        out = [x.strip() for x in r.stdout.strip().splitlines() if x.strip() in ("0", "1")]
        assert len(out) == len(rest), (r.stdout[-500:], r.stderr[-500:])
        it = iter([x == "1" for x in out])
    except subprocess.TimeoutExpired:
        it = iter([None] * len(rest))
    return [ok or next(it) for ok in lin]


def setspin(p, a, b, c, d):
    p.__dict__.update(Particle((numpy.array([[a], [b]], dtype=object), numpy.array([[c, d]], dtype=object)), field=p.field).__dict__)


@contextlib.contextmanager
def solvers(log, zeros=0):
    """stand-ins with the contract of the external solvers"""
    saved = []

    def patch(obj, name, fn):
        saved.append((obj, name, name in obj.__dict__, obj.__dict__.get(name)))
        setattr(obj, name, fn)

    def singular_variety(self, invariants, valuations=(), generators=[], indepSetNbr=None, indepSet='guess', seed=None, verbose=False, no_base_point=False):
        log["base"] = list(invariants)
        log["valuations"] = tuple(valuations)
        log["seeds"].append(("base", seed))
        for i, p in enumerate(list.__iter__(self), start=1):
            setspin(p, *sympy.symbols(f"a{i} b{i} c{i} d{i}"))

    def randomise(self, real_momentum=False):
        k = log["draws"] = log["draws"] + 1
        log["seeds"].append(("draw", hash(random.getstate())))
        log["shift"].append(sympy.symbols(f"u{k} v{k} w{k} z{k}"))
        setspin(self, *log["shift"][-1])

    def point_on_variety(self, field, base_point={}, directions=None, valuations=(), indepSetNbr=None, indepSet='guess', seed=None, verbose=False, **kw):
        log["seeds"].append(("point", seed))
        log["calls"] += 1
        log["gens"] = list(map(str, self.generators))
        log["ring"] = str(self.ring.field)
        log["vars"] = [sympy.Symbol(str(v)) for v in self.ring.variables]
        if log["calls"] <= zeros:
            return {str(v): (ModP_(0, field) if k == len(log["vars"]) - 1 else sympy.Symbol(f"bad{k}")) for k, v in enumerate(log["vars"])}
        log["sol"] = {str(v): sympy.Symbol(f"X{k}") for k, v in enumerate(log["vars"])}
        return dict(log["sol"])

    def univariate_slice(ring, field, extra_approximate_constraints=(), indepSet=None, seed=None, verbose=False):
        log["seeds"].append(("slice", seed))
        log["gens"] = list(map(str, ring.ideal.generators)) if hasattr(ring, "ideal") else []
        log["vars"] = [sympy.Symbol(str(v)) for v in ring.variables]
        return lambda t: {str(v): sympy.Symbol(f"p{v}") + t * sympy.Symbol(f"q{v}") for v in log["vars"]}
    patch(Particles, "_singular_variety", singular_variety)
    patch(Particle, "randomise", randomise)
    patch(Ideal, "point_on_variety", point_on_variety)
    patch(Ideal, "test_valid_ideal", lambda s: None)
    patch(Ring, "univariate_slice", univariate_slice)
    log["real_randomise"] = saved[1][3]
    try:
        yield patch
    finally:
        for obj, name, had, old in reversed(saved):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


def ModP_(x, field):
    from pyadic import ModP
    return ModP(x, field.characteristic)


def newlog():
    return dict(seeds=[], shift=[], draws=0, calls=0, gens=None, base=None)


def run(D, n, cons, two, seed, zeros=0, masses=None):
    log = newlog()
    o = Particles(n, field=D.field, seed=3)
    if masses:
        o.m_t = D.field.random()
    with solvers(log, zeros):
        f = o.bivariate_slice if two else o.univariate_slice
        kw = {} if seed == "default" else dict(seed=seed)
        r = f(**kw) if cons is None else f(extra_constraints=tuple(cons), **kw)
    log["returned"] = r
    return o, log


def polynomial(o, n):
    """the resulting spinors, and coherence of every leg"""
    return {i: (o[i].r_sp_d, o[i].l_sp_d) for i in range(1, n + 1)}


def total(rl):
    M = None
    for r, l in rl.values():
        T = sp.P_low(r, l)
        M = T if M is None else sp.madd(M, T)
    return sp.flat(M)


class S_:
    """snapshot in the form the specification functions expect"""

    def __init__(self, rl):
        self.r = {i: r for i, (r, l) in rl.items()}
        self.l = {i: l for i, (r, l) in rl.items()}
        self.up = {i: sp.P_up(r, l) for i, (r, l) in rl.items()}
        self.low = {i: sp.P_low(r, l) for i, (r, l) in rl.items()}
        self.n = len(rl)


def covariant(D, n, cons, two, seed=1, zeros=0):
    with D.pristine():
        o, log = run(D, n, cons, two, seed, zeros)
        params = sympy.symbols("t1 t2") if two else (sympy.Symbol("t"),)
        rl = polynomial(o, n)
        names = cons or ()
        D.true("multiplicity and field unchanged", len(o) == n and o.field is D.field)
        D.true("the solver is asked for the constraints", set(log["base"]) == set(names) and len(log["valuations"]) in (0, len(names)), log["base"])
        X = list(log["sol"].values())
        base = [sympy.Symbol(f"{x}{i}") for i in range(1, n + 1) for x in "abcd"]
        vars_ = sorted(set(X + base + [s for sh in log["shift"] for s in sh]), key=str)
        free = set().union(*[e.free_symbols for r, l in rl.values() for M in (r, l) for e in M.flatten() if hasattr(e, "free_symbols")])
        D.true("spinors are polynomials in the slice parameters only", free <= set(vars_) | set(params) and free & set(params) == set(params), free - set(vars_))
        D.true("every unknown solved for enters the slice", set(X) <= free, set(X) - free)
        if not free <= set(vars_) | set(params):
            return
        # hypotheses: base point conserves momentum and satisfies what was asked for; the solution solves the equations
        rl0 = {i: (numpy.array([[sympy.Symbol(f"a{i}")], [sympy.Symbol(f"b{i}")]], dtype=object), numpy.array([[sympy.Symbol(f"c{i}"), sympy.Symbol(f"d{i}")]], dtype=object)) for i in range(1, n + 1)}
        hyp = [sympy.Poly(sympy.expand(e), *vars_, modulus=PR) for e in total(rl0)]
        s0 = S_(rl0)
        hyp += [sympy.Poly(sympy.expand(CONS[c](s0)), *vars_, modulus=PR) for c in names]
        back = {sympy.Symbol(k): v for k, v in log["sol"].items()}
        D.true("solved over the right field", log["ring"] == str(PR), log["ring"])
        hyp += [sympy.Poly(sympy.sympify(g.replace("^", "**"), locals={str(v): v for v in vars_ + log["vars"]}).xreplace(back), *vars_, modulus=PR) for g in log["gens"]]
        goals, gnames = [], []
        for k, e in enumerate(total(rl)):
            for m, c in coeffs(e, params, vars_).items():
                goals.append(c)
                gnames.append(f"momentum conservation entry {k} at order {m}")
        s = S_(rl)
        for c in names:
            for m, q in coeffs(CONS[c](s), params, vars_).items():
                goals.append(q)
                gnames.append(f"constraint {c} at order {m}")
        for nm, ok in zip(gnames, members(goals, hyp, vars_)):
            if ok is not None:                     # (no verdict: left to the runtime contract)
                D.true(f"{nm} vanishes", ok)
        # on shell: every representation is that of |i>[i|
        for i, (r, l) in rl.items():
            for tag, A, B in (("lower", o[i].r2_sp_b, sp.P_low(r, l)), ("upper", o[i].r2_sp, sp.P_up(r, l)), ("<i|", o[i].r_sp_u, sp.r_up(r)), ("|i]", o[i].l_sp_u, sp.l_up(l))):
                for x, y in zip(sp.flat(A), sp.flat(B)):
                    D.true(f"leg {i}: {tag} representation in step", not coeffs(x - y, params, vars_))
            D.true(f"leg {i}: light-like", not coeffs(sp.det2(o[i].r2_sp), params, vars_))
        # the part of order zero is the base point, the shift is a multiple of the drawn directions
        for i, (r, l) in rl.items():
            for e, b in zip(sp.flat(r) + sp.flat(l), "abcd"):
                c = coeffs(e, params, vars_)
                D.true(f"leg {i}: base point at the origin of the slice ({b})", coeffs(c[(0,) * len(params)].as_expr() - sympy.Symbol(f"{b}{i}"), params, vars_) == {})
                D.true(f"leg {i}: spinors linear in the parameters ({b})", all(sum(m) <= 1 for m in c), list(c))
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                for nm, e in ((f"⟨{i}|{j}⟩", sp.ang(s, i, j)), (f"[{i}|{j}]", sp.sqr(s, i, j))):
                    deg = {m for m in coeffs(e, params, vars_)}
                    D.true(f"{nm} linear in each parameter", all(max(m) <= 1 for m in deg), deg)
                    if not two:
                        D.true(f"{nm} has degree one", (1,) in deg, deg)
                if i == 1:
                    v = o(f"⟨1|{j}⟩")
                    D.true(f"⟨1|{j}⟩ evaluates on the slice", not coeffs(v - sp.ang(s, 1, j), params, vars_))
        if zeros:
            D.true("a solution with a vanishing parameter is discarded", log["calls"] == zeros + 1, log["calls"])


def generic(D, n, cons, seed=1):
    with D.pristine():
        log = newlog()
        o = Particles(n, field=D.field, seed=3)
        with solvers(log) as patch:
            Particle.randomise = log["real_randomise"]
            o.univariate_slice(extra_constraints=tuple(cons), seed=seed, algorithm="generic")
        t = sympy.Symbol("t")
        rl = polynomial(o, n)
        vars_ = [sympy.Symbol(f"{x}{v}") for v in log["vars"] for x in "pq"]
        order = {f"{x}{i}" for i in range(1, n + 1) for x in "abcd"}
        D.true("slices in the spinor components", {str(v) for v in log["vars"]} == order)
        for i, (r, l) in rl.items():
            for e, b in zip(sp.flat(r) + sp.flat(l), "abcd"):
                D.true(f"leg {i}: component {b} written back", sympy.expand(e - sympy.Symbol(f"p{b}{i}") - t * sympy.Symbol(f"q{b}{i}")) == 0)
            for tag, A, B in (("lower", o[i].r2_sp_b, sp.P_low(r, l)), ("upper", o[i].r2_sp, sp.P_up(r, l)), ("<i|", o[i].r_sp_u, sp.r_up(r)), ("|i]", o[i].l_sp_u, sp.l_up(l))):
                for x, y in zip(sp.flat(A), sp.flat(B)):
                    D.true(f"leg {i}: {tag} representation in step", not coeffs(x - y, (t,), vars_))
        line = {v: sympy.Symbol(f"p{v}") + t * sympy.Symbol(f"q{v}") for v in log["vars"]}
        loc = {str(v): v for v in log["vars"]}
        hyp = []
        for g in log["gens"]:
            hyp += list(coeffs(sympy.sympify(g.replace("^", "**"), locals=loc).xreplace(line), (t,), vars_).values())
        # membership is decided before the substitution t -> line: every goal lies in the quotient ideal
        comp = [sympy.Symbol(str(v)) for v in log["vars"]]
        rl0 = {i: (numpy.array([[sympy.Symbol(f"a{i}")], [sympy.Symbol(f"b{i}")]], dtype=object), numpy.array([[sympy.Symbol(f"c{i}"), sympy.Symbol(f"d{i}")]], dtype=object)) for i in range(1, n + 1)}
        H = [sympy.Poly(sympy.sympify(g.replace("^", "**"), locals=loc), *comp, modulus=PR) for g in log["gens"]]
        s0 = S_(rl0)
        goals = [sympy.Poly(sympy.expand(e), *comp, modulus=PR) for e in total(rl0) + [CONS[c](s0) for c in cons]]
        for nm, ok in zip([f"momentum conservation {k}" for k in range(4)] + list(cons), members(goals, H, comp)):
            if ok is not None:
                D.true(f"{nm} holds along the slice", ok, log["gens"])
        D.true("seed passed on", ("slice", seed) in log["seeds"], log["seeds"])


def seeds(D, n, cons, two, seed, zeros=0):
    """everything drawn or requested is determined by the seed, not by the state of the generator before the call"""
    with D.pristine():
        seen = []
        for k in (1, 2):
            o = Particles(n, field=D.field, seed=3)
            log = newlog()
            random.seed(k * 7919)
            with solvers(log, zeros):
                (o.bivariate_slice if two else o.univariate_slice)(extra_constraints=cons, seed=seed)
            seen.append(log["seeds"])
        D.true("same draws and same solver seeds", seen[0] == seen[1], seen)
        D.true("the solver receives the seed", all(x[1] is not None for x in seen[0] if x[0] in ("base", "point")), seen[0])
        pts = [x[1] for x in seen[0] if x[0] == "point"]
        D.true("a retry uses another seed", len(set(pts)) == len(pts), pts)


def real(D, n, cons, two=False, algorithm="covariant", seed=1, p=PR):
    """the whole function, solver included"""
    with D.pristine():
        F = Field("finite field", p, 1)
        o = Particles(n, field=F, seed=5)
        kw = dict(extra_constraints=tuple(cons), seed=seed)
        (o.bivariate_slice if two else o.univariate_slice)(**kw, **({} if two else dict(algorithm=algorithm)))
        params = sympy.symbols("t1 t2") if two else (sympy.Symbol("t"),)

        def zero(e):
            e = sympy.expand(e)
            return e == 0 or sympy.Poly(e, *params, modulus=p).is_zero
        rl = polynomial(o, n)
        for k, e in enumerate(total(rl)):
            D.true(f"momentum conserved identically {k}", zero(e))
        s = S_(rl)
        for c in cons:
            D.true(f"constraint {c} vanishes identically", zero(CONS[c](s)))
        for val in (0, 1, 12345):
            q = o.copy()
            q.subs({x: val + k for k, x in enumerate(params)})
            ok = all(type(x).__name__ == "ModP" for i in range(1, n + 1) for M in (q[i].r_sp_d, q[i].l_sp_d) for x in M.flatten())
            D.true(f"parameters {val}: components are field elements", ok, [type(x).__name__ for x in q[1].r_sp_d.flatten()])
            if not ok:
                continue
            D.true(f"parameters {val}: conserves momentum", q.momentum_conservation_check() and q.onshell_relation_check())
            for c in cons:
                D.true(f"parameters {val}: {c}", q(c) == 0, q(c))
            for i in range(1, n + 1):
                D.eq(f"parameters {val}: leg {i} P=|i>[i|", q[i].r2_sp_b, sp.P_low(q[i].r_sp_d, q[i].l_sp_d))
                e = [x.subs({y: val + k for k, y in enumerate(params)}) if hasattr(x, "subs") else x for M in (o[i].r_sp_d, o[i].l_sp_d) for x in M.flatten()]
                D.true(f"parameters {val}: leg {i} components", [int(F(int(x))) for x in e] == [int(x) for M in (q[i].r_sp_d, q[i].l_sp_d) for x in M.flatten()])
        o2 = Particles(n, field=F, seed=5)
        random.seed(999)
        if algorithm == "covariant":
            (o2.bivariate_slice if two else o2.univariate_slice)(**kw)
            if seed is not None:
                D.true("equal seeds give equal slices", all(sympy.expand(x - y) == 0 for i in range(1, n + 1) for A, B in ((o[i].r_sp_d, o2[i].r_sp_d), (o[i].l_sp_d, o2[i].l_sp_d)) for x, y in zip(A.flatten(), B.flatten())))


def refused(D):
    with D.pristine():
        o = Particles(4, field=D.field, seed=3)
        for tag, f in (("univariate indepSets", lambda: o.univariate_slice(indepSets=(1,))), ("bivariate indepSets", lambda: o.bivariate_slice(indepSets=(1,))),
                       ("univariate algorithm", lambda: o.univariate_slice(algorithm="nonsense")), ("bivariate algorithm", lambda: o.bivariate_slice(algorithm="nonsense")),
                       ("bivariate generic", lambda: o.bivariate_slice(algorithm="generic"))):
            before = [sp.flat(p.r_sp_d) + sp.flat(p.l_sp_d) for p in list.__iter__(o)]
            try:
                f()
                D.true(f"{tag} refused", False)
            except Exception:
                D.true(f"{tag} refused", True)
            D.true(f"{tag}: point unchanged", before == [sp.flat(p.r_sp_d) + sp.flat(p.l_sp_d) for p in list.__iter__(o)])


def cases(tier):
    q = tier == "quick"
    F = ("finite field",)
    U, B = ("Particles_Slices.univariate_slice", "Particles.subs"), ("Particles_Slices.bivariate_slice", "Particles.subs")
    kw = dict(real=F, seeds=1, closed=True, backend="Gauss elimination, then Singular ideal membership, over F_p", timeout=400)
    out = []
    sets = [None, (), ("⟨1|2⟩",), ("[1|2]",), ("⟨12⟩+[12]",), ("s_12-s_34",), ("⟨12⟩+[12]", "⟨12⟩-⟨34⟩"), ("⟨1|(2+3)|4]",), ("s_12",)]
    for n in (4, 5, 6):
        for c in sets + ([("s_123", "[2|4]")] if n > 5 else []) + ([] if q else [("⟨12⟩[23]⟨34⟩-⟨14⟩",)]):
            out.append(Case(f"univariate n={n} {c}", "covariant", dict(n=n, cons=c, two=False), target=U, **kw))
        for c in [None, (), ("⟨1|2⟩",), ("⟨12⟩+[12]",)] + ([] if q else [("[1|2]",), ("⟨12⟩-⟨34⟩",), ("s_12",)]):
            out.append(Case(f"bivariate n={n} {c}", "covariant", dict(n=n, cons=c, two=True), target=B, **kw))
        for c in ((), ("⟨1|2⟩",), ("⟨12⟩+[12]", "⟨12⟩-⟨34⟩"), ("s_12-s_34",)):
            if n == 6 and c == ("s_12-s_34",) and q:
                continue
            out.append(Case(f"generic n={n} {c}", "generic", dict(n=n, cons=c), target=U + ("update_particles", "LipsIdeal.__init__"), **kw))
    for two in (False, True):
        for seed in (None, "default", 0, 5):
            for z in (1, 2):
                out.append(Case(f"retry two={two} seed={seed} zeros={z}", "covariant", dict(n=4, cons=(), two=two, seed=seed, zeros=z), target=B if two else U, **kw))
        for seed in (0, 1, 17):
            for z in (0, 1, 2):
                out.append(Case(f"seeds two={two} {seed} zeros={z}", "seeds", dict(n=5, cons=("⟨1|2⟩",), two=two, seed=seed, zeros=z), target=B if two else U, **kw))
    out.append(Case("refused options", "refused", {}, real=F, closed=True, target=U + B))
    kr = dict(real=F, seeds=1, deductive=False, timeout=400, bound="one base point and seed, solver run for real")
    for n in (4, 5, 6) if q else (4, 5, 6, 7, 8):
        for c in ((), ("⟨1|2⟩",), ("⟨12⟩+[12]",)):
            out.append(Case(f"real univariate n={n} {c}", "real", dict(n=n, cons=c), target=U, **kr))
        if not q or n < 6:
            out.append(Case(f"real bivariate n={n}", "real", dict(n=n, cons=(), two=True), target=B, **kr))
        if not q or n == 4:
            out.append(Case(f"real generic n={n}", "real", dict(n=n, cons=("⟨1|2⟩",), algorithm="generic"), target=U, **kr))
    out.append(Case("real univariate no seed small prime", "real", dict(n=6, cons=(), seed=None, p=10007), target=U, **kr))
    return out
