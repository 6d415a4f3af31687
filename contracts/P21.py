"""P21 analytic and numeric kinematics are interchangeable.

The analytic side runs on real sympy symbols, the numeric side on the universally quantified components of a generic point;
the two values are compared as rational functions, so one obligation covers every kinematic point of every field."""
import itertools
import sympy
from .common import *                                              # noqa
from vc.domain import REAL_FIELDS
import lips.algebraic_geometry.particles_singular_variety as sv
from lips.algebraic_geometry.tools import lips_covariant_symbols

LEVEL = "proof"
ASSUMPTIONS = ["sympy's arithmetic on symbols and sympy.Expr.subs are trusted (external dependency)",
               "expressions and multiplicities enumerated; the kinematics are universally quantified",
               "in-place substitution: the symbols go to arbitrary expressions in new symbols (proved); the final conversion of an integer to the field is a runtime contract on F_p and Q_p",
               "in-place substitution is claimed for finite and p-adic fields only (the others are rejected by the dependency)"]

FIELDS = ("finite field", "padic", "mpc", "rational")
EXPR = {3: ["⟨1|2⟩", "[1|2]", "⟨2|1⟩[1|3]/[2|3]", "s_12"],
        4: ["⟨1|2⟩", "[3|4]", "⟨1|(2+3)|4]", "⟨1|2|3|4⟩", "[1|2|3|4]", "s_12", "s_123", "tr(1|2|3|4)", "⟨1|2⟩[2|3]-3/5⟨3|4⟩^2/[1|4]", "(s_12+2)^3-s_23", "m_t^2⟨1|2⟩-m_t[1|2]"],
        5: ["⟨1|(2+3)|(4+5)|1⟩", "tr5_1234", "Δ_12|34|5", "s_345/7+⟨1|2⟩^2/s_12", "tr(1|2|3|4+5)", "[1|2|3|4|5⟩"],
        6: ["Δ_12|34|56", "⟨1|(2+3)|(4+5)|6⟩", "s_123s_345", "Ω_123", "Π_351"]}


def ev(e, env, D):
    """value of a sympy expression when its symbols take the values of env (the only oracle: ring arithmetic)"""
    if not isinstance(e, sympy.Basic):
        return e
    if e.is_Symbol:
        return env[e]
    if e is sympy.I:
        return D.imag()
    if e.is_Rational:
        return D.const(int(e.p)) / D.const(int(e.q))
    if e.is_Float:
        r = sympy.nsimplify(e)
        return D.const(int(r.p)) / D.const(int(r.q))
    if e.is_Add:
        r = ev(e.args[0], env, D)
        for x in e.args[1:]:
            r = r + ev(x, env, D)
        return r
    if e.is_Mul:
        r = ev(e.args[0], env, D)
        for x in e.args[1:]:
            r = r * ev(x, env, D)
        return r
    if e.is_Pow and e.exp.is_Integer:
        b, k = ev(e.base, env, D), int(e.exp)
        return b ** k if k > 0 else D.const(1) / b ** -k
    raise TypeError(f"unexpected {e!r}")


def evarr(a, env, D):
    b = numpy.empty(a.shape, dtype=object)
    for k, x in enumerate(a.flatten()):
        b[numpy.unravel_index(k, a.shape)] = ev(x, env, D)
    return b


def comps(p):
    return [p.r_sp_d[0, 0], p.r_sp_d[1, 0], p.l_sp_d[0, 0], p.l_sp_d[0, 1]]


class Leg:
    """a leg whose components have been evaluated"""

    def __init__(self, p, env, D, four):
        for k in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b"):
            setattr(self, k, evarr(getattr(p, k), env, D))
        ok = four and p.four_mom is not None and all(x is not None for x in p.four_mom)
        self.four_mom = evarr(p.four_mom, env, D) if ok else None
        self.four_mom_d = evarr(p.four_mom_d, env, D) if ok else None
        self.m2 = ev(sympy.sympify(p.m2), env, D)


def analytic(D, fname, n, **kw):
    with D.pristine():
        o = Particles(n, field=REAL_FIELDS[fname](), seed=1)
        o.make_analytical_d(**kw)
    return o


def generic(D, n, sym="abcd", tag="g"):
    """arbitrary value for each canonical symbol"""
    return {sympy.Symbol(f"{s}{i}"): D.scalar(f"{tag}{s}{i}") for i in range(1, n + 1) for s in sym}


def symbols(D, n, fname, pattern=None, names=None):
    """exactly the requested components become their canonical symbols, the others are untouched, and every leg is coherent"""
    with D.pristine():
        o = Particles(n, field=REAL_FIELDS[fname](), seed=1, fix_mom_cons=n > 2)
        o.make_analytical_d(symbols=("w", "x", "y", "z"))            # arbitrary previous components
        ids = [id(p) for p in list.__iter__(o)]
        kw = {}
        if pattern is not None:
            kw["indepVars"] = pattern
        if names is not None:
            kw["symbols"] = names
        r = o.make_analytical_d(**kw)
    D.true("returns nothing", r is None)
    D.true("same legs", ids == [id(p) for p in list.__iter__(o)])
    env = {**generic(D, n), **generic(D, n, "wxyz"), **(generic(D, n, names, "h") if names else {})}
    for i in range(1, n + 1):
        p = o[i]
        for k, (old, new, got) in enumerate(zip("wxyz", names or "abcd", comps(p))):
            keep = pattern is not None and pattern[4 * (i - 1) + k]
            want = sympy.Symbol(f"{old if keep else new}{i}")
            D.true(f"leg {i} component {k + 1} is {want}", got == want, got)
        coherent(D, f"leg {i}", Leg(p, env, D, D.fname == "mpc"), True, True)


def previous(D, n, fname, pattern):
    """components that are kept keep their numbers"""
    with D.pristine():
        o = Particles(n, field=REAL_FIELDS[fname](), seed=3)
        before = [comps(p) for p in list.__iter__(o)]
        o.make_analytical_d(indepVars=pattern)
    for i in range(1, n + 1):
        for k, (b, g) in enumerate(zip(before[i - 1], comps(o[i]))):
            want = b if pattern[4 * (i - 1) + k] else sympy.Symbol(f"{'abcd'[k]}{i}")
            D.true(f"leg {i} component {k + 1}", g == want, (g, want))


def dictionary(D, n):
    """the component dictionary of a point"""
    o = D.point(n)
    d = o.analytical_subs_d()
    D.true("one entry per component", len(d) == 4 * n and {str(k) for k in d} == {f"{s}{i}" for s in "abcd" for i in range(1, n + 1)}, list(d))
    for i in range(1, n + 1):
        for s, v in zip("abcd", comps(o[i])):
            D.eq(f"{s}{i}", d[sympy.Symbol(f"{s}{i}")], v)
    order = lips_covariant_symbols(n)
    D.true("symbol order", tuple(order) == tuple(sympy.Symbol(f"{s}{i}") for i in range(1, n + 1) for s in "abcd"), order)
    D.true("symbols of the dictionary are the canonical ones", set(order) == set(d))


def commute(D, n, fname, exprs):
    """evaluate analytically then insert the components == evaluate on the point"""
    num = D.point(n)
    mass = D.scalar("mt")
    with D.setup():
        num.m_t = mass
    env = num.analytical_subs_d()
    M = sympy.Symbol("M")
    env[M] = mass
    a = analytic(D, fname, n)
    for e in exprs:
        with D.pristine():
            a.m_t = M
            v = a(e)
        D.eq(f"{e} commutes with substitution", ev(v, env, D), num(e))


def writeback(D, n, extra):
    """update_particles"""
    o = D.point(n)
    vals = {f"{s}{i}": D.scalar(f"new{s}{i}") for i in range(1, n + 1) for s in "abcd"}
    if extra:
        vals["t"] = D.scalar("other")
    parts = list(list.__iter__(o))
    d = dict(vals)
    sv.update_particles(o, d)
    D.true("same legs", len(o) == n and all(x is y for x, y in zip(list.__iter__(o), parts)))
    D.true("dictionary unchanged", set(d) == set(vals) and all(d[k] is vals[k] for k in d))
    for i in range(1, n + 1):
        for s, v in zip("abcd", comps(o[i])):
            D.eq(f"{s}{i} written", v, vals[f"{s}{i}"])
        coherent(D, f"leg {i}", o[i], True, True)


def roundtrip(D, n):
    """the dictionary of one point written into another one gives the same point"""
    a, b = D.point(n), D.point(n)
    with D.setup():
        sv.update_particles(b, {str(k): v for k, v in a.analytical_subs_d().items()})
    for i in range(1, n + 1):
        for x, y, nm in zip(snapshot(b[i])[:6], snapshot(a[i])[:6], ("|a>", "<a|", "[a|", "|a]", "P^", "P_")):
            D.eq(f"leg {i} {nm}", x, y)


def target_expr(kind, i, k):
    t, u = sympy.symbols("t u")
    v = sympy.Symbol(f"v{4 * i + k}")
    return {"rename": v, "linear": v + (k + 2) * t, "power": t ** (k + 1), "product": 3 * t * v, "mixed": [v, t ** 2, v * t - u, sympy.Integer(5)][k], "zero": sympy.Integer(0)}[kind]


def inplace(D, n, fname, kind, subset=None, masses=True, start=None):
    """subs: every component becomes its image, everything else in step; the point keeps its other content"""
    t, u, M = sympy.symbols("t u M")
    o = analytic(D, fname, n)
    sigma = {sympy.Symbol(f"{s}{i}"): target_expr(kind, i, k) for i in range(1, n + 1) for k, s in enumerate("abcd")}
    if subset is not None:
        sigma = {x: y for j, (x, y) in enumerate(sigma.items()) if j % subset[1] == subset[0]}
    with D.pristine():
        if start:                                                    # components that are not just symbols
            up = {sympy.Symbol(f"{s}{i}"): {"sum": lambda x, y: x + y, "product": lambda x, y: x * y, "square": lambda x, y: x ** 2}[start](sympy.Symbol(f"{s}{i}"), sympy.Symbol(f"{'bcda'[k]}{i}"))
                  for i in range(1, n + 1) for k, s in enumerate("abcd")}
            o.subs(up)
        if masses:
            o.m_t, o.m_H = M, M ** 2 + 1
            o.M_Z = "s_12"
            sigma[M] = {"rename": u, "linear": u + t, "power": t ** 2, "product": 2 * t, "mixed": t ** 3, "zero": sympy.Integer(0 if n % 2 else -7)}[kind]
        before = [comps(p) for p in list.__iter__(o)]
        parts = list(list.__iter__(o))
        given = dict(sigma)
        r = o.subs(sigma)
    D.true("returns nothing", r is None)
    D.true("same legs", len(o) == n and all(x is y for x, y in zip(list.__iter__(o), parts)))
    D.true("the substitution is not modified", sigma == given)
    env = {**generic(D, n), **{s: D.scalar(str(s)) for s in (t, u, M)}, **{sympy.Symbol(f"v{k}"): D.scalar(f"v{k}") for k in range(4 * n + 5)}}
    both = {**env, **{k: ev(v, env, D) for k, v in sigma.items()}}
    ext = o.field
    lift = (lambda x: sympy.Integer(int(x)) if not isinstance(x, sympy.Basic) else x)
    for i in range(1, n + 1):
        for s, b, g in zip("abcd", before[i - 1], comps(o[i])):
            D.eq(f"leg {i}: {s} is the image", ev(centred(lift(g), ext), env, D), ev(b, both, D))
            if not isinstance(g, sympy.Basic):
                D.true(f"leg {i}: {s} number in the field", g in ext if hasattr(ext, "__contains__") else True, g)
            else:
                D.true(f"leg {i}: {s} number in the field", bool(g.free_symbols), g)
        q = Leg_num(o[i], env, D, ext)
        coherent(D, f"leg {i}", q, True, True)
    if masses:
        D.eq("m_t is the image", ev(centred(lift(o.m_t), ext), env, D), both[M])
        D.eq("m_H is the image", ev(centred(lift(o.m_H), ext), env, D), both[M] ** 2 + 1)
        D.true("other masses kept", o.M_Z == "s_12" and o.internal_masses == {"m_t", "m_H", "M_Z"}, (o.M_Z, o.internal_masses))


def centred(x, field):
    """small integers are recognised in their residue class"""
    if isinstance(x, sympy.Integer):
        m = field.characteristic ** field.digits
        r = int(x) % m
        return sympy.Integer(r - m if r > m // 2 else r)
    return x


class Leg_num(Leg):
    def __init__(self, p, env, D, field):
        def conv(a):
            b = numpy.empty(a.shape, dtype=object)
            for k, x in enumerate(a.flatten()):
                y = centred(sympy.Integer(int(x)) if not isinstance(x, sympy.Basic) else x, field)
                b[numpy.unravel_index(k, a.shape)] = ev(y, env, D)
            return b
        for k in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b"):
            setattr(self, k, conv(getattr(p, k)))
        self.four_mom = self.four_mom_d = None
        self.m2 = D.const(0) if isinstance(p.m2, (int, float)) and p.m2 == 0 else conv(numpy.array([p.m2], dtype=object))[0]


def numbers(D, n, values, seed, second):
    """substituting numbers gives an ordinary point of the field with exactly these spinors"""
    F = D.field
    num = D.point(n)
    with D.setup():
        num.m_t = D.scalar("mt")
    o = analytic(D, D.fname, n)
    o.m_t = sympy.Symbol("M")
    d = num.analytical_subs_d()
    d[sympy.Symbol("M")] = num.m_t
    if values == "int":
        d = {k: (7 * j + seed) % 11 for j, k in enumerate(d)}
    elif values == "sympy":
        d = {k: sympy.Integer((3 * j - seed) * (-1) ** j) for j, k in enumerate(d)}
        d[sympy.Symbol("M")] = sympy.Integer(-5 - seed)
    if second:                                                       # in two steps
        half = dict(list(d.items())[: 2 * n + 1])
        o.subs(half)
        for i in range(1, n + 1):
            for s, x in zip("abcd", comps(o[i])):
                D.true(f"leg {i} {s}: untouched symbols stay", sympy.Symbol(f"{s}{i}") in half or x == sympy.Symbol(f"{s}{i}"), x)
    o.subs(d)
    for i in range(1, n + 1):
        for s, x in zip("abcd", comps(o[i])):
            D.true(f"leg {i} {s}: in the field", type(x).__name__ in ("ModP", "PAdic"), type(x))
            D.eq(f"leg {i} {s}", x, F(int(d[sympy.Symbol(f"{s}{i}")])) if values != "own" else d[sympy.Symbol(f"{s}{i}")])
        coherent(D, f"leg {i}", o[i], True, True)
    D.true("mass in the field", type(o.m_t).__name__ in ("ModP", "PAdic"), type(o.m_t))
    D.eq("mass", o.m_t, F(int(d[sympy.Symbol("M")])) if values != "own" else num.m_t)
    if values == "own":
        for e in EXPR[n]:
            D.eq(f"{e} on the substituted point", o(e), num(e))


def cases(tier):
    out = []
    deep = tier != "quick"
    for n in (3, 4, 5, 6):
        out.append(Case(f"component dictionary n={n}", "dictionary", dict(n=n), target=("analytical_subs_d", "lips_covariant_symbols")))
        for ex in (False, True):
            out.append(Case(f"write back n={n}{' extra keys' if ex else ''}", "writeback", dict(n=n, extra=ex), target=("update_particles",)))
        out.append(Case(f"dictionary and write back n={n}", "roundtrip", dict(n=n), target=("update_particles", "analytical_subs_d")))
    for fname in FIELDS:
        for n in (2, 3, 4, 5, 6):
            out.append(Case(f"symbols {fname} n={n}", "symbols", dict(n=n, fname=fname), fname="mpc", target=("make_analytical_d",)))
        out.append(Case(f"symbols {fname} custom names", "symbols", dict(n=4, fname=fname, names=("p", "q", "r", "s")), fname="mpc", target=("make_analytical_d",)))
    pats = {"each leg differently": lambda n: [(i * 7 + i // 4 * 3) % 3 == 0 for i in range(4 * n)], "none requested": lambda n: [1] * (4 * n), "all requested": lambda n: [0] * (4 * n)}
    for k in range(4):
        pats[f"only component {k + 1} kept"] = lambda n, k=k: [int(i % 4 == k) for i in range(4 * n)]
        pats[f"only component {k + 1} requested"] = lambda n, k=k: [int(i % 4 != k) for i in range(4 * n)]
    for nm, f in pats.items():
        for n in (3, 4, 6):
            out.append(Case(f"symbols pattern {nm} n={n}", "symbols", dict(n=n, fname="finite field", pattern=tuple(int(x) for x in f(n))), fname="mpc", target=("make_analytical_d",)))
        for fname in FIELDS:
            out.append(Case(f"kept numbers {fname} {nm}", "previous", dict(n=4, fname=fname, pattern=tuple(int(x) for x in f(4))), closed=True, backend="term comparison", target=("make_analytical_d",)))
    for bits in range(16):                                           # every subset of the components of a leg
        pat = tuple((bits >> k) & 1 for k in range(4))
        out.append(Case(f"symbols leg pattern {pat}", "symbols", dict(n=2, fname="padic", pattern=pat + tuple(1 - x for x in pat)), fname="mpc", target=("make_analytical_d",)))
    for fname in FIELDS:
        for n, ex in EXPR.items():
            for e in ex:
                real = (fname,) if fname in ("finite field", "padic", "rational") else ("mpc",)
                out.append(Case(f"{e} n={n} {fname}", "commute", dict(n=n, fname=fname, exprs=[e]), fname=fname, real=real, seeds=1, target=("make_analytical_d", "_eval")))
    for fname in ("finite field", "padic"):
        for kind in ("rename", "linear", "power", "product", "mixed", "zero"):
            for n in (3, 4) if kind != "mixed" else (3, 4, 5, 6):
                out.append(Case(f"in place {fname} {kind} n={n}", "inplace", dict(n=n, fname=fname, kind=kind), target=("subs",)))
            for st in ("sum", "product", "square"):
                out.append(Case(f"in place {fname} {kind} after {st}", "inplace", dict(n=3, fname=fname, kind=kind, start=st), target=("subs",)))
        for j, m in ((0, 2), (1, 2), (0, 3), (2, 3), (3, 4)):
            out.append(Case(f"in place {fname} subset {j} mod {m}", "inplace", dict(n=4, fname=fname, kind="linear", subset=(j, m)), target=("subs",)))
        out.append(Case(f"in place {fname} no masses", "inplace", dict(n=4, fname=fname, kind="linear", masses=False), target=("subs",)))
        for n in (3, 4, 5):
            for values in ("own", "int", "sympy"):
                for sec in (False, True):
                    out.append(Case(f"numbers {fname} {values} n={n}{' two steps' if sec else ''}", "numbers", dict(n=n, values=values, seed=n, second=sec), deductive=False, fname=fname, real=(fname,), seeds=3 if deep else 1, target=("subs",)))
    return out
