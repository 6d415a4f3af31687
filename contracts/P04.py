"""P04 diagnostics: momentum check, on-shell check, outlier report."""
import io
import itertools
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["magnitudes live in a totally ordered set; the tolerance is an arbitrary non-negative threshold",
               "the default bracket list (all pairs) is decided at run time; symbolic ordering proofs use lists of up to three invariants"]


def total(oPs):
    n = len(oPs)
    return sp.comb({i: oPs[i].r2_sp for i in range(1, n + 1)}, "+".join(str(i) for i in range(1, n + 1)))


def state(oPs):
    return [snapshot(oPs[i]) for i in range(1, len(oPs) + 1)]


def frame(D, tag, oPs, st):
    for i, s in enumerate(st):
        unchanged(D, f"{tag}: leg {i + 1}", oPs[i + 1], s)


def mom(D, n, massive=(), conserve=False, silent=True):
    oPs = D.point(n, massive=massive, conserve=conserve)
    st = state(oPs)
    with quiet():
        r = oPs.momentum_conservation_check(silent=silent) if silent is not None else oPs.momentum_conservation_check()
    T = total(oPs)
    D.true("answer is a bool", r is True or r is False, r)
    D.true("True iff every component of the total momentum is within tolerance", D.f_iff(r, D.f_and(*[D.f_le_tol(x) for x in T.flatten()])), f"answered {r}")
    D.eq("total momentum", oPs.total_mom, T)
    frame(D, "momentum check", oPs, st)


def mom_one(D, n, which, tiny=False):
    """only one component of the total momentum is non-zero (by an arbitrary amount)."""
    oPs = D.point(n, conserve=True)
    x = D.scalar("x")
    with D.setup():
        T = total(oPs)
        M = oPs[1].r2_sp.copy()
        M = M - T
        M[which // 2, which % 2] = M[which // 2, which % 2] + x
        oPs[1].r2_sp = M
    r = oPs.momentum_conservation_check()
    D.true("True iff that component is within tolerance", D.f_iff(r, D.f_le_tol(x)), f"answered {r} for {x}")


def mom_two(D, n, i, j, sign):
    """two components of the total momentum are off by the same amount, up to a sign."""
    oPs = D.point(n, conserve=True)
    x = D.scalar("x")
    with D.setup():
        M = oPs[1].r2_sp - total(oPs)
        M[i // 2, i % 2] = M[i // 2, i % 2] + x
        M[j // 2, j % 2] = M[j // 2, j % 2] + sign * x
        oPs[1].r2_sp = M
    r = oPs.momentum_conservation_check()
    D.true("True iff that amount is within tolerance", D.f_iff(r, D.f_le_tol(x)), f"answered {r} for {x}")


def shell_two(D, n, i, j, sign):
    """two legs off shell by the same amount, up to a sign."""
    oPs = D.point(n)
    with D.setup():
        M = D.massive("m").r2_sp.copy()
        oPs[i].r2_sp = M.copy()
        oPs[j].r2_sp = M.copy() if sign == 1 else M[::-1].copy()
    r = oPs.onshell_relation_check()
    D.true("True iff that squared mass is within tolerance", D.f_iff(r, D.f_le_tol(sp.det2(M))), f"answered {r}")


def shell(D, n, massive=(), silent=True):
    oPs = D.point(n, massive=massive)
    st = state(oPs)
    with quiet():
        r = oPs.onshell_relation_check(silent=silent)
    D.true("answer is a bool", r is True or r is False, r)
    m2 = [sp.det2(oPs[i].r2_sp) for i in range(1, n + 1)]
    D.true("True iff every squared mass is within tolerance", D.f_iff(r, D.f_and(*[D.f_le_tol(x) for x in m2])), f"answered {r}")
    D.eq("squared masses in order", list(oPs.m2s), m2)
    frame(D, "on-shell check", oPs, st)


def spinorless(D, n, legs, conserve):
    """legs whose spinors are undefined (P^0+P^3 = 0 in the symmetric convention): massive, light-like, or off balance"""
    with convention("symmetric"):
        oPs = D.point(n)
        with D.setup():
            for k in legs:
                M = D.mat(f"M{k}_")
                M[1, 1] = D.zero()
                oPs[k].r2_sp = M
            if conserve:
                k = next(i for i in range(n, 0, -1) if i not in legs)
                oPs[k].r2_sp = oPs[k].r2_sp - total(oPs)
        st = state(oPs)
        r, o = oPs.momentum_conservation_check(), oPs.onshell_relation_check()
        D.true("momentum check", D.f_iff(r, D.f_and(*[D.f_le_tol(x) for x in total(oPs).flatten()])), f"answered {r}")
        D.true("on-shell check", D.f_iff(o, D.f_and(*[D.f_le_tol(sp.det2(oPs[i].r2_sp)) for i in range(1, n + 1)])), f"answered {o}")
        frame(D, "checks", oPs, st)


class quiet:
    def __enter__(self):
        import sys
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        import sys
        sys.stdout = self.o


def threshold(D):
    if D.fname == "padic":
        from pyadic import PAdic
        return PAdic(0, D.field.characteristic, 0, 1)
    return 10 ** -300 if D.fname == "finite field" else 10 ** -8


def report(D, n, invs, massive=(), conserve=False, zero=(), silent=True, default=False):
    oPs = D.point(n, massive=massive, conserve=conserve)
    with D.setup():
        for (i, j, kind) in zero:                                  # exact collinear pairs: outliers exist
            if kind == "a":
                oPs[j].r_sp_d = D.arr([[oPs[i].r_sp_d[0, 0]], [oPs[i].r_sp_d[1, 0]]])
            else:
                oPs[j].l_sp_d = D.arr([[oPs[i].l_sp_d[0, 0], oPs[i].l_sp_d[0, 1]]])
    st = state(oPs)
    given = list(invs)
    with quiet():
        if default:
            mc, os_, big, small = oPs.phasespace_consistency_check(silent=silent)
            given = [f"⟨{i}|{j}⟩" for i, j in itertools.combinations(range(1, n + 1), 2)] + [f"[{i}|{j}]" for i, j in itertools.combinations(range(1, n + 1), 2)]
        else:
            mc, os_, big, small = oPs.phasespace_consistency_check(given, silent=silent)
            D.true("the given list is not modified", given == list(invs), given)
    thr = threshold(D)
    T = total(oPs)
    D.true("first answer: momentum conservation", D.f_iff(mc, D.f_and(*[D.f_le_tol(x) for x in T.flatten()])), f"answered {mc}")
    D.true("second answer: on-shellness", D.f_iff(os_, D.f_and(*[D.f_le_tol(sp.det2(oPs[i].r2_sp)) for i in range(1, n + 1)])), f"answered {os_}")
    D.true("no repeated outliers", len(set(small)) == len(small) and len(set(big)) == len(big), (small, big))
    D.true("outliers come from the list", set(small) | set(big) <= set(given), (small, big))
    s = sp.Snap(oPs)
    for inv in given:
        v = value(D, s, inv)
        D.true(f"small outliers: {inv}", D.f_iff(inv in small, D.f_cmp(v, "<=", thr)), f"{inv} reported {inv in small}, value {v}")
        D.true(f"big outliers: {inv}", D.f_iff(inv in big, D.f_cmp(v, ">=", 1 / thr)), f"{inv} reported {inv in big}, value {v}")
    frame(D, "consistency check", oPs, st)


def value(D, s, inv):
    import re
    a = re.match(r"^⟨(\d+)\|(\d+)⟩$", inv)
    if a:
        return sp.ang(s, int(a[1]), int(a[2]))
    a = re.match(r"^\[(\d+)\|(\d+)\]$", inv)
    if a:
        return sp.sqr(s, int(a[1]), int(a[2]))
    a = re.match(r"^s_(\d+)$", inv)
    if a:
        return sp.mand(s, list(map(int, a[1])))
    raise ValueError(inv)


def scaled(D, n, exps, invs=None, conserve=False):
    """values spread over many orders of magnitude: the report must sort them all out (runtime)."""
    oPs = D.point(n, conserve=conserve)
    for i in range(1, n + 1):
        e = exps[(i - 1) % len(exps)]
        f = (D.field(10) ** e if e >= 0 else D.field(1) / D.field(10) ** (-e)) if D.fname == "mpc" else \
            (D.field(D.field.characteristic) ** e if e >= 0 else D.field(1) / D.field(D.field.characteristic) ** (-e))
        oPs[i].r_sp_d = oPs[i].r_sp_d * f
        if conserve:
            oPs[i].l_sp_d = oPs[i].l_sp_d / f                      # the momenta stay as they are
    thr = threshold(D)
    st = state(oPs)
    every = [f"⟨{i}|{j}⟩" for i, j in itertools.combinations(range(1, n + 1), 2)] + [f"[{i}|{j}]" for i, j in itertools.combinations(range(1, n + 1), 2)]
    if invs:
        given = list(invs) if invs != "shuffled" else [every[(7 * k + 3) % len(every)] for k in range(len(every))]
        given = list(dict.fromkeys(given))
        want = list(given)
        mc, os_, big, small = oPs.phasespace_consistency_check(given)
        D.true("the given list is not modified", given == want, given)
        given = want
    else:
        given = every
        mc, os_, big, small = oPs.phasespace_consistency_check()
    s = sp.Snap(oPs)
    T = total(oPs)
    D.true("first answer: momentum conservation", D.f_iff(mc, D.f_and(*[D.f_le_tol(x) for x in T.flatten()])), f"answered {mc}")
    D.true("second answer: on-shellness", D.f_iff(os_, D.f_and(*[D.f_le_tol(sp.det2(oPs[i].r2_sp)) for i in range(1, n + 1)])), f"answered {os_}")
    D.true("no repeated outliers", len(set(small)) == len(small) and len(set(big)) == len(big), (small, big))
    D.true("outliers come from the list", set(small) | set(big) <= set(given), (small, big))
    for inv in given:
        v = value(D, s, inv)
        D.true(f"small outliers: {inv}", D.f_iff(inv in small, D.f_cmp(v, "<=", thr)), f"{inv} reported {inv in small}, value {v}")
        D.true(f"big outliers: {inv}", D.f_iff(inv in big, D.f_cmp(v, ">=", 1 / thr)), f"{inv} reported {inv in big}, value {v}")
    frame(D, "consistency check", oPs, st)


def covariants(D, n, k, pos):
    """a supplied spinor-valued string counts by its largest component"""
    oPs = D.point(n)
    big = D.field(10) ** 20 if D.fname == "mpc" else D.field(1) / D.field(D.field.characteristic) ** 3
    tiny = 1 / big
    r = oPs[1].r_sp_d.copy()
    r[pos, 0], r[1 - pos, 0] = (r[pos, 0] * big, r[1 - pos, 0] * tiny) if k == "mixed" else (r[pos, 0] * tiny, r[1 - pos, 0] * (tiny if k == "tiny" else 1))
    oPs[1].r_sp_d = r
    given = ["|1⟩", "⟨2|3⟩", "⟨1|"]
    mc, os_, bg, sm = oPs.phasespace_consistency_check(given)
    for t in ("|1⟩", "⟨1|"):
        D.true(f"{k}: {t} is small iff both components are", (t in sm) == (k == "tiny"), (t, sm))
        D.true(f"{k}: {t} is big iff some component is", (t in bg) == (k == "mixed"), (t, bg))


def near(D, n, k, what):
    """violations just above and just below the tolerance (runtime; p-adic orders and small complex numbers)."""
    import mpmath
    oPs = D.point(n, conserve=True)
    if D.fname == "mpc":
        x = mpmath.mpc(0, 1) * D.field.tollerance * mpmath.mpf(10) ** k
    else:
        x = D.field(D.field.characteristic) ** (D.field.digits + k)
    if what == "mom":
        M = oPs[1].r2_sp.copy()
        M[1, 1] = M[1, 1] + x
        oPs[1].r2_sp = M
        r = oPs.momentum_conservation_check()
    else:
        M = oPs[2].r2_sp.copy()
        M[0, 0] = M[0, 0] + x / M[1, 1]
        oPs[2].r2_sp = M
        r = oPs.onshell_relation_check()
        x = sp.det2(M)
    D.true(f"{what}: True iff within tolerance", D.f_iff(r, D.f_le_tol(x)), f"answered {r}")
    if D.fname == "mpc":
        D.true(f"{what}: expected answer", r is (k < 0), f"answered {r} at tolerance*10^{k}")


def cases(tier):
    q = tier == "quick"
    out = []
    M, O, R = "Particles.momentum_conservation_check", "Particles.onshell_relation_check", "Particles.phasespace_consistency_check"
    for n in (2, 3, 4, 5, 6, 7, 8, 9) if q else range(2, 12):
        for m in ((), (1,), (n,), tuple(range(1, n + 1))):
            out.append(Case(f"momentum check n={n} massive={m}", "mom", dict(n=n, massive=m), "finite field", ALL + ("rational",), 2, target=(M, "Particles.total_mom"), max_paths=4000))
            out.append(Case(f"on-shell check n={n} massive={m}", "shell", dict(n=n, massive=m), "finite field", ALL, 2, target=(O, "Particles.m2s"), max_paths=4000))
        if n > 2:
            out.append(Case(f"momentum check n={n} conserved", "mom", dict(n=n, conserve=True), "finite field", ALL, 2, target=M))
            out.append(Case(f"momentum check n={n} conserved verbose", "mom", dict(n=n, conserve=True, silent=False), "finite field", EXACT + ("mpc",), 1, target=M))
            for w in range(4):
                out.append(Case(f"momentum check n={n} component {w}", "mom_one", dict(n=n, which=w), "finite field", ALL, 2, target=M))
    for n in (3, 5):
        for sign in (1, -1):
            for i, j in itertools.combinations(range(4), 2):
                out.append(Case(f"momentum check n={n} components {i} {j} sign={sign}", "mom_two", dict(n=n, i=i, j=j, sign=sign), "finite field", ALL, 1, target=M))
            for i, j in ((1, 2), (n, 1), (2, n)):
                out.append(Case(f"on-shell check n={n} legs {i} {j} sign={sign}", "shell_two", dict(n=n, i=i, j=j, sign=sign), "finite field", ALL, 1, target=O))
    for n in (3, 4, 5):
        for legs in ((1,), (n,), tuple(range(1, n))):
            for c in (False, True):
                out.append(Case(f"spinorless legs n={n} {legs} conserve={c}", "spinorless", dict(n=n, legs=legs, conserve=c), "finite field", ALL, 2, target=(M, O), max_paths=4000))
    for fn, real in (("finite field", ("finite field",)), ("padic", ("padic",)), ("mpc", ("mpc",))):
        for invs in (["⟨1|2⟩"], ["[3|4]"], ["⟨1|2⟩", "[1|2]"], ["s_12", "⟨2|3⟩"], ["⟨1|2⟩", "[3|4]", "s_13"], ["s_123", "s_12", "s_1"]):
            if len(invs) < 3 or not q:
                out.append(Case(f"report {fn} {invs}", "report", dict(n=4, invs=invs), fn, real, 2, target=R, max_paths=4000))
            out.append(Case(f"report {fn} conserved {invs}", "report", dict(n=4, invs=invs, conserve=True), fn, real, 2, target=R, max_paths=4000))
            out.append(Case(f"report {fn} collinear {invs}", "report", dict(n=4, invs=invs, zero=((1, 2, "a"),)), fn, real, 2, target=R, max_paths=4000))
        out.append(Case(f"default report {fn} n=2", "report", dict(n=2, invs=[], default=True), fn, real, 2, target=R, max_paths=4000))
        for n in (4, 5, 6):
            for zero in ((), ((1, 2, "a"),), ((n - 1, n, "s"),), ((1, 2, "a"), (3, 4, "s")), ((1, n, "a"), (2, n - 1, "a"))):
                out.append(Case(f"default report {fn} n={n} zero={zero}", "report", dict(n=n, invs=[], zero=zero, default=True), fn, real, 2 if q else 10, deductive=False, target=R))
        out.append(Case(f"verbose report {fn}", "report", dict(n=5, invs=[], zero=((1, 2, "a"),), default=True, silent=False), fn, real, 1, deductive=False, target=R))
        if fn != "finite field":
            for exps in ((0, 1), (-1, 0, 1), (-2, 0, 3), (-1,), (2, 0, 0, -2)):
                ex = tuple(9 * e for e in exps) if fn == "mpc" else exps
                for n in (4, 5, 6):
                    out.append(Case(f"scales {fn} n={n} {ex}", "scaled", dict(n=n, exps=ex), fn, real, 2 if q else 10, deductive=False, target=R))
                    out.append(Case(f"scales {fn} n={n} {ex} conserved", "scaled", dict(n=n, exps=ex, conserve=True), fn, real, 1 if q else 10, deductive=False, target=R))
                    out.append(Case(f"scales {fn} n={n} {ex} unsorted list", "scaled", dict(n=n, exps=ex, invs="shuffled", conserve=n == 5), fn, real, 1 if q else 10, deductive=False, target=R))
                for invs in (["s_34", "⟨1|2⟩", "[1|3]", "s_12"], ["[3|4]"], ["s_123", "⟨2|3⟩", "⟨1|2⟩"]):
                    out.append(Case(f"scales {fn} {ex} list {invs}", "scaled", dict(n=5, exps=ex, invs=invs), fn, real, 1 if q else 10, deductive=False, target=R))
    for fn in ("mpc", "padic"):
        for k in ("mixed", "tiny", "half"):
            for pos in (0, 1):
                out.append(Case(f"spinor-valued entries {fn} {k} {pos}", "covariants", dict(n=4, k=k, pos=pos), fn, (fn,), 2, deductive=False, target=R))
    for k in (-12, -3, -1, 1, 3, 12):
        for what in ("mom", "shell"):
            out.append(Case(f"near tolerance {what} 10^{k}", "near", dict(n=5, k=k, what=what), "mpc", ("mpc",), 2, deductive=False, target=(M, O)))
    return out
