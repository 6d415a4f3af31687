"""P05 spinor brackets and chains."""
import os
import random
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["the strings are enumerated: every two-bracket and open spinor up to 11 legs, all chain shapes with up to four slashed entries with labels drawn by seed; kinematics are universally quantified for each",
               "end legs are light-like (they own spinors); middle legs may be massive"]
BOLD = dict(zip("0123456789", "𝟎𝟏𝟐𝟑𝟒𝟓𝟔𝟕𝟖𝟗"))
bold = lambda t: "".join(BOLD.get(c, c) for c in str(t))           # noqa
asc = lambda t: t.replace("⟨", "<").replace("⟩", ">")               # noqa


def brackets(D, n, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    st = [snapshot(oPs[i]) for i in range(1, n + 1)]
    light = [i for i in range(1, n + 1) if i not in massive]
    for i in light:
        for j in light:
            a, b = sp.ang(s, i, j), sp.sqr(s, i, j)
            for t in (f"⟨{i}|{j}⟩", f"<{i}|{j}>", bold(f"⟨{i}|{j}⟩")):
                D.eq(t, oPs.compute(t), a)
            for t in (f"[{i}|{j}]", bold(f"[{i}|{j}]")):
                D.eq(t, oPs(t), b)
            D.eq(f"P=|i>[i|: ⟨{i}|{j}⟩[{j}|{i}] = 2 p{i}.p{j}", oPs(f"⟨{i}|{j}⟩") * oPs(f"[{j}|{i}]"), 2 * sp.dot(s, i, j))
        for t, v in ((f"⟨{i}|", sp.r_up(s.r[i])), (f"|{i}⟩", s.r[i]), (f"[{i}|", s.l[i]), (f"|{i}]", sp.l_up(s.l[i]))):
            D.eq(t, oPs.compute(t), v)
            D.eq(asc(t), oPs.compute(asc(t)), v)
            D.eq(bold(t), oPs.compute(bold(t)), v)
            D.eq(f"item {t}", oPs[t], v)
    for i, x in enumerate(st):
        unchanged(D, f"leg {i + 1}", oPs[i + 1], x)


def chains(D, n, specs, massive=()):
    oPs = D.point(n, massive=massive)
    s = sp.Snap(oPs)
    st = [snapshot(oPs[i]) for i in range(1, n + 1)]
    for (text, first, mids, last, kind) in specs:
        v = sp.chain(s, first, mids, last, kind)
        r = oPs.compute(text)
        if v.shape == (1, 1):
            D.true(f"{text} is a scalar", not hasattr(r, "shape"), type(r))
            v = v[0, 0]
        D.eq(text, r, v)
    for i, x in enumerate(st):
        unchanged(D, f"leg {i + 1}", oPs[i + 1], x)


def fermions(D, pos, val):
    """massive fermions: every string carries their spin indices, in the order in which the legs appear"""
    oPs = D.point(6)
    with D.pristine():
        c = oPs.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, pos[0], val[0]), (4, pos[1], val[1])))
    s = sp.Snap(c)
    for i in range(1, 5):
        for j in range(1, 5):
            for k0, t, mids in (("a", f"⟨{i}|{j}⟩", []), ("s", f"[{i}|{j}]", []), ("a", f"⟨{i}|1+3|{j}]", ["1+3"]), ("s", f"[{i}|1-4|{j}⟩", ["1-4"]), ("a", f"⟨{i}|3|(1+2)|{j}⟩", ["3", "1+2"]), ("s", f"[{i}|(2-1)|4|{j}]", ["2-1", "4"])):
                v = sp.chain(s, i, mids, j, k0)
                for u in (t, asc(t), bold(t)):
                    r = c.compute(u)
                    if v.shape == (1, 1):
                        D.eq(u, r, v[0, 0])
                    else:
                        D.true(f"{u}: one entry per spin index", getattr(r, "shape", None) == v.shape, getattr(r, "shape", None))
                        D.eq(u, r, v)


def again(D, n, specs):
    """the same strings on a changed point, and on a second point, are computed from the kinematics at hand"""
    oPs = D.point(n)
    with D.setup():
        other = Particles([D.massless(f"o{i}") for i in range(1, n + 1)], field=oPs.field, fix_mom_cons=False)
    for step in range(4):
        for o in (oPs, other):
            s = sp.Snap(o)
            for (text, first, mids, last, kind) in specs:
                v = sp.chain(s, first, mids, last, kind)
                D.eq(f"step {step}: {text}", o.compute(text), v[0, 0] if v.shape == (1, 1) else v)
        with D.setup():
            if step == 0:                                            # another little-group frame: same momenta, other spinors
                for k in (1, 2):
                    z = D.scalar(f"z{k}")
                    oPs[k].r_sp_d, oPs[k].l_sp_d = oPs[k].r_sp_d * z, oPs[k].l_sp_d / z
            elif step == 1:
                oPs[1].r_sp_u = D.row("x")
                oPs[3].l_sp_d = D.row("y")
            else:
                oPs[1], oPs[2] = oPs[2], oPs[1]


def rejected(D, n, texts):
    oPs = D.point(n)
    for t in texts:
        try:
            r = oPs(t)
        except SyntaxError:
            D.true(f"{t} rejected", True)
        else:
            D.true(f"{t} rejected", False, f"evaluated to {r!s:.100}")


def out_of_range(D, n, texts):
    oPs = D.point(n)
    for t in texts:
        try:
            r = oPs(t)
        except IndexError:
            D.true(f"{t} raises IndexError", True)
        else:
            D.true(f"{t} raises IndexError", False, f"evaluated to {r!s:.100}")


def entry(rng, pool, size, minus, paren):
    ks = [rng.choice(pool) for _ in range(size)]
    t = str(ks[0]) + "".join(("-" if minus and rng.random() < .5 else "+") + str(k) for k in ks[1:])
    return t, (f"({t})" if paren else t)


def gen(rng, n, light, nmid, k):
    """one chain specification of each closed/open kind."""
    out = []
    pool = list(range(1, n + 1))
    for kind in "as":
        for ends in ("closed", "open end", "open begin", "open"):
            for paren in (False, True):
                es = []
                for m in range(nmid):
                    es.append(entry(rng, pool, rng.choice((1, 2, 2, 3)), rng.random() < .5, paren))
                if ends != "closed" and paren and nmid > 1:
                    continue                                       # that spelling is not in the accepted grammar
                mids = [e[0] for e in es]
                mid = "|".join(e[1] for e in es)
                a, b = rng.choice(light), rng.choice(light)
                even = nmid % 2 == 0
                op = "⟨" if kind == "a" else "["
                cl = ("⟩" if even else "]") if kind == "a" else ("]" if even else "⟩")
                if ends == "closed":
                    t = f"{op}{a}|{mid}|{b}{cl}"
                    out.append((t, a, mids, b, kind))
                    out.append((asc(t), a, mids, b, kind))
                    out.append((bold(t), a, mids, b, kind))
                elif ends == "open end":
                    out.append((f"{op}{a}|{mid}|", a, mids, None, kind))
                    out.append((asc(f"{op}{a}|{mid}|"), a, mids, None, kind))
                elif ends == "open begin":
                    out.append((f"|{mid}|{b}{cl}", None, mids, b, "lo" if kind == "a" else "up"))
                    out.append((asc(f"|{mid}|{b}{cl}"), None, mids, b, "lo" if kind == "a" else "up"))
                elif kind == "a":
                    out.append((f"|{mid}|", None, mids, None, "lo"))
    return out


def cases(tier):
    q = tier == "quick"
    rng = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 7 + 5)
    out = []
    C = ("Particles_Compute.compute", "as_scalar_if_scalar")
    for n, m in ((2, ()), (5, ()), (6, (2,)), (11, ())):
        out.append(Case(f"brackets n={n} massive={m}", "brackets", dict(n=n, massive=m), "finite field", ALL + ("rational",), 1, target=C))
    for n, m in ((4, ()), (5, ()), (6, (3, 5)), (7, ()), (11, ()), (12, (10,))):
        light = [i for i in range(1, n + 1) if i not in m]
        for nmid in (1, 2, 3, 4, 5):
            for rep in range(5 if q else 30):
                specs = gen(rng, n, light, nmid, rep)
                out.append(Case(f"chains n={n} massive={m} entries={nmid} #{rep}", "chains", dict(n=n, massive=m, specs=specs), "finite field",
                                ("finite field", "padic") if rep else ("mpc", "rational"), 1, target=C, timeout=200))
    # exhaustive: every <i|j|k], [i|j|k>, <i|j+k|l] on five legs
    ex = []
    for i in range(1, 6):
        for k in range(1, 6):
            for j in range(1, 6):
                ex.append((f"⟨{i}|{j}|{k}]", i, [str(j)], k, "a"))
                ex.append((f"[{i}|{j}|{k}⟩", i, [str(j)], k, "s"))
                for l in range(j + 1, 6):
                    ex.append((f"⟨{i}|{j}+{l}|{k}]", i, [f"{j}+{l}"], k, "a"))
                    ex.append((f"[{i}|({j}-{l})|{k}⟩", i, [f"{j}-{l}"], k, "s"))
                    ex.append((f"⟨{i}|{j}|{l}|{k}⟩", i, [str(j), str(l)], k, "a"))
                    ex.append((f"[{i}|{l}|{j}|{k}]", i, [str(l), str(j)], k, "s"))
    for c in range(0, len(ex), 250):
        out.append(Case(f"exhaustive n=5 block {c // 250}", "chains", dict(n=5, specs=ex[c:c + 250]), "finite field", ("finite field",), 1, target=C))
    for pos in ("uu", "ud", "du", "dd"):
        for val in ((all, all), (all, 1), (2, all), (1, 2)):
            out.append(Case(f"massive fermions {pos} {['all' if callable(x) else x for x in val]}", "fermions", dict(pos=pos, val=val), "finite field", ("finite field", "mpc"), 1, target=C, timeout=200))
    again = [("⟨1|2⟩", 1, [], 2, "a"), ("[2|3]", 2, [], 3, "s"), ("⟨1|", 1, [], None, "a"), ("|2]", None, [], 2, "up"), ("⟨1|2+3|4]", 1, ["2+3"], 4, "a"), ("[3|1|2⟩", 3, ["1"], 2, "s"),
             ("⟨2|1+3|4|1⟩", 2, ["1+3", "4"], 1, "a"), ("⟨1|2+3|", 1, ["2+3"], None, "a"), ("|2+3|1]", None, ["2+3"], 1, "lo"), ("|1+3|2|", None, ["1+3", "2"], None, "lo")]
    out.append(Case("re-evaluation", "again", dict(n=4, specs=again), "finite field", ALL, 1, target=C))
    rej = ["⟨1|2|3⟩", "[1|2|3]", "⟨1|2|3|4]", "[1|2|3|4⟩", "⟨1|2+3|4⟩", "[1|(2+3)|4]", "⟨1|2+3|4|5]", "[5|2|3+4|1⟩", "⟨1|2|3|4|5⟩", "[1|2|3|4|5]", "⟨1|2|3|4+5|1|2]",
           "⟨1|2]", "[1|2⟩", "[1|1⟩"]
    out.append(Case("ill-formed chains", "rejected", dict(n=5, texts=rej + [asc(t) for t in rej] + [bold(t) for t in rej[:-3]]), "finite field", ALL, 1, target=C))
    out.append(Case("missing legs", "out_of_range", dict(n=5, texts=["⟨1|6⟩", "[6|1]", "⟨6|", "|7]", "⟨1|2+6|3]", "⟨0|1⟩", "s_16", "tr(1|6)", "s_10"]), "finite field", ALL, 1, target=C))
    return out
