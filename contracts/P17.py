"""P17 symmetry helpers form a group action."""
import itertools
import random
import numpy
from .common import *                                              # noqa
from lips.symmetries import inverse, identity, all_symmetries, phase_weights_compatible_symmetries

LEVEL = "proof"
ASSUMPTIONS = ["permutations enumerated exhaustively to multiplicity 7 (one-digit labels, to 9 sampled); weights are universally quantified elements of an exact ring to multiplicity 4 (5 in the thorough tier) and enumerated beyond"]


def comp(p, q):
    """first p, then q, as substitutions of labels: i -> q[p[i]]"""
    return "".join(q[int(x) - 1] for x in p)


def group(D, n, block, sample=None):
    """inverse undoes in either order, twice is the identity, conjugation flag kept; inputs untouched"""
    base = "".join(map(str, range(1, n + 1)))
    D.true("identity", identity(n) == (base, False), identity(n))
    D.true("identity is its own inverse", inverse(identity(n)) == identity(n))
    if sample:
        rng = random.Random(n)
        perms = ["".join(rng.sample(base, n)) for _ in range(sample)]
    else:
        perms = ["".join(p) for p in itertools.permutations(base) if p[0] == base[block % n]]
    for p in perms:
        i = inverse(p)
        D.true(f"{p}: inverse is a relabelling", isinstance(i, str) and sorted(i) == sorted(base), i)
        D.true(f"{p}: inverse undoes", comp(p, i) == base and comp(i, p) == base, i)
        D.true(f"{p}: inverse of inverse", inverse(i) == p)
        for f in (True, False):
            s = inverse((p, f))
            D.true(f"{p},{f}: inverse of a symmetry", type(s) is tuple and s == (i, f), s)
    rng = random.Random(7 * n + block)
    for _ in range(60):
        p, r = rng.choice(perms), "".join(rng.sample(base, n))
        D.true(f"{p},{r}: inverse of a composition", inverse(comp(p, r)) == comp(inverse(r), inverse(p)))


def refuses(D):
    for x in (12, None, ["1", "2"], {"1": "2"}):
        try:
            inverse(x)
        except Exception:
            D.true("input not understood is refused", True)
        else:
            D.true("input not understood is refused", False, x)


def every(D, n):
    base = "".join(map(str, range(1, n + 1)))
    r = all_symmetries(n)
    D.true("every relabelling exactly once", sorted(r) == sorted(("".join(p), False) for p in itertools.permutations(base)), len(r))
    D.true("identity is listed", identity(n) in r)
    D.true("closed under inverse", set(map(inverse, r)) == set(r))


def weights(D, n, kind="list", relation=None):
    """arbitrary weights"""
    w = [D.scalar(f"w{i}") for i in range(1, n + 1)]
    if not D.symbolic:
        # representative coincidences
        pool = [-1, 1, 2, -2, 0]                   # plain integers, as the weights are
        w = [D.choose(f"w{i}", pool) for i in range(1, n + 1)]
    before = list(w)
    arg = {"list": list, "tuple": tuple, "array": (lambda x: D.arr([x])[0]) if D.symbolic else numpy.array}[kind](w)
    r = phase_weights_compatible_symmetries(arg)
    D.true("argument untouched", all(x is y or (not D.symbolic and x == y) for x, y in zip(arg, before)) and len(arg) == n)
    D.true("a list of (relabelling, flag)", type(r) is list and all(type(x) is tuple and len(x) == 2 and type(x[0]) is str and type(x[1]) is bool for x in r), r[:3])
    D.true("no repetition", len(set(r)) == len(r))
    base = "".join(map(str, range(1, n + 1)))
    D.true("identity is listed", (base, False) in r)
    D.true("relabellings of all legs", all(sorted(x[0]) == sorted(base) for x in r))
    for p in itertools.permutations(range(1, n + 1)):
        s = "".join(map(str, p))
        same = D.f_and(*[D.f_zero(w[i - 1] - w[k]) for k, i in enumerate(p)])
        opp = D.f_and(*[D.f_zero(w[i - 1] + w[k]) for k, i in enumerate(p)])
        D.true(f"{s} listed iff it preserves the weights", D.f_iff((s, False) in r, same), r)
        D.true(f"{s} with conjugation listed iff it only flips the weights", D.f_iff((s, True) in r, D.f_and(opp, D.f_not(same))), r)


def enumerated(D, n, lo, hi, block, blocks):
    base = "".join(map(str, range(1, n + 1)))
    for k, w in enumerate(itertools.product(range(lo, hi + 1), repeat=n)):
        if k % blocks != block:
            continue
        want = set()
        for p in itertools.permutations(range(n)):
            s = "".join(str(i + 1) for i in p)
            if all(w[p[i]] == w[i] for i in range(n)):
                want.add((s, False))
            elif all(w[p[i]] == -w[i] for i in range(n)):
                want.add((s, True))
        r = phase_weights_compatible_symmetries(list(w))
        D.true(f"{w}", len(r) == len(set(r)) and set(r) == want, sorted(set(r) ^ want)[:4])
        # a group: closed under inverse (same flags); composition stays inside for the plain ones
        D.true(f"{w}: closed under inverse", {inverse(x) for x in r} == want)


def cases(tier):
    q = tier == "quick"
    F = ("finite field",)
    T1 = ("inverse", "identity")
    T2 = ("phase_weights_compatible_symmetries",)
    out = []
    for n in range(1, 8):
        for b in range(n):
            out.append(Case(f"group n={n} first={b + 1}", "group", dict(n=n, block=b), real=F, closed=True, target=T1))
    for n in (8, 9):
        out.append(Case(f"group n={n} sampled", "group", dict(n=n, block=0, sample=2000), real=F, deductive=False, target=T1))
    out.append(Case("refuses", "refuses", {}, real=F, closed=True, target=T1))
    for n in range(1, 8):
        out.append(Case(f"all symmetries n={n}", "every", dict(n=n), real=F, closed=True, target=("all_symmetries",) + T2))
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for kind in ("list", "tuple", "array"):
            if n > 3 and kind != "list":
                continue
            out.append(Case(f"weights n={n} {kind}", "weights", dict(n=n, kind=kind), "finite field", F, 12, target=T2, max_paths=20000, timeout=600))
    for n, lo, hi in ((2, -3, 3), (3, -2, 2), (4, -2, 2), (5, -1, 1)) + (() if q else ((5, -2, 2), (6, -1, 1))):
        nb = 1 if n < 5 else 4 if n == 5 else 16
        for b in range(nb):
            out.append(Case(f"enumerated n={n} {lo}..{hi} {b}", "enumerated", dict(n=n, lo=lo, hi=hi, block=b, blocks=nb), real=F, closed=True, target=T2, timeout=800))
    return out
