"""P19 equality and hashing."""
import copy as _copy
import os
import pickle
import subprocess
import sys
from .common import *                                              # noqa
from vc.sym import Unsupported

LEVEL = "proof"
ASSUMPTIONS = ["dependency contract: equal field elements hash equally (pyadic, mpmath)",
               "hash equality is proved by showing that equal momenta feed equal entries to the hash on every path; hash values themselves and pickles are compared at run time on the real fields",
               "lips' own test suite pins that the hash differs between processes in finite fields; only the pickled form is claimed to be process independent, for points generated from a seed"]
FOREIGN = (0, 1, None, "12345", (1, 2), [], {}, 3.5, object())


def two(D, kinds):
    mk = {"massless": D.massless, "massive": D.massive}
    return mk[kinds[0]]("p"), mk[kinds[1]]("q")


def near(D):
    """a small element of the field: the last digits (mpc), a high power of the prime (p-adic), one (finite field, rational)"""
    import mpmath
    if D.field.name == "mpc":
        return mpmath.mpf(10) ** -(D.field.digits - 5)
    if D.field.name == "padic":
        return D.field(D.field.characteristic) ** (D.field.digits - 1)
    return D.field(1)


def eq_particle(D, kinds):
    """p == q exactly when the four entries of the momentum agree"""
    p, q = two(D, kinds)
    if not D.symbolic and D.choose("coincide", (False, True)):
        q.r2_sp = p.r2_sp.copy()
    sp_, sq = snapshot(p), snapshot(q)
    r = bool(p == q)
    same = D.f_and(*[D.f_zero(x - y) for x, y in zip(sp.flat(p.r2_sp), sp.flat(q.r2_sp))])
    D.true("equal iff the momenta agree", D.f_iff(r, same), r)
    D.true("symmetric", bool(q == p) == r)
    D.true("inequality is the negation", bool(p != q) == (not r))
    unchanged(D, "p", p, sp_)
    unchanged(D, "q", q, sq)
    if r:
        hash_entries(D, "equal momenta", p, q)
    if not D.symbolic:
        for k in numpy.ndindex(2, 2):                              # as close as the field resolves, one entry apart
            x = p.r2_sp.copy()
            x[k] = x[k] * (1 + near(D))
            if x[k] != p.r2_sp[k]:
                c = Particle(field=D.field)
                c.r2_sp = x
                D.true(f"entry {k} differs in the last digits: not equal", not p == c and not c == p and p != c)


RELATED = {"off-diagonal exchanged": lambda m: m.T, "rows exchanged": lambda m: m[::-1], "columns exchanged": lambda m: m[:, ::-1], "opposite": lambda m: -m,
           "off-diagonal opposite": lambda m: m * numpy.array([[1, -1], [-1, 1]], dtype=object), "rows rescaled": lambda m: numpy.array([[2 * m[0, 0], 2 * m[0, 1]], [m[1, 0] / 2, m[1, 1] / 2]], dtype=object),
           "diagonal exchanged": lambda m: numpy.array([[m[1, 1], m[0, 1]], [m[1, 0], m[0, 0]]], dtype=object), "doubled": lambda m: 2 * m}


def related(D, how, kind):
    """momenta with the same entries in another order, or the same invariants, are different momenta"""
    with D.setup():
        p = (D.massless if kind == "massless" else D.massive)("p")
        q = Particle(field=D.field)
        q.r2_sp = RELATED[how](p.r2_sp).copy()
    r = bool(p == q)
    D.true("equal iff the momenta agree", D.f_iff(r, D.f_and(*[D.f_zero(x - y) for x, y in zip(sp.flat(p.r2_sp), sp.flat(q.r2_sp))])), r)
    D.true("inequality is the negation", bool(p != q) == (not r))
    a, b = Particles([p], field=D.field, fix_mom_cons=False), Particles([q], field=D.field, fix_mom_cons=False)
    D.true("points likewise", bool(a == b) == r and bool(a != b) == (not r))


def hash_entries(D, tag, p, q):
    """what is fed to the hash: entries that are equal as field elements"""
    if D.symbolic:
        got, lists = [], []
        for o in (p, q):
            got.clear()
            import lips.particle as lp
            with D.stub(lp, "hash", lambda x: collect(x, got)):
                hash(o)
            lists.append(list(got))
        if not lists[0] or not lists[1]:
            raise Unsupported("the hash is not computed from a tuple of entries in lips.particle")
        D.true(f"{tag}: same number of hashed entries", len(lists[0]) == len(lists[1]), lists)
        for k, (a, b) in enumerate(zip(*lists)):
            D.eq(f"{tag}: hashed entry {k}", a, b)
    else:
        D.true(f"{tag}: equal hashes", hash(p) == hash(q))


def collect(x, got):
    if isinstance(x, (tuple, list)):
        for y in x:
            collect(y, got)
    else:
        got.append(x)
    return 1


def frames(D, kind):
    """the same momentum in another little-group frame, or built from another representation"""
    with convention("asymmetric"):
        if kind in ("massive", "massive sum"):
            p = D.massive("p")
            q = Particle(p.r2_sp.copy(), field=D.field)
        else:
            p = D.massless("p")
            t = D.scalar("t")
            D.nonzero(t)
            if kind == "rescaled":
                q = Particle((D.arr([[p.r_sp_d[0, 0] * t], [p.r_sp_d[1, 0] * t]]), D.arr([[p.l_sp_d[0, 0] / t, p.l_sp_d[0, 1] / t]])), field=D.field)
            elif kind == "from rank two":
                q = Particle(p.r2_sp.copy(), field=D.field)
            elif kind == "from upper spinors":
                q = D.massless("q")
                q.r_sp_u = p.r_sp_u.copy()
                q.l_sp_u = p.l_sp_u.copy()
            elif kind == "from lower matrix":
                q = D.massless("q")
                q.r2_sp_b = p.r2_sp_b.copy()
            elif kind == "spinors in another order":
                q = D.massless("q")
                q.l_sp_d = p.l_sp_d.copy()
                q.r_sp_d = p.r_sp_d.copy()
            elif kind == "minus minus":
                q = -(-p)
            elif kind == "plus zero":
                q = p + 0
            elif kind == "copy":
                q = _copy.deepcopy(p)
        if kind == "massive sum":
            a = D.massive("a")
            q = (p + a) - a
        D.true("equal", bool(p == q))
        D.true("equal (other side)", bool(q == p))
        hash_entries(D, kind, p, q)


def foreign(D, kind):
    p = D.massless("p") if kind == "massless" else D.massive("p")
    o = D.point(3, massive=() if kind == "massless" else (1, 2, 3))
    for x in FOREIGN:
        D.true(f"particle vs {type(x).__name__}", (p == x) is False and (x == p) is False)
        D.true(f"particle differs from {type(x).__name__}", bool(p != x))
        D.true(f"point vs {type(x).__name__}", (o == x) is False)
    D.true("point vs particle", (o == o[1]) is False and (o[1] == o) is False)
    D.true("point vs its list of legs", (o == list(list.__iter__(o))) is False)
    D.true("reflexive", bool(p == p) and bool(o == o))
    with D.setup():
        e1, e2 = (Particles([], field=D.field, fix_mom_cons=False) for _ in range(2))
    D.true("empty points", bool(e1 == e2))
    D.true("empty vs non-empty", not (e1 == o) and not (o == e1))


def eq_point(D, n, m, shared=0):
    """points of multiplicity n and m; the first `shared` legs coincide"""
    a = D.point(n)
    with D.setup():
        legs = [_copy.deepcopy(a[i]) for i in range(1, min(shared, m) + 1)] + [D.massless(f"o{i}") for i in range(min(shared, m) + 1, m + 1)]
        b = Particles(legs, field=D.field, fix_mom_cons=False)
    r, r2 = bool(a == b), bool(b == a)
    if n != m:
        same = D.f_and(D.f_zero(D.const(1)))
    else:
        same = D.f_and(*[D.f_zero(x - y) for i in range(1, n + 1) for x, y in zip(sp.flat(a[i].r2_sp), sp.flat(b[i].r2_sp))])
    D.true("equal iff same multiplicity and momenta", D.f_iff(r, same), r)
    D.true("symmetric", r == r2)
    D.true("inequality is the negation", bool(a != b) == (not r))


def order_matters(D, n):
    """exchanging two different legs gives a different point"""
    a = D.point(n)
    b = a.copy()
    D.true("copy equal", bool(a == b))
    if not D.symbolic:
        D.true("copy hashes equally", hash(a) == hash(b))
    b[1], b[n] = b[n], b[1]
    same = D.f_and(*[D.f_zero(x - y) for x, y in zip(sp.flat(a[1].r2_sp), sp.flat(a[n].r2_sp))])
    D.true("exchanged legs", D.f_iff(bool(a == b), same))


def point_hash(D, n, kind):
    """hash of a point follows the hashes of its legs in order"""
    o = D.point(n, massive={"massless": (), "massive": (1,)}[kind])
    with D.setup():
        others = {"copy": o.copy(), "deepcopy": _copy.deepcopy(o), "identity image": o.image("".join(map(str, range(1, n + 1)))),
                  "pickle": pickle.loads(pickle.dumps(o)) if not D.symbolic else o.copy(),
                  "rebuilt": Particles([_copy.deepcopy(p) for p in list.__iter__(o)], field=D.field, fix_mom_cons=False),
                  "other reference vector": o.copy()}
        others["other reference vector"].oRefVec = D.massless("q")
        others["double conjugate"] = o.image(("".join(map(str, range(1, n + 1))), True)).image(("".join(map(str, range(1, n + 1))), True))
    for k, b in others.items():
        D.true(f"{k}: equal", bool(o == b) and bool(b == o))
        if not D.symbolic:
            D.true(f"{k}: equal hashes", hash(o) == hash(b))
            D.true(f"{k}: interchangeable as dictionary keys", {o: 1}.get(b) == 1 and len({o, b}) == 1)
        else:
            for i in range(1, n + 1):
                hash_entries(D, f"{k} leg {i}", o[i], b[i])


PICKLE = """
import sys, pickle, hashlib, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, %r)
from lips import Particles
from syngular import Field
f = {"finite field": Field("finite field", 2 ** 31 - 1, 1), "padic": Field("padic", 2 ** 31 - 1, 6), "mpc": Field("mpc", 0, 300), "gaussian rational": Field("gaussian rational", 0, 0)}[%r]
for n in (4, 6):
    o = Particles(n, field=f, seed=%d)
    print(hashlib.sha256(pickle.dumps(o)).hexdigest())
"""


def process(D):
    """the pickled form of a seeded point is process independent"""
    import lips
    root = os.path.dirname(os.path.dirname(lips.__file__))
    outs = []
    for hs in ("0", "1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, "-c", PICKLE % (root, D.fname, D.seed)], env=env, capture_output=True, text=True)
        D.true("process runs", r.returncode == 0, r.stderr[-300:])
        outs.append(r.stdout)
    D.true("same pickle in every process", len(set(outs)) == 1 and outs[0] != "", outs)


def round_trip(D, n, kind):
    o = D.point(n, massive={"massless": (), "massive": (2,)}[kind])
    o.m_t = D.scalar("mt")
    b = pickle.loads(pickle.dumps(o))
    D.true("equal after a round trip", bool(o == b))
    D.true("hashes equally", hash(o) == hash(b))
    D.true("masses", b.internal_masses == o.internal_masses)
    D.eq("mass value", b.m_t, o.m_t)
    for i in range(1, n + 1):
        unchanged(D, f"leg {i}", b[i], snapshot(o[i]))


def cases(tier):
    q = tier == "quick"
    E = ("Particle.__eq__", "Particle.__hash__")
    EP = ("Particles.__eq__", "Particles.__hash__") + E
    out = []
    for f in ALL:
        for a in ("massless", "massive"):
            for b in ("massless", "massive"):
                out.append(Case(f"particles {a} {b} {f}", "eq_particle", dict(kinds=(a, b)), f, (f,), 4, target=E))
            for k in RELATED:
                out.append(Case(f"related {a} {k} {f}", "related", dict(how=k, kind=a), f, (f,), 1, deductive=(f, a) != ("mpc", "massive"), target=E, max_paths=6000))
            out.append(Case(f"foreign {a} {f}", "foreign", dict(kind=a), f, (f,), 1, target=EP))
            out.append(Case(f"point hash {a} {f}", "point_hash", dict(n=5, kind=a), f, (f,), 2, target=EP))
        for k in ("rescaled", "from rank two", "from upper spinors", "from lower matrix", "spinors in another order", "minus minus", "plus zero", "copy", "massive", "massive sum"):
            # in a floating-point field the momentum is recomputed and may differ in the last digit
            rt = (f,) if f != "mpc" or k in ("from upper spinors", "spinors in another order", "plus zero", "copy", "massive") else ()
            out.append(Case(f"frames {k} {f}", "frames", dict(kind=k), f, rt, 3, target=E))
        out.append(Case(f"process {f}", "process", {}, f, (f,), 1, deductive=False, target=EP, timeout=200))
        for a in ("massless", "massive"):
            out.append(Case(f"round trip {a} {f}", "round_trip", dict(n=5, kind=a), f, (f,), 2, deductive=False, target=EP))
    for n, m in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (4, 4), (5, 6), (6, 5), (0, 2)):
        for sh in {0, min(n, m) - 1, min(n, m)}:
            if sh >= 0 and n:
                out.append(Case(f"points {n} {m} shared {sh}", "eq_point", dict(n=n, m=m, shared=sh), real=("finite field", "padic"), seeds=2, target=EP))
    for n in (2, 3, 5):
        out.append(Case(f"order {n}", "order_matters", dict(n=n), real=("finite field", "mpc"), seeds=1, target=EP))
    return out
