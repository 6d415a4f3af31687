"""P10 copies, images, clusters are independent of the original."""
import copy as _copy
import random
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["mutators enumerated (every public setter, in-place array writes, container operations, mass and attribute updates), values universally quantified",
               "number-field objects and Python scalars are immutable and may be shared"]
ATTRS = ("_r_sp_d", "_r_sp_u", "_l_sp_d", "_l_sp_u", "_r2_sp", "_r2_sp_b", "_four_mom", "_four_mom_d")


def arrays(p):
    return [(a, getattr(p, a)) for a in ATTRS if isinstance(getattr(p, a, None), numpy.ndarray)]


def state(oPs):
    """deep, value-level snapshot of everything observable"""
    legs = []
    for p in list(list.__iter__(oPs)) + [oPs.oRefVec]:
        legs.append(({a: (x.copy(), x.shape) for a, x in arrays(p)}, getattr(p, "spin_index", None), repr(p.field)))
    extra = {k: _copy.copy(v) for k, v in oPs.__dict__.items() if k not in ("oRefVec", "field") and not k.startswith("_")}
    return legs, repr(oPs.field), extra


def same_state(D, tag, a, b):
    D.true(f"{tag}: multiplicity", len(a[0]) == len(b[0]), (len(a[0]), len(b[0])))
    D.true(f"{tag}: field", a[1] == b[1], (a[1], b[1]))
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        who = f"leg {i + 1}" if i < len(b[0]) - 1 else "reference vector"
        D.true(f"{tag}: {who} representations present", set(x[0]) == set(y[0]), (sorted(x[0]), sorted(y[0])))
        for nm in x[0]:
            if nm in y[0]:
                D.true(f"{tag}: {who} {nm} shape", x[0][nm][1] == y[0][nm][1])
                D.eq(f"{tag}: {who} {nm}", x[0][nm][0], y[0][nm][0])
        D.true(f"{tag}: {who} spin index and field", x[1:] == y[1:], (x[1:], y[1:]))
    D.true(f"{tag}: attributes", set(a[2]) == set(b[2]), (sorted(a[2]), sorted(b[2])))
    for k in a[2]:
        u, v = a[2][k], b[2].get(k)
        if isinstance(u, (str, set, list, dict, tuple, bool, type(None))) or isinstance(v, (str, set, list, dict, tuple, bool, type(None))):
            D.true(f"{tag}: attribute {k}", type(u) is type(v) and u == v, (u, v))
        else:
            D.eq(f"{tag}: attribute {k}", u, v)


def no_shared(D, tag, a, b):
    """no mutable object is reachable from both"""
    def legs(o):
        return list(list.__iter__(o)) + [o.oRefVec]
    for i, p in enumerate(legs(a)):
        for j, q in enumerate(legs(b)):
            D.true(f"{tag}: distinct leg objects {i},{j}", p is not q)
            D.true(f"{tag}: distinct leg dictionaries {i},{j}", p.__dict__ is not q.__dict__)
            for m, x in arrays(p):
                for k, y in arrays(q):
                    if numpy.shares_memory(x, y):
                        D.true(f"{tag}: no shared array {m}/{k} of legs {i + 1},{j + 1}", False, "shared")
    D.true(f"{tag}: distinct attribute dictionaries", a.__dict__ is not b.__dict__)
    for k, v in a.__dict__.items():
        if isinstance(v, (list, set, dict, numpy.ndarray)):
            D.true(f"{tag}: attribute {k} not shared", b.__dict__.get(k) is not v)


def point(D, n, kind):
    oPs = D.point(n, massive={"massive": (1, 3)}.get(kind, ()))
    oPs.m_t = D.scalar("mt")
    oPs.mh2 = "s_12"
    oPs.helconf = ["+", "-"] * (n // 2)
    if kind == "fermion":
        oPs = oPs.cluster([[i] for i in range(1, n - 3)] + [[n - 3, n - 2], [n - 1, n]], massive_fermions=((n - 3, 'u', all), (n - 2, 'd', 1)))
        oPs.helconf = ["+"] * len(oPs)
    return oPs


def derive(D, how, o):
    n = len(o)
    if how == "copy":
        return o.copy()
    if how == "deepcopy":
        return _copy.deepcopy(o)
    if how == "image":
        return o.image(("".join(map(str, list(range(2, n + 1)) + [1])), False))
    if how == "identity image":
        return o.image("".join(map(str, range(1, n + 1))))
    if how == "conjugate image":
        return o.image(("".join(map(str, range(1, n + 1))), True))
    if how == "cluster":
        return o.cluster([[1], [2], list(range(3, n + 1))])
    if how == "trivial cluster":
        return o.cluster([[i] for i in range(1, n + 1)])


def mut_spinor(attr, k=1):
    def f(D, o, leg):
        v = D.arr([[D.scalar("new1")], [D.scalar("new2")]]) if attr in ("r_sp_d", "l_sp_u") else D.arr([[D.scalar("new1"), D.scalar("new2")]])
        setattr(o[leg], attr, v)
    return f


def mut_matrix(attr):
    def f(D, o, leg):
        setattr(o[leg], attr, D.mat("new"))
    return f


def mut_inplace(attr):
    def f(D, o, leg):
        a = getattr(o[leg], attr)
        if isinstance(a, numpy.ndarray) and a.size:
            a.flat[0] = D.scalar("poke")
            a.flat[-1] = D.scalar("poke2")
    return f


def mut_inplace_ref(attr):
    def f(D, o, leg):
        a = getattr(o.oRefVec, attr)
        if isinstance(a, numpy.ndarray) and a.size:
            a.flat[0] = D.scalar("poke")
    return f


def swap(D, o, leg):
    o[leg] = D.massless("swap")


def kill(D, o, leg):
    del o[leg]


def ins(D, o, leg):
    o.insert(leg, D.massless("ins"))


def app(D, o, leg):
    o.append(D.massless("app"))


def mass(D, o, leg):
    o.m_t = D.scalar("othermt")


def newmass(D, o, leg):
    o.M_X = D.scalar("mx")


def regmass(D, o, leg):
    o.internal_masses.add("m_ghost")
    o.internal_masses.discard("m_ghost2")


def alias(D, o, leg):
    o.mh2 = "s_34"


def hel(D, o, leg):
    if hasattr(o, "helconf"):
        o.helconf[0] = "-"
        o.helconf.append("x")


def flip(D, o, leg):
    o.angles_for_squares()


def item(D, o, leg):
    o[f"|{leg}⟩"] = D.arr([[D.scalar("new1")], [D.scalar("new2")]])
    o[f"[{leg}|"] = D.arr([[D.scalar("new3"), D.scalar("new4")]])


def refset(D, o, leg):
    o.oRefVec.r_sp_d = D.arr([[D.scalar("new1")], [D.scalar("new2")]])


def imul(D, o, leg):
    p = o[leg]
    if p.r2_sp is not None:
        r2 = p.r2_sp
        r2 *= 2
    if p.l_sp_d is not None:
        l = p.l_sp_d
        l *= 3


MUT = {"swap leg": swap, "delete leg": kill, "insert leg": ins, "append leg": app, "set mass": mass, "new mass": newmass, "mass registry": regmass, "alias": alias, "helicities": hel, "flip": flip,
       "string item": item, "reference vector": refset, "in-place multiply": imul}
for _a in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u"):
    MUT[f"set {_a}"] = mut_spinor(_a)
for _a in ("r2_sp", "r2_sp_b"):
    MUT[f"set {_a}"] = mut_matrix(_a)
for _a in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d"):
    MUT[f"write into {_a}"] = mut_inplace(_a)
MUT["write into reference vector"] = mut_inplace_ref("r_sp_d")


def equal_copy(D, n, kind, how):
    o = point(D, n, kind)
    before = state(o)
    c = derive(D, how, o)
    D.true("type", type(c) is type(o), type(c))
    D.true("new object", c is not o)
    same_state(D, "the copy equals the original", state(c), before)
    same_state(D, "the original is untouched", state(o), before)
    no_shared(D, "copy", c, o)
    if kind != "fermion":
        D.true("equal", c == o)


def independent(D, n, kind, how, mutator, side):
    with convention("asymmetric"):
        o = point(D, n, kind)
        c = derive(D, how, o)
        no_shared(D, how, c, o)
        victim, other = (c, o) if side == "derived" else (o, c)
        before = state(other)
        leg = D.choose("leg", (1, 2))
        if kind == "fermion" and leg > len(victim):
            leg = 1
        with D.setup():
            MUT[mutator](D, victim, leg)
        same_state(D, f"{mutator} on the {side} side", state(other), before)


def inputs(D, kind):
    """building a point does not capture the caller's list, set or dictionary"""
    ps = [D.massless(f"a{i}") for i in range(4)]
    src = list(ps)
    for masses in ({"m_t": D.scalar("mt"), "mh2": "s_12"}, {"m_t", "m_b"}, ["m_t", "m_b"], ("m_t",)):
        keep = _copy.copy(masses)
        o = Particles(src, field=D.field, fix_mom_cons=False, internal_masses=masses)
        o2 = Particles(src, field=D.field, fix_mom_cons=False, internal_masses=masses)
        with D.setup():
            o.append(D.massless("extra"))
            o.m_new = D.scalar("mnew")
            o.internal_masses.add("m_other")
        D.true("list of legs not captured", len(src) == 4 and all(x is y for x, y in zip(src, ps)) and len(o2) == 4)
        D.true("masses not captured", type(masses) is type(keep) and (set(masses) == set(keep)) and len(masses) == len(keep), masses)
        D.true("two points built alike do not share the registry", o2.internal_masses == set(keep), o2.internal_masses)


def queries(D, n):
    """read-only calls change nothing"""
    o = point(D, n, "light")
    before = state(o)
    with D.setup():
        o("⟨1|2⟩"), o("s_12+⟨1|2+3|4]^2"), o("mh2"), o.total_mom, o.m2s, o.multiplicity, o.internal_masses_dict
        o == o.copy()
        o.ldot(1, 2), o.ijk_to_3NonOverlappingLists([1, 2, 3]), o.ijk_to_3Ks([1, 2, 3]), o._complementary([1, 2]), o[1:3], o["|1⟩"]
        o[1] + o[2], -o[1], o[1] * 2
    same_state(D, "read-only calls", state(o), before)


def cases(tier):
    q = tier == "quick"
    F = "finite field"
    out = []
    T = {"copy": "Particles.copy", "deepcopy": "Particles.copy", "image": "Particles.image", "identity image": "Particles.image", "conjugate image": "Particles.image", "cluster": "Particles.cluster", "trivial cluster": "Particles.cluster"}
    for n in (2, 4, 6, 9, 10, 12):
        for kind in ("light", "massive", "fermion"):
            if n < 6 and kind == "fermion" or n < 4 and kind == "massive":
                continue
            for how in ("copy", "deepcopy") + (("identity image",) if n < 10 and len(range(n)) < 10 else ()):
                if how == "identity image" and kind == "fermion" and n - 2 > 9:
                    continue
                out.append(Case(f"{how} n={n} {kind}", "equal_copy", dict(n=n, kind=kind, how=how), F, ALL if n == 6 else ALL[:1], 1, target=(T[how], "Particles.__init__", "Particles.__eq__")))
    i = 0
    for how in T:
        if how == "deepcopy":
            continue
        for kind in ("light", "massive", "fermion"):
            for m in MUT:
                if kind == "fermion" and ("cluster" in how or m.startswith("set ") and m != "set mass" or m in ("string item",)):
                    continue
                for side in ("derived", "original"):
                    i += 1
                    out.append(Case(f"{how} {kind}: {m} on {side}", "independent", dict(n=6, kind=kind, how=how, mutator=m, side=side), F, (ALL[i % 3],), 1,
                                    target=(T[how], "Particles.__setattr__", "Particle.__radd__")))
    for kind in ("light",):
        out.append(Case("inputs", "inputs", dict(kind=kind), F, ALL, 1, target="Particles.__init__"))
    out.append(Case("queries", "queries", dict(n=6), F, ALL, 1, target=("Particles_Compute.compute", "Particles.total_mom")))
    return out
