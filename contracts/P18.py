"""P18 base-one container and string items."""
from .common import *                                              # noqa
from .P10 import state, same_state

LEVEL = "proof"
ASSUMPTIONS = ["indices, names and multiplicities enumerated (multiplicities 1 to 11, every leg, out-of-range samples on both sides); values and kinematics universally quantified",
               "slices follow Python's zero-based slice conventions (documented behaviour: not shifted)",
               "inherited list methods (append, pop, extend, ...) are not re-based and not claimed"]

NAMES = [("⟨{}|", "r_sp_u"), ("<{}|", "r_sp_u"), ("|{}⟩", "r_sp_d"), ("|{}>", "r_sp_d"), ("|{}]", "l_sp_u"), ("[{}|", "l_sp_d")]
SHAPES = {"r_sp_u": (1, 2), "r_sp_d": (2, 1), "l_sp_u": (2, 1), "l_sp_d": (1, 2)}
REPS = ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d")


def raw(oPs):
    return list(list.__iter__(oPs))


def point(D, n):
    o = D.point(n)
    o.m_t = D.scalar("mt")
    return o


def read(D, n):
    o = point(D, n)
    legs, st = raw(o), state(o)
    D.true("length", len(o) == n and o.multiplicity == n)
    for i in range(1, n + 1):
        D.true(f"leg {i} by number", o[i] is legs[i - 1])
        D.true(f"leg {i} by string", o[str(i)] is legs[i - 1])
        for fmt, attr in NAMES:
            v = o[fmt.format(i)]
            D.true(f"{fmt.format(i)} shape", getattr(v, "shape", None) == SHAPES[attr], v)
            D.eq(f"{fmt.format(i)}", v, getattr(legs[i - 1], attr))
    D.true("iteration order", [x for x in o] == legs or all(a is b for a, b in zip(o, legs)))
    same_state(D, "reading changes nothing", state(o), st)


def refused(D, n):
    o = point(D, n)
    legs, st = raw(o), state(o)
    new = D.massless("new")
    sp_ = {a: (D.col("x") if SHAPES[a] == (2, 1) else D.row("x")) for a in SHAPES}

    def attempt(tag, f):
        try:
            r = f()
        except IndexError:
            D.true(f"{tag} refused with an index error", True)
        except Exception as e:
            D.true(f"{tag} refused with an index error", False, repr(e))
        else:
            D.true(f"{tag} refused with an index error", False, r)
        D.true(f"{tag}: legs unchanged", len(raw(o)) == n and all(a is b for a, b in zip(raw(o), legs)))

    def assign(i, v):
        o[i] = v

    def delete(i):
        del o[i]
    for i in (0, -1, -2, -n, -n - 1, n + 1, n + 2, 10 * n + 10):
        attempt(f"o[{i}]", lambda: o[i])
        attempt(f"o[{i}] = p", lambda: assign(i, new))
        attempt(f"del o[{i}]", lambda: delete(i))
        attempt(f"insert({i})", lambda: o.insert(i, new))
    for i in (0, n + 1, 10 * n + 1):
        attempt(f'o["{i}"]', lambda: o[str(i)])
        for fmt, a in NAMES:
            attempt(f"o[{fmt.format(i)}]", lambda: o[fmt.format(i)])
            attempt(f"o[{fmt.format(i)}] = x", lambda: assign(fmt.format(i), sp_[a]))
    attempt('o["nothing"]', lambda: o["nothing"])
    same_state(D, "refused accesses change nothing", state(o), st)


def replace(D, n, i):
    o = point(D, n)
    legs, st = raw(o), state(o)
    new = D.massless("new")
    snap = snapshot(new)
    o[i] = new
    D.true("length", len(o) == n)
    D.true("replaced leg", o[i] is new)
    for k in range(1, n + 1):
        D.true(f"leg {k} kept", k == i or o[k] is legs[k - 1])
    unchanged(D, "the new leg", new, snap)
    o[i] = legs[i - 1]
    same_state(D, "put back", state(o), st)


def insert(D, n, i):
    o = point(D, n)
    legs, st = raw(o), state(o)
    new = D.massless("new")
    r = o.insert(i, new)
    D.true("insert returns nothing", r is None)
    D.true("one leg more", len(o) == n + 1)
    want = legs[:i - 1] + [new] + legs[i - 1:]
    D.true("inserted before the leg of that number", all(a is b for a, b in zip(raw(o), want)) and o[i] is new)
    for k in range(1, n + 2):
        D.true(f"leg {k}", o[k] is want[k - 1])
    del o[i]
    D.true("deleted again", len(o) == n and all(a is b for a, b in zip(raw(o), legs)))
    same_state(D, "insert then delete", state(o), st)


def delete(D, n, i):
    o = point(D, n)
    legs, st = raw(o), state(o)
    del o[i]
    want = legs[:i - 1] + legs[i:]
    D.true("exactly that leg is gone", len(o) == n - 1 and all(a is b for a, b in zip(raw(o), want)))
    for k in range(1, n):
        D.true(f"leg {k}", o[k] is want[k - 1])
    try:
        o[n]
    except IndexError:
        D.true("last number no longer exists", True)
    else:
        D.true("last number no longer exists", False)


def named(D, n, i, fmt, attr):
    """assigning a named spinor: that spinor of that leg, everything derived from it, and nothing else"""
    o = point(D, n)
    legs = raw(o)
    snaps = [snapshot(p) for p in legs]
    ref = snapshot(o.oRefVec)
    v = D.col("x") if SHAPES[attr] == (2, 1) else D.row("x")
    keep = v.copy()
    o[fmt.format(i)] = v
    D.true("same legs", len(o) == n and all(a is b for a, b in zip(raw(o), legs)))
    for k, p in enumerate(legs, start=1):
        if k != i:
            unchanged(D, f"leg {k}", p, snaps[k - 1])
    unchanged(D, "reference vector", o.oRefVec, ref)
    p = o[i]
    D.eq("assigned spinor", getattr(p, attr), keep)
    D.eq("reads back by the same name", o[fmt.format(i)], keep)
    other = "l_sp_d" if attr.startswith("r") else "r_sp_d"
    D.eq("the other spinor of the leg is kept", getattr(p, other), snaps[i - 1][2 if other == "l_sp_d" else 0])
    coherent(D, f"leg {i}", p, True)
    D.true("field and masses kept", o.field is not None and o.internal_masses == {"m_t"})


def shared_value(D, n, i, j, fmt, attr):
    """one array given to two legs: assigning to one of them afterwards leaves the other alone"""
    o = point(D, n)
    new = D.col if SHAPES[attr] == (2, 1) else D.row
    v, w = new("x"), new("y")
    keep, want = v.copy(), w.copy()
    o[fmt.format(i)] = v
    o[fmt.format(j)] = v
    snaps = [snapshot(p) for p in raw(o)]
    o[fmt.format(i)] = w
    D.eq("assigned spinor", getattr(o[i], attr), want)
    D.eq("the other leg keeps the first value", getattr(o[j], attr), keep)
    for k, p in enumerate(raw(o), start=1):
        if k != i:
            unchanged(D, f"leg {k}", p, snaps[k - 1])
        coherent(D, f"leg {k}", p, True)


def slices(D, n):
    o = point(D, n)
    o.oRefVec = D.massless("q")
    legs, st = raw(o), state(o)
    for sl in (slice(None), slice(0, 2), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(2, 2), slice(-2, None), slice(1, n + 5)):
        s = o[sl]
        want = legs[sl]
        D.true(f"{sl}: a point", isinstance(s, Particles))
        D.true(f"{sl}: legs in order", len(s) == len(want) and all(s[k] is w or s[k] == w for k, w in enumerate(want, start=1)))
        D.true(f"{sl}: field", s.field == o.field)
        for a in REPS:
            D.eq(f"{sl}: reference vector {a}", getattr(s.oRefVec, a), getattr(o.oRefVec, a))
        for k, w in enumerate(want, start=1):
            for a in REPS:
                D.eq(f"{sl}: leg {k} {a}", getattr(s[k], a), getattr(w, a))
    same_state(D, "slicing changes nothing", state(o), st)


def histories(D, n, ops):
    """random interleavings of container operations against a plain list"""
    o = point(D, n)
    model = raw(o)
    for step in range(ops):
        op = D.choose(f"op{step}", ("set", "insert", "del", "bad"))
        m = len(model)
        i = D.choose(f"i{step}", range(1, m + 1)) if m else 1
        new = D.massless(f"n{step}")
        if op == "set" and m:
            o[i] = new
            model[i - 1] = new
        elif op == "insert" and m:
            o.insert(i, new)
            model.insert(i - 1, new)
        elif op == "del" and m > 1:
            del o[i]
            del model[i - 1]
        else:
            try:
                o[m + 1]
            except IndexError:
                pass
            else:
                D.true("out of range", False)
        D.true(f"step {step} {op} {i}", len(o) == len(model) and all(o[k] is model[k - 1] for k in range(1, len(model) + 1)))


def cases(tier):
    q = tier == "quick"
    F = ("finite field",)
    G = ("indexing_decorator", "Particles.__getitem__")
    W = ("indexing_decorator", "Particles.__setitem__", "Particle.r_sp_d", "Particle.r_sp_u", "Particle.l_sp_d", "Particle.l_sp_u")
    out = []
    for n in (1, 2, 3, 4, 5, 6, 10, 11):
        out.append(Case(f"read n={n}", "read", dict(n=n), "mpc", ("finite field", "mpc") if n < 6 else F, 1, target=G))
        out.append(Case(f"refused n={n}", "refused", dict(n=n), real=F, target=G + W))
    for n in (1, 4, 5, 11) if q else (1, 2, 3, 4, 5, 6, 7, 10, 11):
        for i in range(1, n + 1):
            if n > 7 and q and i not in (1, 2, 9, 10, 11):
                continue
            out.append(Case(f"replace n={n} leg {i}", "replace", dict(n=n, i=i), real=F, target=W))
            out.append(Case(f"insert n={n} leg {i}", "insert", dict(n=n, i=i), real=F, target=("indexing_decorator", "Particles.insert")))
            out.append(Case(f"delete n={n} leg {i}", "delete", dict(n=n, i=i), real=F, target=("indexing_decorator", "Particles.__delitem__")))
            for fmt, a in NAMES:
                out.append(Case(f"named {fmt.format(i)} n={n}", "named", dict(n=n, i=i, fmt=fmt, attr=a), "mpc", ("finite field", "mpc"), 1, target=W))
    for fmt, a in NAMES:
        for i, j in ((1, 2), (4, 1), (10, 3)):
            out.append(Case(f"one array for two legs {fmt.format(i)} {fmt.format(j)}", "shared_value", dict(n=max(4, i), i=i, j=j, fmt=fmt, attr=a), "mpc", ("finite field", "mpc"), 1, target=W))
    for n in (3, 5, 7):
        out.append(Case(f"slices n={n}", "slices", dict(n=n), "finite field", ("finite field",), 1, target=G))
    for k in range(4 if q else 20):
        out.append(Case(f"histories {k}", "histories", dict(n=3 + k % 4, ops=12), real=F, seeds=5, deductive=False, target=G + W))
    return out
