"""P02 momentum arithmetic."""
from .common import *                                              # noqa

LEVEL = "proof"
ASSUMPTIONS = ["scalars used to multiply or divide are field elements or Python integers; division by zero raises"]
R, N = sp.mscale, sp.madd


def mk(D, kind, tag):
    return D.massless(tag) if kind == "l" else D.massive(tag)


def result(D, tag, q, M, massless, ops):
    D.true(f"{tag}: result is a particle", isinstance(q, Particle), type(q))
    D.true(f"{tag}: result lives in the operands' field", q.field == D.field, q.field)
    D.eq(f"{tag}: momentum", q.r2_sp, M)
    coherent(D, tag, q, massless)
    for p, snap in ops:
        D.true(f"{tag}: result is a new particle", q is not p)
        unchanged(D, f"{tag}: operand", p, snap)
        for a in ("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d"):
            x, y = getattr(q, a), getattr(p, a)
            if isinstance(x, numpy.ndarray) and isinstance(y, numpy.ndarray):
                D.true(f"{tag}: no shared storage ({a})", not numpy.shares_memory(x, y))


def binary(D, op, ka, kb, conv):
    with convention(conv):
        p, q = mk(D, ka, "p"), mk(D, kb, "q")
        P, Q = p.r2_sp.copy(), q.r2_sp.copy()
        ops = [(p, snapshot(p)), (q, snapshot(q))]
        if op == "+":
            r, M = p + q, N(P, Q)
        elif op == "-":
            r, M = p - q, N(P, R(Q, -1))
        elif op == "sum":
            r, M = sum([p, q]), N(P, Q)
        elif op == "sum3":
            w = mk(D, "l", "w")
            W = w.r2_sp.copy()
            ops.append((w, snapshot(w)))
            r, M = sum([p, q, w]), N(N(P, Q), W)
        elif op == "radd":
            r, M = q.__radd__(p), N(P, Q)
        elif op == "p+(-q)":
            r, M = p + (-q), N(P, R(Q, -1))
        elif op == "p-(-q)":
            r, M = p - (-q), N(P, Q)
        elif op == "distrib":
            x = D.scalar("x")
            r, M = (p + q) * x - p * x, R(Q, x)
        result(D, op, r, M, False, ops)


def unary(D, op, ka, conv):
    with convention(conv):
        p = mk(D, ka, "p")
        P = p.r2_sp.copy()
        ops = [(p, snapshot(p))]
        x = D.scalar("x")
        if op == "neg":
            r, M = -p, R(P, -1)
        elif op == "p*x":
            r, M = p * x, R(P, x)
        elif op == "x*p":
            r, M = p.__rmul__(x), R(P, x)
        elif op == "p/x":
            D.nonzero(x)
            r, M = p / x, sp.mat([[P[i, j] / x for j in range(2)] for i in range(2)])
        elif op == "p*3":
            r, M = p * 3, R(P, 3)
        elif op == "3*p":
            r, M = 3 * p, R(P, 3)
        elif op == "-2*p":
            r, M = -2 * p, R(P, -2)
        elif op == "p/2":
            r, M = p / 2, sp.mat([[P[i, j] / 2 for j in range(2)] for i in range(2)])
        elif op == "p+0":
            r, M = p + 0, P
        elif op == "0+p":
            r, M = 0 + p, P
        elif op == "p-0":
            r, M = p - 0, P
        elif op == "sum1":
            r, M = sum([p]), P
        elif op == "p-p":
            with D.setup():
                r = p - p
            M = R(P, 0)
            result(D, op, r, M, False, ops)
            return
        elif op == "-(-p)":
            r, M = -(-p), P
        elif op == "p*x/x":
            D.nonzero(x)
            r, M = p * x / x, P
        result(D, op, r, M, ka == "l", ops)
        if op in ("p+0", "0+p", "p-0", "sum1") and ka == "l":
            D.eq(f"{op}: |a> kept", r.r_sp_d, p.r_sp_d)
            D.eq(f"{op}: [a| kept", r.l_sp_d, p.l_sp_d)


def laws(D, ka, kb):
    p, q, w = mk(D, ka, "p"), mk(D, kb, "q"), mk(D, ka, "w")
    D.true("p + q == q + p", bool(p + q == q + p))
    D.true("(p + q) + w == p + (q + w)", bool((p + q) + w == p + (q + w)))
    D.true("(p + q) - q == p", bool((p + q) - q == p))
    from lips.tools import ldot
    D.eq("p.q", ldot(p, q), sp.tr(sp.mm(p.r2_sp, sp.adj(q.r2_sp))) / 2)
    D.eq("p.q symmetric", ldot(p, q), ldot(q, p))
    D.eq("(p+q)^2 = p^2 + q^2 + 2 p.q", (p + q).m2, p.m2 + q.m2 + 2 * ldot(p, q))
    D.eq("p.p = m^2", ldot(p, p), p.m2)
    if ka == "m":
        D.eq("m^2 = m*m", p.m * p.m, p.m2)


def cases(tier):
    out = []
    seeds = 2 if tier == "quick" else 30
    tg = {"+": "Particle.__add__", "-": "Particle.__sub__", "sum": "Particle.__radd__", "sum3": "Particle.__radd__", "radd": "Particle.__radd__",
          "p+(-q)": "Particle.__neg__", "p-(-q)": "Particle.__neg__", "distrib": "Particle.__mul__"}
    for conv in ("symmetric", "asymmetric"):
        for fn, real in (("finite field", EXACT), ("mpc", ("mpc",))):
            for ka in "lm":
                for kb in "lm":
                    for op in ("+", "-", "sum", "sum3", "radd", "p+(-q)", "p-(-q)", "distrib"):
                        out.append(Case(f"{op} {ka}{kb} {conv} {fn}", "binary", dict(op=op, ka=ka, kb=kb, conv=conv), fn, real, seeds, target=tg[op]))
                for op in ("neg", "p*x", "x*p", "p/x", "p*3", "3*p", "-2*p", "p/2", "p+0", "0+p", "p-0", "sum1", "-(-p)", "p*x/x") + (("p-p",) if conv == "symmetric" else ()):
                    out.append(Case(f"{op} {ka} {conv} {fn}", "unary", dict(op=op, ka=ka, conv=conv), fn, real, seeds,
                                    target={"neg": "Particle.__neg__", "-(-p)": "Particle.__neg__", "p/x": "Particle.__truediv__", "p/2": "Particle.__truediv__", "p+0": "Particle.__add__",
                                            "0+p": "Particle.__radd__", "sum1": "Particle.__radd__", "p-0": "Particle.__sub__", "p-p": "Particle.__sub__",
                                            "x*p": "Particle.__rmul__", "3*p": "Particle.__rmul__", "-2*p": "Particle.__rmul__"}.get(op, "Particle.__mul__")))
    for fn in ("rational", "gaussian rational"):
        for op in ("+", "-", "sum3", "distrib"):
            out.append(Case(f"{op} ll {fn}", "binary", dict(op=op, ka="l", kb="l", conv="symmetric"), fn, (fn,), seeds, target=tg[op]))
        for op in ("neg", "p*x", "p/x", "3*p", "p+0", "0+p", "p-0", "-(-p)"):
            out.append(Case(f"{op} l {fn}", "unary", dict(op=op, ka="m" if op in ("neg", "p*x", "p/x", "3*p", "-(-p)") else "l", conv="symmetric"), fn, (fn,), seeds, target="Particle.__mul__"))
    for ka in "lm":
        for kb in "lm":
            out.append(Case(f"laws {ka}{kb}", "laws", dict(ka=ka, kb=kb), "finite field", ("finite field", "padic"), seeds, target=("Particle.lsq", "Particle.m", "ldot", "Particle.__eq__")))
    return out
