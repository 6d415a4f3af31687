import numpy
import contextlib
import lips
from lips import Particle, Particles
from vc.runner import Case
from . import spec as sp


@contextlib.contextmanager
def convention(c):
    old = lips.spinor_convention
    lips.spinor_convention = c
    try:
        yield
    finally:
        lips.spinor_convention = old


HAS_I = ("mpc",)


def coherent(D, tag, p, massless, spinors=None):
    """class invariant of Particle: every representation denotes the same momentum."""
    up = p.r2_sp
    D.eq(f"{tag}: lower rank-two spinor is the adjugate of the upper one", p.r2_sp_b, sp.adj(up))
    if not D.symbolic and D.fname == "rational":
        pass                               # no imaginary unit in the field: P^mu is a floating-point stand-in, not claimed
    elif p.four_mom is not None and (not hasattr(p.four_mom, "__len__") or any(x is not None for x in p.four_mom)):
        I = D.imag()
        D.true(f"{tag}: four momentum shape", getattr(p.four_mom, "shape", None) == (4,), p.four_mom)
        D.eq(f"{tag}: slashed momentum of P^mu", up, sp.up_from_four(list(p.four_mom), I))
        D.eq(f"{tag}: P_mu = eta P^mu", list(p.four_mom_d), [p.four_mom[0], -p.four_mom[1], -p.four_mom[2], -p.four_mom[3]])
    else:
        D.true(f"{tag}: four momentum may be undefined only in fields without an imaginary unit", D.fname != "mpc", p.four_mom)
        D.true(f"{tag}: P_mu undefined with P^mu", p.four_mom_d is None or all(x is None for x in p.four_mom_d), p.four_mom_d)
    D.eq(f"{tag}: m^2 = det P", p.m2, sp.det2(up))
    defined = [x is not None for x in (p.r_sp_d, p.r_sp_u, p.l_sp_d, p.l_sp_u)]
    D.true(f"{tag}: spinors all defined or all undefined", all(defined) or not any(defined), defined)
    if spinors is True:
        D.true(f"{tag}: spinors defined", all(defined), defined)
    elif spinors is False:
        D.true(f"{tag}: spinors undefined", not any(defined), defined)
    if all(defined):
        D.true(f"{tag}: spinor shapes", (p.r_sp_d.shape, p.l_sp_d.shape, p.r_sp_u.shape, p.l_sp_u.shape) == ((2, 1), (1, 2), (1, 2), (2, 1)),
               (p.r_sp_d.shape, p.l_sp_d.shape, p.r_sp_u.shape, p.l_sp_u.shape))
        D.eq(f"{tag}: <a| = eps|a>", p.r_sp_u, sp.r_up(p.r_sp_d))
        D.eq(f"{tag}: |a] = [a|eps", p.l_sp_u, sp.l_up(p.l_sp_d))
        if massless:
            D.eq(f"{tag}: P = |a>[a|", p.r2_sp_b, sp.P_low(p.r_sp_d, p.l_sp_d))
            D.eq(f"{tag}: m^2 = 0", p.m2, 0)


def snapshot(p):
    return [None if a is None else a.copy() for a in (p.r_sp_d, p.r_sp_u, p.l_sp_d, p.l_sp_u, p.r2_sp, p.r2_sp_b, p.four_mom, p.four_mom_d)]


def unchanged(D, tag, p, snap):
    now = (p.r_sp_d, p.r_sp_u, p.l_sp_d, p.l_sp_u, p.r2_sp, p.r2_sp_b, p.four_mom, p.four_mom_d)
    for nm, a, b in zip(("r_sp_d", "r_sp_u", "l_sp_d", "l_sp_u", "r2_sp", "r2_sp_b", "four_mom", "four_mom_d"), now, snap):
        D.eq(f"{tag}: frame {nm}", a, b)


def on_shell_and_conserved(D, tag, oPs):
    tot = sp.comb({i: oPs[i].r2_sp for i in range(1, len(oPs) + 1)}, "+".join(str(i) for i in range(1, len(oPs) + 1)))
    z = D.zero()
    D.eq(f"{tag}: total momentum vanishes", tot, sp.mat([[z, z], [z, z]]))
    for i in range(1, len(oPs) + 1):
        D.eq(f"{tag}: leg {i} light-like", sp.det2(oPs[i].r2_sp), 0)
        D.eq(f"{tag}: leg {i} P=|i>[i|", oPs[i].r2_sp_b, sp.P_low(oPs[i].r_sp_d, oPs[i].l_sp_d))


ALL = ("finite field", "padic", "mpc")
EXACT = ("finite field", "padic")
