"""Mathematical definitions the contracts are written against.  Nothing here calls lips: only explicit 2x2 algebra on
matrix entries, so that a postcondition never restates the code it constrains."""
import re
import numpy


def mat(rows):
    a = numpy.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    return a


def adj(M):
    return mat([[M[1, 1], -M[0, 1]], [-M[1, 0], M[0, 0]]])


def det2(M):
    return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]


def mm(A, B):
    return mat([[sum_((A[i, k] * B[k, j]) for k in range(A.shape[1])) for j in range(B.shape[1])] for i in range(A.shape[0])])


def sum_(it):
    t = None
    for x in it:
        t = x if t is None else t + x
    return 0 if t is None else t


def T(M):
    return mat([[M[i, j] for i in range(M.shape[0])] for j in range(M.shape[1])])


def tr(M):
    return sum_(M[i, i] for i in range(M.shape[0]))


def madd(A, B):
    return mat([[A[i, j] + B[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])])


def mscale(A, c):
    return mat([[A[i, j] * c for j in range(A.shape[1])] for i in range(A.shape[0])])


def r_up(r):
    """<a| = (l2, -l1) from |a> = (l1, l2), for each spin index"""
    return mat([[r[1, k], -r[0, k]] for k in range(r.shape[1])])


def l_up(l):
    """|a] = (m2, -m1)^T from [a| = (m1, m2), for each spin index"""
    return mat([[l[k, 1] for k in range(l.shape[0])], [-l[k, 0] for k in range(l.shape[0])]])


def P_low(r, l):
    """P_{a ad} = |a>[a|"""
    return mat([[r[0, 0] * l[0, 0], r[0, 0] * l[0, 1]], [r[1, 0] * l[0, 0], r[1, 0] * l[0, 1]]])


def P_up(r, l):
    """P^{ad a} = |a]<a|"""
    return adj(P_low(r, l))


def four(M, I):
    """P^mu from P^{ad a} = [[E-z, -x+iy], [-x-iy, E+z]]"""
    return [(M[0, 0] + M[1, 1]) / 2, -(M[0, 1] + M[1, 0]) / 2, (M[0, 1] - M[1, 0]) / (2 * I), (M[1, 1] - M[0, 0]) / 2]


def up_from_four(v, I):
    E, x, y, z = v
    return mat([[E - z, -x + I * y], [-x - I * y, E + z]])


class Snap:
    """the kinematic content of a point, read once."""

    def __init__(self, oPs):
        self.n = len(oPs)
        self.r = {i: cp(oPs[i].r_sp_d) for i in range(1, self.n + 1)}
        self.l = {i: cp(oPs[i].l_sp_d) for i in range(1, self.n + 1)}
        self.up = {i: cp(oPs[i].r2_sp) for i in range(1, self.n + 1)}
        self.low = {i: cp(oPs[i].r2_sp_b) for i in range(1, self.n + 1)}


def cp(a):
    return None if a is None else a.copy()


def ang(s, i, j):
    a, b = s.r[i], s.r[j]
    return a[1, 0] * b[0, 0] - a[0, 0] * b[1, 0]


def sqr(s, i, j):
    a, b = s.l[i], s.l[j]
    return a[0, 0] * b[0, 1] - a[0, 1] * b[0, 0]


def signed(entry):
    """'1+2-3' -> [(1,1),(1,2),(-1,3)]"""
    entry = entry.replace("(", "").replace(")", "")
    return [(-1 if sg == "-" else 1, int(k)) for sg, k in re.findall(r"([+-]?)(\d+)", entry)]


def comb(table, entry):
    t = None
    for sg, k in signed(entry):
        M = table[k] if sg > 0 else mscale(table[k], -1)
        t = M if t is None else madd(t, M)
    return t


def chain(s, first, mids, last, kind0):
    """<a|P1|P2|...|b> etc.  kind0 in 'a' (angle start), 's' (square start), 'lo' (open, lower alpha first), 'up'.
    first/last: particle number or None (open end)."""
    low = kind0 in ("a", "lo")          # a row <a| contracts the lower-alpha index of P_{a ad}
    M = None
    if first is not None:
        M = r_up(s.r[first]) if kind0 == "a" else s.l[first]
    for m in mids:
        X = comb(s.low if low else s.up, m)
        M = X if M is None else mm(M, X)
        low = not low
    if last is not None:
        end = s.r[last] if low else l_up(s.l[last])      # after an even number of slashes an angle start ends on |b>
        M = end if M is None else mm(M, end)
    return M


def gram(s, sets):
    """(-1)^n det of the (n-1)x(n-1) minor of p_I.p_J"""
    ups = [comb(s.up, "+".join(map(str, c))) for c in sets]
    lows = [comb(s.low, "+".join(map(str, c))) for c in sets]
    n = len(sets) - 1
    G = [[tr(mm(ups[i], lows[j])) / 2 for j in range(n)] for i in range(n)]
    return (-1) ** (n + 1) * detn(G)


def detn(G):
    n = len(G)
    if n == 1:
        return G[0][0]
    tot = None
    import itertools
    for perm in itertools.permutations(range(n)):
        sg = 1
        for i in range(n):
            for j in range(i + 1, n):
                if perm[i] > perm[j]:
                    sg = -sg
        t = G[0][perm[0]]
        for i in range(1, n):
            t = t * G[i][perm[i]]
        t = t if sg > 0 else -t
        tot = t if tot is None else tot + t
    return tot


def mand(s, idx):
    return det2(comb(s.up, "+".join(map(str, idx))))


def dot(s, i, j):
    return tr(mm(s.up[i], s.low[j])) / 2


def nol3(n, ijk):
    """the three cyclically ordered, disjoint blocks starting at i, j, k"""
    out = []
    for t in range(3):
        blk, cur = [], ijk[t]
        stop = {ijk[(t + 1) % 3], ijk[(t + 2) % 3]}
        while True:
            blk.append(cur)
            cur = cur % n + 1
            if cur in stop:
                break
        out.append(blk)
    return out


def flat(x):
    return [v for r in x for v in r]


def value(s, inv):
    """value of a spinor invariant written in lips notation (single-digit labels), from the definitions above only"""
    t = inv.strip()
    m = re.fullmatch(r"([⟨\[])(\d)\|(.*?)\|?(\d)([⟩\]])", t)
    if t[0] in "⟨[" and m:
        a, mid, b = int(m.group(2)), m.group(3), int(m.group(4))
        mids = [x for x in mid.split("|") if x]
        k0 = "a" if m.group(1) == "⟨" else "s"
        angle_end = (len(mids) % 2 == 0) == (k0 == "a")
        assert angle_end == (m.group(5) == "⟩"), inv
        return chain(s, a, mids, b, k0)[0, 0]
    m = re.fullmatch(r"s_(\d+)", t)
    if m:
        return mand(s, [int(x) for x in m.group(1)])
    m = re.fullmatch(r"tr5_(\d)(\d)(\d)(\d)|tr5\((.*?)\|(.*?)\|(.*?)\|(.*?)\)", t)
    if m:
        g = [x for x in m.groups() if x]
        one = mm(mm(comb(s.low, g[0]), comb(s.up, g[1])), mm(comb(s.low, g[2]), comb(s.up, g[3])))
        two = mm(mm(comb(s.up, g[0]), comb(s.low, g[1])), mm(comb(s.up, g[2]), comb(s.low, g[3])))
        return tr(one) - tr(two)
    m = re.fullmatch(r"([ΔΩΠ])_(.*)", t)
    if m:
        if "|" in m.group(2):
            return gram(s, [[int(x) for x in c] for c in m.group(2).split("|")])
        A, B, C = nol3(s.n, [int(x) for x in m.group(2)])
        M = lambda c: mand(s, c)                                   # noqa
        if m.group(1) == "Δ":
            return gram(s, [A, B, C])
        if m.group(1) == "Ω":
            return 2 * M(C) * M(B) - (M(C) + M(B) - M(A)) * M(C + [A[0]])
        return M(C + [A[0]]) - M(C + [A[1]])
    m = re.fullmatch(r"\(⟨(\d)\|(\d)\|(.*?)\|(\d)\|(\d)\]-⟨(\d)\|(\d)\|(.*?)\|(\d)\|(\d)\]\)", t)
    if m:
        a, b, c, d, e, f, g, h, i, j = m.groups()
        return chain(s, int(a), [b, c, d], int(e), "a")[0, 0] - chain(s, int(f), [g, h, i], int(j), "a")[0, 0]
    raise ValueError(inv)
