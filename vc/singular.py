"""Back end for obligations under non-linear path equalities: ideal membership decided by Singular."""
import subprocess
from . import sym as S

STATS = {"calls": 0, "time": 0.0}


def _ps(p, names):
    out = []
    for m, c in p.items():
        t = [str(c)]
        i = 0
        while m:
            e = m & S.ONE_MASK
            if e:
                t.append(f"{names[i]}^{e}" if e > 1 else names[i])
            m >>= S.BITS
            i += 1
        out.append("*".join(t))
    return "+".join(out).replace("+-", "-") or "0"


def in_ideal(goal, eqs, timeout=60):
    import time
    t0 = time.time()
    idx = sorted(set(S.pvars(goal)).union(*[S.pvars(q) for q in eqs]))
    extra = [i for i in idx if i in S.SQ]
    polys = list(eqs) + [S.padd({2 << (S.BITS * i): 1}, S.pscale(S.SQ[i], -1)) for i in extra]
    names = {i: f"v{i}" for i in set(idx).union(*[S.pvars(q) for q in polys])}
    prog = (f"ring r=0,({','.join(names[i] for i in sorted(names))}),dp;ideal J={','.join(_ps(q, names) for q in polys)};"
            f"J=std(J);poly g={_ps(goal, names)};print(reduce(g,J)==0);quit;")
    try:
        r = subprocess.run(["Singular", "-q", "--no-rc"], input=prog, capture_output=True, text=True, timeout=timeout)
        out = r.stdout.strip().splitlines()
    except Exception:
        return False
    finally:
        STATS["calls"] += 1
        STATS["time"] += time.time() - t0
    return bool(out) and out[-1].strip() == "1"
