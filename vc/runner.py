"""Runs the contract cases of one property, writes evidence, prints the verdict."""
import gc
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


class Case:
    """One verification task: contract `fn` of module `mod`, instantiated at discrete parameters `params`
    (the field elements stay universally quantified)."""

    def __init__(self, name, fn, params=None, fname="finite field", real=("finite field",), seeds=1, deductive=True,
                 max_paths=400, timeout=120, target=(), may_raise=(), finding=None, bound=None, isolated=False, closed=False, backend="evaluation of closed obligations"):
        self.name, self.fn, self.params = name, fn, params or {}
        self.fname, self.real, self.seeds = fname, tuple(real), seeds
        self.deductive, self.max_paths, self.timeout = deductive, max_paths, timeout
        self.target = (target,) if isinstance(target, str) else tuple(target)
        self.may_raise = tuple(may_raise)
        self.finding = finding
        self.bound = bound
        self.isolated = isolated
        # a closed obligation: every parameter is concrete (no field element, no random draw), so evaluating it decides it
        self.closed = closed
        self.backend = backend
        if closed:
            self.deductive = False


def _mod(prop):
    return importlib.import_module(f"contracts.{prop}")


_CASES = {}


_CONCRETE = {}                       # results of the first phase, seen by the workers of the second


def _blank(case):
    return {"name": case.name, "target": case.target, "obligations": 0, "backends": {}, "paths": 0, "z3_time": 0.0,
            "z3_calls": 0, "status": None, "fail": None, "runtime_checks": 0, "unsupported": None, "finding": case.finding}


def _prepare():
    signal.signal(signal.SIGALRM, _alarm)
    gc.disable()                     # numpy keeps calling into Python with an exception pending; a collection at that moment is noise
    gc.collect()


def _seeds(prop, case, res, seed, ks):
    """the same contract executed on elements of the real fields"""
    for f in case.real:
        for k in ks:
            signal.alarm(max(case.timeout, 60))
            try:
                concrete = runtime(prop, case, f, seed * 1000 + k, None, res)
            except CaseTimeout:
                res.setdefault("runtime_timeouts", 0)
                res["runtime_timeouts"] += 1
                break
            finally:
                signal.alarm(0)
            if concrete:
                return concrete
    return None


def run_concrete(arg):
    """first phase: runtime contracts, so that a failing input is reported before any proof is attempted"""
    prop, idx, seed = arg
    case = _CASES[prop][idx]
    t0 = time.time()
    res = _blank(case)
    _prepare()
    _mod(prop)
    concrete = _seeds(prop, case, res, seed, range(case.seeds))
    if concrete:
        res["status"], res["fail"] = "failed", concrete
    elif not case.deductive:
        _settle(case, res, None, None)
    res["t"] = time.time() - t0
    return idx, res


def run_case(arg):
    """second phase: symbolic execution of the contract and discharge of its obligations"""
    prop, idx, seed = arg
    case = _CASES[prop][idx]
    t0 = time.time()
    res = dict(_CONCRETE.get(idx) or _blank(case), backends={})
    spent = res.get("t", 0)
    _prepare()
    mod = _mod(prop)
    fn = getattr(mod, case.fn)
    symfail = None
    concrete = res["fail"]
    signal.alarm(case.timeout if not concrete else min(case.timeout, 60))
    try:
        symfail = _deductive(case, fn, res, t0)
    except CaseTimeout:
        res["unsupported"] = "case time budget exhausted"
    finally:
        signal.alarm(0)
    if not concrete and (res["unsupported"] or symfail):
        concrete = _seeds(prop, case, res, seed, range(case.seeds, 4))
    if symfail and not concrete and symfail["kind"] == "obligation":
        # replay the verifier's counterexample: random point satisfying the path's eliminated equalities
        signal.alarm(max(case.timeout, 60))
        try:
            for k in range(6):
                for f in (case.real or ("finite field",)):
                    hints = _hints(symfail, k, f)
                    concrete = runtime(prop, case, f, seed * 1000 + 500 + k, hints, res)
                    if concrete:
                        break
                if concrete:
                    break
        except CaseTimeout:
            pass
        finally:
            signal.alarm(0)
    _settle(case, res, symfail, concrete)
    res["t"] = spent + time.time() - t0
    return idx, res


def _settle(case, res, symfail, concrete):
    if concrete:
        res["status"] = "failed"
        res["fail"] = concrete
        if symfail:
            res["fail"]["obligation_verdict"] = {k: symfail[k] for k in ("obligation", "detail", "path")}
    elif symfail and symfail["kind"] == "obligation":
        res["status"] = "failed"
        res["fail"] = {"no_input": True, "obligation": symfail["obligation"], "detail": symfail["detail"], "path": symfail["path"]}
    elif symfail:
        res["unsupported"] = "exception only under symbolic execution: " + symfail["detail"]
        res["status"] = "bounded" if res["runtime_checks"] else "nothing"
    elif case.closed and res["runtime_checks"]:
        res["status"] = "proved"
        res["obligations"] = res["runtime_checks"]
        res["backends"] = {case.backend: res["runtime_checks"]}
        res["runtime_checks"] = 0
    elif res["unsupported"] or not case.deductive:
        res["status"] = "bounded" if res["runtime_checks"] else "nothing"
    else:
        res["status"] = "proved" if res["obligations"] else "vacuous"


def _deductive(case, fn, res, t0):
    from . import sym as S
    from .paths import explore
    from .domain import SymDomain
    fails = []

    def run(path):
        with SymDomain(path, case.fname) as D:
            path.domain = D
            fn(D, **case.params)

    def on_path(path):
        res["paths"] += 1
        res["z3_time"] += path.z3_time
        res["z3_calls"] += path.z3_calls
        for name, be, ok, detail in path.results:
            res["obligations"] += 1
            res["backends"][be] = res["backends"].get(be, 0) + 1
            if not ok and len(fails) < 5:
                fails.append({"kind": "obligation", "obligation": name, "detail": detail, "path": [str(x) for x in path.log],
                              "subst": _subst_repr(path), "sample": path.domain.choices.get("random.sample"),
                              "choices": {x[1]: x[2] for x in path.log if x and x[0] == "choose"}})
    try:
        explore(run, max_paths=case.max_paths, deadline=t0 + case.timeout, on_path=on_path)
    except S.Unsupported as e:
        res["unsupported"] = f"{type(e).__name__}: {e}"
        if fails:
            return fails[0]
        return None
    except CaseTimeout:
        raise
    except RecursionError as e:
        res["unsupported"] = f"RecursionError: {e}"
        return None
    except Exception as e:
        if fails:
            return fails[0]
        return {"kind": "exception", "obligation": "returns normally", "detail": f"{type(e).__name__}: {e}"[:300],
                "path": traceback.format_exc().splitlines()[-8:]}
    return fails[0] if fails else None


def _subst_repr(path):
    from . import sym as S
    out = []
    for idx, val in path.subst:
        out.append((S.NAMES[idx], [([(S.NAMES[i], (m >> (S.BITS * i)) & S.ONE_MASK) for i in S.pvars({m: 1})], c) for m, c in val.n.items()], val.c, bool(val.d)))
    return out


def _hints(fail, k, fname):
    """values for the pre-state scalars that satisfy the equalities eliminated on the failing path."""
    import random
    rng = random.Random(k)
    vals = {}

    def get(v):
        if v not in vals:
            vals[v] = rng.randrange(2, 10 ** 4)
        return vals[v]
    from fractions import Fraction
    for name, terms, c, hasden in reversed(fail.get("subst", [])):
        if hasden:
            continue
        tot = Fraction(0)
        bad = False
        for mon, cc in terms:
            t = Fraction(cc)
            for v, e in mon:
                if v == "I" or v.startswith("rt"):
                    bad = True
                t *= Fraction(get(v)) ** e
            tot += t
        if not bad:
            vals[name] = tot / c
    return {"values": vals, "random.sample": fail.get("sample"), "choices": fail.get("choices", {})}


def runtime(prop, case, f, seed, hints, res):
    """interpret the contract on a real field; returns a failure record or None.  A failure is reported only if an identical
    second run (same field, same seed, same hints) fails too."""
    out = _runtime(prop, case, f, seed, hints, res)
    if out is None:
        return None
    return _runtime(prop, case, f, seed, hints, res)


def _runtime(prop, case, f, seed, hints, res):
    from .domain import RealDomain
    from .paths import Infeasible
    from .sym import Unsupported
    fn = getattr(_mod(prop), case.fn)
    D = RealDomain(f, seed, hints)
    err = None
    try:
        with D:
            fn(D, **case.params)
    except Infeasible:
        return None
    except ZeroDivisionError:
        return None
    except Unsupported as e:
        return None
    except CaseTimeout:
        raise
    except Exception as e:
        err = (type(e).__name__, str(e)[:400], traceback.format_exc().splitlines()[-6:])
    bad = [r for r in D.results if not r[2]]
    res["runtime_checks"] += len(D.results)
    res["runtime_runs"] = res.get("runtime_runs", 0) + 1
    if bad:
        name, _, _, detail = bad[0]
        return {"obligation": name, "detail": detail, "field": f, "seed": seed, "hints": _json(hints),
                "values": {k: str(v)[:80] for k, v in list(D.values.items())[:80]}, "choices": D.choice_log}
    if err and err[0] not in case.may_raise:
        return {"obligation": "returns normally", "detail": f"{err[0]}: {err[1]}", "trace": err[2], "field": f, "seed": seed,
                "hints": _json(hints), "values": {k: str(v)[:80] for k, v in list(D.values.items())[:80]}, "choices": D.choice_log}
    return None


def _json(h):
    if not h:
        return None
    return {"values": {k: str(v) for k, v in h.get("values", {}).items()}, "random.sample": h.get("random.sample"), "choices": {k: repr(v) for k, v in h.get("choices", {}).items()}}


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[len("finding:"):].split("::")[0].split())
                out[(d["property"], d["id"])] = line.split("::", 1)[1].strip()
    return out


def _map(fn, jobs, until):
    """results as they come, until the deadline"""
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    if nproc == 1:
        for j in jobs:
            if time.time() > until:
                return
            yield fn(j)
        return
    if not jobs:
        return
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=200) as pool:
        it = pool.imap_unordered(fn, jobs)
        while True:
            try:
                yield it.next(timeout=max(0.1, until - time.time()))
            except (StopIteration, mp.TimeoutError):
                break
        pool.terminate()


def main(prop, tier, seed, only=None):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    scratch = os.environ["HOME"]
    mod = _mod(prop)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    _CASES[prop] = cases
    # a quick run always answers: what the time does not suffice to prove is reported as bounded
    end = t0 + (float(os.environ.get("VERIF_BUDGET", "720")) if tier == "quick" else 10 ** 6)
    results = {}
    known = known_findings()

    def new_violation(r):
        return r["status"] == "failed" and not (r["finding"] and (prop, r["finding"]) in known)

    def phase(fn, idx, until, stop):
        for i, r in _map(fn, [(prop, i, seed) for i in idx], until):
            results[i] = r
            if stop(r):
                break

    fast = bool(os.environ.get("VERIF_FAILFAST"))
    seen = []

    def enough(r):
        if new_violation(r) and not r["fail"].get("no_input"):
            seen.append(r)
        return len(seen) >= (1 if fast else 12)

    phase(run_concrete, range(len(cases)), t0 + 0.7 * (end - t0), enough)
    _CONCRETE.update(results)
    bad = [i for i, r in results.items() if new_violation(r)]
    if bad:                          # failing inputs exist: the proofs of these cases name the obligation that fails
        if not fast:
            phase(run_case, [i for i in sorted(bad)[:8] if cases[i].deductive], min(end, time.time() + 90), lambda r: False)
        results = {i: r for i, r in results.items() if r["status"]}
    else:
        phase(run_case, [i for i, c in enumerate(cases) if c.deductive], end, enough)
        for i, c in enumerate(cases):
            r = results.setdefault(i, _blank(c))
            if r["status"] is None:
                r["unsupported"] = r["unsupported"] or "time budget of the whole run exhausted"
                r["status"] = "bounded" if r["runtime_checks"] else "nothing"
                r.setdefault("t", 0)
    results = [results[i] for i in sorted(results)]
    return report(prop, tier, seed, mod, cases, results, t0)


def report(prop, tier, seed, mod, cases, results, t0):
    known = known_findings()
    proved = [r for r in results if r["status"] == "proved"]
    bounded = [r for r in results if r["status"] == "bounded"]
    failed = [r for r in results if r["status"] == "failed"]
    empty = [r for r in results if r["status"] in ("vacuous", "nothing")]
    backends = {}
    for r in results:
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
    nob = sum(r["obligations"] for r in results)
    disch = sum(r["obligations"] for r in proved)
    violations, findings = [], []
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for r in failed:
        if r["finding"] and (prop, r["finding"]) in known:
            findings.append(r)
            print(f"KNOWN-FINDING: property={prop} {known[(prop, r['finding'])]}")
            continue
        violations.append(r)
    seen = 0
    violations.sort(key=lambda r: bool(r["fail"].get("no_input")))        # replayed counterexamples first
    if violations and not violations[0]["fail"].get("no_input"):
        violations = [r for r in violations if not r["fail"].get("no_input")]
    for r in violations:
        safe = "".join(ch if ch.isalnum() else "_" for ch in r["name"])[:80]
        path = os.path.join(rdir, f"{prop}-{safe}.json")
        rec = {"property": prop, "case": r["name"], "target": r["target"], "failure": r["fail"],
               "replay_cmd": f"/verif/check {prop} --replay {path}", "seed": seed}
        with open(path, "w") as fh:
            json.dump(rec, fh, indent=1, default=str, ensure_ascii=False)
        if seen < 5:
            tail = " no-failing-input-found" if r["fail"].get("no_input") else ""
            print(f"  failed obligation: case={r['name']} obligation={r['fail']['obligation']} : {r['fail']['detail'][:300]}")
            print(f"VIOLATION property={prop} replay={path}{tail}")
        seen += 1
    targets = sorted({t for c in cases for t in c.target})
    assumptions = list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS
    if bounded:
        assumptions.append(f"{len(bounded)} case(s) decided only by bounded runtime-contract execution (never counted as proved), see coverage.bounded_cases")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "obligations": nob, "discharged": disch,
            "checker_cmd": f"/verif/check {prop} --tier {tier}",
            "trusted_base": TRUSTED,
            "functions_under_contract": targets,
            "cases": len(results), "cases_proved": len(proved), "cases_bounded": len(bounded), "cases_failed": len(failed),
            "bounded_cases": [{"case": r["name"], "why": r["unsupported"] or "registered as a bounded stand-in",
                               "bound": f"{r.get('runtime_runs', 0)} runs, {r['runtime_checks']} runtime obligations"} for r in bounded][:400],
            "cases_without_obligations": [r["name"] for r in empty][:50],
            "paths": sum(r["paths"] for r in results),
            "backends": backends, "z3_seconds": round(sum(r["z3_time"] for r in results), 3),
            "z3_calls": sum(r["z3_calls"] for r in results),
            "solver_cpu_seconds": round(sum(r["t"] for r in results), 1),
            "runtime_obligations_on_real_fields": sum(r["runtime_checks"] for r in results),
        },
        "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    extra = getattr(mod, "evidence_extra", None)
    if extra:
        ev["coverage"].update(extra(tier))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
    print(f"{prop} {tier}: {len(results)} cases, {len(proved)} proved ({disch} obligations discharged, {backends}), "
          f"{len(bounded)} bounded, {len(failed)} failed, {len(empty)} empty; {time.time() - t0:.1f}s")
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results, key=lambda r: -r["t"])[:15]:
            print(f"   slow: {r['t']:.1f}s paths={r['paths']} obligations={r['obligations']} {r['status']} {r['name']}")
    nreg = sum(1 for r in bounded if not r["unsupported"])
    if nreg:
        print(f"   {nreg} registered bounded stand-ins")
    for r in [r for r in bounded if r["unsupported"]][:12]:
        print("   bounded:", r["name"], "-", r["unsupported"] or "registered as bounded")
    for r in empty[:8]:
        print("   no obligation reached:", r["name"], r["unsupported"])
    return 1 if violations else 0


COMMON_ASSUMPTIONS = [
    "field arithmetic is exact: mpmath numbers are treated as elements of an exact field (rounding, cancellation and overflow are outside the deductive claim; the runtime mode samples them)",
    "contract assumed of syngular.Field: sqrt(x)^2 = x, sqrt a function of its argument, random() returns an arbitrary element, tollerance >= 0",
    "contract assumed of abs(): values in a totally ordered set, |x| >= 0, |x| = 0 iff x = 0, |-x| = |x|",
    "numpy object arrays (dot, matmul, trace, tensordot, block, transpose, shape assignment) are executed, not verified; CPython executes the verified text",
    "divisors are non-zero on every normally returning path (the real field raises otherwise)",
]
TRUSTED = ["vc/sym.py exact polynomial normaliser", "vc/paths.py path engine", "z3", "Singular (only for non-linear path equalities)", "CPython, numpy"]


def replay(prop, path):
    sys.path.insert(0, VERIF)
    rec = json.load(open(path))
    mod = _mod(prop)
    case = None
    for tier in ("quick", "thorough"):
        for c in mod.cases(tier):
            if c.name == rec["case"]:
                case = c
                break
        if case:
            break
    f = rec["failure"]
    if f.get("no_input"):
        print("no concrete input was found; failed obligation:", f["obligation"], f["detail"])
        return 1
    res = {"runtime_checks": 0}
    h = f.get("hints")
    if h:
        from fractions import Fraction
        h = {"values": {k: Fraction(v) for k, v in h["values"].items()}, "random.sample": h["random.sample"], "choices": {k: eval(v) for k, v in h["choices"].items()}}
    out = runtime(prop, case, f["field"], f["seed"], h, res)
    print("replayed:", json.dumps(out, indent=1, default=str, ensure_ascii=False))
    return 1 if out else 0
