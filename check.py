#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--case SUBSTR]   decide a property
check.py --replay FILE                                           rerun a recorded counterexample"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO_SRC = os.environ.get("MOMLEVEL_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

ASSUMPTIONS = [
    "floating-point rounding is not modelled: values are exact reals, the doubles in the source are taken as exact rationals, and agreement is required to the stated tolerance (float32 casts carry a bounded symbolic relative error)",
    "missing values are a symbolic flag per element; infinities arise from division by zero and log(0) only",
    "data live in memory unless a case chunks them (C31; dask then runs its real graphs one task after another); array sizes are the stated bounds",
    "numpy / xarray / xgcm run as installed; numpy kernels are replaced element by element by their real-arithmetic meaning (symlev/symarray.py), numpy.linalg.lstsq by the exact normal equations",
    "transcendental functions are uninterpreted with sound interval, monotonicity and Lipschitz axioms",
]


def load_known():
    """known: id=<id> property=<Cxx> <what fails>   (fixed: lines suppress nothing)"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: id=(\S+) property=(\S+) (.*)", line.strip())
            if m:
                out.setdefault(m.group(2), {})[m.group(1)] = m.group(3)
    return out


def worker(conn, modname, idx, tier, seed, points=0):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        from symlev import engine

        mod = importlib.import_module(modname)
        case = mod.cases(tier)[idx]
        r = engine.run_points(case, seed, points) if points else engine.run_case(case, seed)
    except BaseException as e:  # noqa
        import traceback

        r = {"case": f"#{idx}", "status": "error", "violations": [], "known": {}, "notes": [f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:]],
             "paths": 0, "conformance": 0, "conformance_bad": 0, "checked": 0, "trivial": 0, "functions": [], "concrete_runs": 0,
             "atoms": 0, "stats": {}, "wall_s": 0, "bounds": "", "infeasible": 0, "samples": []}
    conn.send(r)
    conn.close()


LIMIT = {"quick": 600.0, "thorough": 3000.0}    # seconds for one run


def _none(case, why, wall):
    return {"case": case.name, "status": "error", "violations": [], "known": {}, "notes": [why],
            "paths": 0, "conformance": 0, "conformance_bad": 0, "checked": 0, "trivial": 0, "functions": [],
            "concrete_runs": 0, "atoms": 0, "stats": {}, "wall_s": round(wall, 1), "bounds": case.bounds, "infeasible": 0, "samples": []}


def run_all(modname, cases, tier, seed, jobs, points=False):
    if points:
        return fallback(modname, cases, tier, seed, jobs, list(range(len(cases))), 3600.0, 60)
    res = explore(modname, cases, tier, seed, jobs)
    lost = [i for i, r in enumerate(res) if r["status"] == "error" and not r["violations"]]
    if lost and not any(r["violations"] for r in res):
        # no claim for these; a point where the real code breaks the specification is reported all the same
        for i, r in zip(lost, fallback(modname, cases, tier, seed, jobs, lost, 120.0, 20)):
            if r is not None:
                r["notes"] = res[i]["notes"] + r["notes"]
                res[i] = r
    return res


def fallback(modname, cases, tier, seed, jobs, idx, seconds, each):
    ctx = mp.get_context("fork")
    todo, live, done = list(idx), {}, {}
    end = time.time() + seconds
    while (todo or live) and time.time() < end:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, modname, i, tier, seed, each))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i in list(live):
            p, a, t0 = live[i]
            if a.poll(0.02):
                try:
                    done[i] = a.recv()
                except EOFError:
                    done[i] = None
            elif p.is_alive() and time.time() - t0 < each + 30:
                continue
            p.kill()
            p.join()
            del live[i]
        time.sleep(0.01)
    for p, a, t0 in live.values():
        p.kill()
        p.join()
    return [done.get(i) for i in idx]


def explore(modname, cases, tier, seed, jobs):
    ctx = mp.get_context("fork")
    todo = list(range(len(cases)))
    # long ones first
    todo.sort(key=lambda i: -cases[i].budget)
    live, done = {}, {}
    start = time.time()
    end = start + LIMIT.get(tier, LIMIT["quick"])
    while todo or live:
        if time.time() > end:
            # no verdict for what is left; a found violation is reported
            for i, (p, a, t0) in live.items():
                p.kill()
                p.join()
            for i in todo + list(live):
                done[i] = _none(cases[i], "not decided: time limit of the run", 0.0)
            break
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, modname, i, tier, seed))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i in list(live):
            p, a, t0 = live[i]
            hard = cases[i].budget * 1.5 + 90
            if a.poll(0.05):
                try:
                    done[i] = a.recv()
                except EOFError:
                    done[i] = None
                p.join()
                del live[i]
            elif not p.is_alive():
                done[i] = a.recv() if a.poll(0.2) else None
                del live[i]
            elif time.time() - t0 > hard:
                p.kill()
                p.join()
                done[i] = None
                del live[i]
            if i in done and done[i] is None:
                done[i] = _none(cases[i], "worker ended without a result (time or memory)", time.time() - t0)
            if i in done and done[i]["violations"]:
                end = min(end, max(time.time() + 45.0, start + 90.0))
        time.sleep(0.01)
    return [done[i] for i in range(len(cases))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--points", action="store_true", help="only compare the real code with the specification on points (no verdict): a test of the harness")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    import warnings

    warnings.filterwarnings("ignore")
    import momlevel

    if not os.path.abspath(momlevel.__file__).startswith(os.path.abspath(REPO_SRC) + os.sep):
        print(f"wrong momlevel: {momlevel.__file__}", file=sys.stderr)
        return 2

    if a.replay:
        return replay(a.replay)
    pid = a.prop.upper()
    modname = f"props.{pid.lower()}"
    from props import shared
    mod = shared.attach(importlib.import_module(modname), pid)
    from symlev import engine

    t0 = time.time()
    allc = mod.cases(a.tier)
    if a.case:
        idx = [i for i, c in enumerate(allc) if a.case in c.name]
        orig = mod.cases
        mod.cases = lambda tier: [orig(tier)[i] for i in idx]
        allc = mod.cases(a.tier)
    res = [r or _none(k, "no result", 0.0) for k, r in zip(allc, run_all(modname, allc, a.tier, seed, a.jobs, a.points))]
    known = load_known().get(pid, {})
    viol, rc = [], 0
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    for c, r in zip(allc, res):
        for fid, k in r["known"].items():
            if fid not in known:
                r["violations"].append({"label": k["label"], "impl": k["impl"], "spec": k["spec"], "env": k["env"], "found_by": f"finding {fid} is not in the known-findings file"})
        for v in r["violations"][:1]:
            body = {"property": pid, "case": r["case"], "tier": a.tier, **v}
            h = hashlib.sha1(json.dumps([pid, r["case"], v["label"]], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{pid}-{h}.json")
            json.dump(body, open(path, "w"), indent=1, default=str)
            viol.append((path, r["case"], v))
    kf = {}
    for r in res:
        for fid in r["known"]:
            if fid in known:
                kf.setdefault(fid, r["known"][fid])
    for fid in sorted(kf):
        print(f"KNOWN-FINDING: property={pid} {known[fid]}")
    for path, cn, v in viol[:5]:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  case {cn}: {v['label']}: got {v['impl']}, expected {v['spec']} ({v['found_by']})")
        rc = 1
    bad = [r for r in res if r["status"] != "ok"]
    for r in res:
        if r["status"] != "ok" or a.v:
            print(f"  {r['status']:12s} {r['case']} paths={r['paths']} checked={r['checked']} wall={r['wall_s']}s {'; '.join(r['notes'])[:1500]}")
        if r["conformance_bad"]:
            print(f"  encoding mismatch in {r['case']}: {r['samples'][:3]}")
        elif a.v:
            print("      ", r["samples"][:2], {k: (round(v, 2) if isinstance(v, float) else v) for k, v in r["stats"].items() if v})
    if bad and all(r["status"] == "error" for r in res) and not viol:
        rc = 2
    st = {}
    for r in res:
        for k, v in r["stats"].items():
            st[k] = st.get(k, 0) + v
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "assumptions": ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "coverage": {
            "states": sum(r["paths"] for r in res),
            "transitions": sum(r["checked"] for r in res),
            "traces_validated_against_impl": sum(r["conformance"] for r in res),
            "samples": [s for r in res for s in r["samples"][:1]][:8] or ["-"],
            "meaning": "states = symbolic paths explored, transitions = assertions checked on them, traces = path witnesses replayed on the unpatched code and compared with the encoding",
            "functions_encoded": sorted({f for r in res for f in r["functions"]}),
            "bounds": sorted({re.sub(r"\s+", " ", r["bounds"]) for r in res if r["bounds"]}),
            "queries": st.get("queries", 0), "unsat": st.get("unsat", 0), "sat": st.get("sat", 0), "unknown": st.get("unknown", 0),
            "case_splits": st.get("case_splits", 0), "solver_s": round(st.get("solver_s", 0.0), 3), "solver": "z3 (python bindings)",
            "closed_by_normal_form": sum(r["trivial"] for r in res),
            "concrete_runs": sum(r["concrete_runs"] for r in res),
            "encoding_mismatches": sum(r["conformance_bad"] for r in res),
            "infeasible_paths": sum(r["infeasible"] for r in res),
            "cases": [{"case": r["case"], "status": r["status"], "paths": r["paths"], "assertions": r["checked"], "wall_s": r["wall_s"], "notes": r["notes"][:3]} for r in res],
            "known_findings_seen": sorted(kf),
        },
    }
    if not a.case and not a.points:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    ok = sum(r["status"] == "ok" for r in res)
    print(f"{pid} {a.tier}: {len(res)} cases ({ok} decided), {ev['coverage']['states']} paths, {ev['coverage']['transitions']} assertions, "
          f"{ev['coverage']['queries']} queries, solver {ev['coverage']['solver_s']} s, wall {ev['wall_s']} s, violations {len(viol)}")
    return rc


def replay(path):
    d = json.load(open(path))
    from symlev import engine

    from props import shared
    mod = shared.attach(importlib.import_module(f"props.{d['property'].lower()}"), d["property"])
    case = next(c for c in mod.cases(d.get("tier", "quick")) if c.name == d["case"])
    c, st = engine.run_concrete(case, d["env"])
    print("status:", st)
    for f in c.fail:
        print("  FAIL", f[0], "got", f[1], "expected", f[2], "" if f[3] is None else f"(known finding {f[3]})")
    return 1 if st == "fail" or isinstance(st, tuple) else 0


if __name__ == "__main__":
    sys.exit(main())
