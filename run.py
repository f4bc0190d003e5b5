#!/opt/venv/bin/python
"""run.py <PROPERTY> [--tier quick|thorough] | --replay FILE"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import boot

boot.paths()


def init_worker():
    boot.paths()


def do_harness(pid, hname, seed, tier):
    """runs in a worker process"""
    try:
        x64 = not hname.endswith("@f32")
        boot.load(x64)
        mod = importlib.import_module("checks." + pid.lower())
        for name, fn, opts in mod.harnesses(tier):
            if name == hname.split("@")[0]:
                from vlib.ctx import Run
                opts.pop("f32", None)
                if opts.pop("custom", False):
                    return fn(name, seed, tier)
                r = Run(hname, fn, seed=seed, tier=tier, **opts)
                r.explore()
                return r.result()
        return dict(name=hname, error="no such harness")
    except Exception:
        return dict(name=hname, error=traceback.format_exc()[-900:])


def replay(path):
    d = json.load(open(path))
    boot.load(True)
    mod = importlib.import_module("checks." + d["property"].lower())
    from vlib.ctx import Run, NumCtx, CodeRaises
    for name, fn, opts in mod.harnesses("thorough"):
        if name == d["harness"].split("@")[0]:
            if opts.pop("custom", False):
                r = fn(name, 1, "quick")
                print(json.dumps(r["violations"], indent=1, default=str))
                return 1 if r["violations"] else 0
            c = NumCtx(dict(d["env"]))
            try:
                fn(c)
            except CodeRaises as e:
                print("REPRODUCED:", e)
                return 1
            for l in c.log:
                print("call %s args=%s kwargs=%s -> %s" % tuple(l))
            for f in c.failed:
                print("FAILED %s residual=%.3g %s" % f)
            return 1 if c.failed else 0
    print("harness not found")
    return 2


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=Cxx harness=<h> goal=<g> | text
                head, _, text = l.partition("|")
                kv = dict(t.split("=", 1) for t in head.split()[1:] if "=" in t)
                out.append((kv, text.strip()))
    return out


def listed(v, kf):
    """index + 1 of the known finding this violation is, else 0"""
    return next((i + 1 for i, (kv, _) in enumerate(kf) if kv.get("harness") == v["harness"].split("@")[0] and kv.get("goal") == v["goal"]), 0)


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a[0] == "--selftest":
        boot.load(True)
        import z3
        x = z3.Real("x")
        sv = z3.Solver()
        sv.add(x * x < 0)
        assert sv.check() == z3.unsat
        print("ok")
        sys.exit(0)
    pid = a[0]
    tier = "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") == "thorough":
        tier = "thorough"
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    boot.paths()
    import importlib.util
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    mod = importlib.import_module("checks." + pid.lower())
    names = [n for n, _, _ in mod.harnesses(tier)]
    if only:
        names = [n for n in names if any(o in n for o in only)]
    if tier == "thorough" and not only:
        names += [n + "@f32" for n, _, o in mod.harnesses(tier) if not o.get("custom") and o.get("f32", True)]
    results = []
    import concurrent.futures as cf
    import multiprocessing as mpc
    nw = min(int(os.environ.get("VERIF_JOBS", "7")), len(names))
    if nw <= 1 or "--inline" in a:
        for n in names:
            results.append(do_harness(pid, n, seed, tier))
    else:
        ex = cf.ProcessPoolExecutor(nw, mp_context=mpc.get_context("spawn"), initializer=init_worker)
        futs = {ex.submit(do_harness, pid, n, seed, tier): n for n in names}
        limit = 780 if tier == "quick" else 5400
        try:
            left, kfs = set(futs), known_findings(pid)
            while left:
                if time.time() - t0 > limit:
                    raise cf.TimeoutError
                fin, left = cf.wait(left, timeout=max(1, limit - (time.time() - t0)), return_when=cf.FIRST_COMPLETED)
                for f in fin:
                    try:
                        results.append(f.result())
                    except Exception as e:
                        results.append(dict(name=futs[f], error="worker died: %r" % e))
                    if tier == "quick" and any(not listed(v, kfs) for v in results[-1].get("violations", [])):
                        limit = min(limit, time.time() - t0 + 60)   # enough to report: the others get another minute
        except cf.TimeoutError:
            done = {r["name"] for r in results}
            for n in names:
                if n not in done:
                    results.append(dict(name=n, timeout=True))
            for p in list(ex._processes.values()):
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    rc = report(pid, mod, tier, seed, results, t0)
    sys.stdout.flush()
    os._exit(rc)


def report(pid, mod, tier, seed, results, t0):
    results.sort(key=lambda r: r["name"])
    tot = lambda k: sum(r.get(k, 0) for r in results if isinstance(r.get(k, 0), (int, float)))
    errors = [(r["name"], r["error"]) for r in results if r.get("error")]
    timeouts = [r["name"] for r in results if r.get("timeout")]
    viol = [v for r in results for v in r.get("violations", [])]
    und = [u for r in results for u in r.get("undecided", [])] + ["%s: harness timed out" % t for t in timeouts]
    mism = [m for r in results for m in r.get("mismatch", [])]
    kf = known_findings(pid)
    rc = 0
    new = []
    seen_kf = set()
    for v in viol:
        hit = listed(v, kf)
        if not hit:
            new.append(v)
        else:
            seen_kf.add(hit - 1)
    for i in seen_kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, kf[i][1]))
    for k, v in enumerate(new):
        path = os.path.join(HERE, "evidence", "replays", "%s_%d.json" % (pid, k))
        json.dump(dict(property=pid, command="/opt/venv/bin/python /verif/run.py --replay %s" % path, **v), open(path, "w"), indent=1, default=str)
        print("violated: %s goal=%s (%s) %s" % (v["harness"], v["goal"], v.get("source"), v["info"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    for u in und[:20]:
        print("UNDECIDED property=%s %s" % (pid, u))
    for n, e in errors:
        print("ERROR harness %s\n%s" % (n, e))
    for m in mism:
        print("TRANSLATOR MISMATCH %s" % m)
    if rc == 0 and (errors or mism):
        rc = 2
    fns = sorted({f for r in results for f in r.get("functions", [])})
    cov = dict(
        explanation=mod.EXPLANATION,
        functions_encoded=fns,
        jaxpr_primitives=sorted({f for r in results for f in r.get("primitives", [])}),
        bounds=mod.BOUNDS,
        harnesses=len(results), paths_explored=tot("paths"), paths_infeasible=tot("infeasible"), paths_cut_at_loop_bound=tot("cut"),
        obligations=tot("obligations"), discharged=tot("discharged"), undecided=und, undecided_count=len(und),
        solver="z3 (in-process)", queries_discharged=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"),
        queries_unknown=tot("unknown"), obligations_reduced_to_zero_polynomial=tot("normalised_to_zero"), solver_time_s=round(tot("solver_s"), 2),
        paths_validated_against_real_code=tot("validated"), paths_without_random_witness=tot("unvalidated"),
        samples=[s for r in results for s in r.get("samples", [])][:8],
        per_harness=[{k: r.get(k) for k in ("name", "paths", "obligations", "discharged", "queries", "solver_s", "wall_s")} for r in results],
        known_findings=[kf[i][1] for i in seen_kf],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: harnesses=%d paths=%d obligations=%d discharged=%d undecided=%d queries=%d (unsat %d) solver=%.1fs validated_paths=%d violations=%d wall=%.1fs"
          % (pid, tier, len(results), tot("paths"), tot("obligations"), tot("discharged"), len(und), tot("queries"), tot("unsat"), tot("solver_s"), tot("validated"), len(new), time.time() - t0))
    return rc


if __name__ == "__main__":
    main()
