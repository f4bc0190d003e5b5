"""C22 start of the Kepler solvers in single precision."""
from checks.common import H

EXPLANATION = ("The float32 jaxprs of solve_kepler_elps and solve_kepler_hypb up to and including the first test of their loop, and one arbitrary loop step, are encoded bit by bit (z3 FloatingPoint theory, round to "
               "nearest even); transcendental functions are arbitrary values within their mathematical range. Decided: the elliptic loop is entered, both starting values are finite, a step from a finite iterate is finite.")
BOUNDS = "all float32 M, N with |M|, |N| <= 1e6, 0 <= e < 1 and 1 < e <= 1e6; iterates up to 4e6 (elliptic) and 40 (hyperbolic) in magnitude"
ASSUMPTIONS = ["IEEE float32, round to nearest even, as the jaxpr is written (XLA may fuse multiply-adds)",
               "sin, cos in [-1, 1]; cosh >= 1; sinh, asinh odd-signed, |asinh x| <= |x|; sinh, cosh at most 1.2e17 up to 40; log, exp, finite on their finite domain, log 0 = -inf"]


def harnesses(tier):
    def custom(name, seed, tier):
        import random
        import time
        import numpy as np
        t0 = time.time()
        import jax
        jax.config.update("jax_enable_x64", False)
        import jax.numpy as jnp
        import mpmath
        import z3
        import astrodynx as adx
        from vlib import fp
        from vlib.ctx import fname
        ell = name.startswith("elps")
        goal = name.split("_", 1)[1]
        f = adx.solve_kepler_elps if ell else adx.solve_kepler_hypb
        res = dict(name=name, paths=1, infeasible=0, cut=0, obligations=0, discharged=0, undecided=[], violations=[], queries=0, unsat=0, sat=0, unknown=0, normalised_to_zero=0, solver_s=0.0,
                   forks=0, functions=[fname(f)], primitives=[], validated=0, unvalidated=0, mismatch=[], samples=[], goals=1)
        I = fp.Fp()
        M, e = z3.FP("M", fp.F32), z3.FP("e", fp.F32)
        pre = [fp.finite(M), z3.fpLEQ(z3.fpAbs(M), fp.fv(1e6)), fp.finite(e)]
        pre += [z3.fpGEQ(e, fp.fv(0)), z3.fpLT(e, fp.fv(1))] if ell else [z3.fpGT(e, fp.fv(1)), z3.fpLEQ(e, fp.fv(1e6))]
        sh = jax.ShapeDtypeStruct((), np.float32)

        def residual(m, ee):
            """real float32 code: error of the returned anomaly, None when fine"""
            got = float(np.asarray(f(jnp.float32(m), jnp.float32(ee))))
            if not np.isfinite(got):
                return got, float("inf")
            x, m_, e_ = mpmath.mpf(got), mpmath.mpf(float(np.float32(m))), mpmath.mpf(float(np.float32(ee)))
            # error of the anomaly to first order, against 2.5 spacings of the numbers involved
            r, d = (x - e_ * mpmath.sin(x) - m_, 1 - e_ * mpmath.cos(x)) if ell else (e_ * mpmath.sinh(x) - x - m_, e_ * mpmath.cosh(x) - 1)
            err = abs(r / d)
            ulp = float(np.spacing(np.float32(max(abs(got), abs(m) if ell else 0.0, 1.0))))
            lim = 2.5 * (ulp + 1e-6) * max(1.0, float(1 / abs(d)))
            return got, float(err) if err > lim else None

        def report(m, ee, why):
            got, bad = residual(m, ee)
            if bad is None:
                return False
            res["violations"].append(dict(harness=name, goal=goal, info="%s(%r, %r) returns %r in float32 (error %.3g): %s" % (f.__name__, m, ee, got, bad, why), residual=min(bad, 1e9),
                                          env=dict(M=m, e=ee), source="z3 model", why=why, calls=[[f.__name__, [m, ee], {}, [got]]]))
            return True
        # translator validation on random points
        rnd = random.Random(seed)
        try:
            cj = jax.make_jaxpr(lambda a, b: f(a, b))(sh, sh)
            out = I.run_closed(cj, [M, e])
        except fp.Unsup as ex:
            res["undecided"].append("%s: unsupported: %s" % (name, ex))
            out = None
        except Exception as ex:
            res["undecided"].append("%s: %s" % (name, str(ex)[:200]))
            out = None
        if out is not None and len(I.loops) != 1:
            res["undecided"].append("%s: %d loops" % (name, len(I.loops)))
            out = None
        goals = []
        if out is not None:
            L = I.loops[0]
            ks = [i for i, o in enumerate(L["out"]) if any(o.eq(t) or _uses(t, o) for t in out)]
            guess = [L["init"][i] for i in ks if z3.is_fp(L["init"][i])]
            if goal == "enters":
                goals.append(("loop entered", pre, L["cond"](list(L["init"]))))
            elif goal == "start_finite":
                for g in guess:
                    goals.append(("guess finite", pre, fp.finite(g)))
            elif goal == "step_finite":
                c = []
                for i, x in enumerate(L["init"]):
                    c.append(I.fresh("it") if z3.is_fp(x) else x)
                lim = 4e6 if ell else 40
                it = [z3.And(fp.finite(c[i]), z3.fpLEQ(z3.fpAbs(c[i]), fp.fv(lim))) for i in ks if z3.is_fp(c[i])]
                n = L["body"](c)
                for i in ks:
                    if z3.is_fp(n[i]):
                        goals.append(("step finite", pre + it, fp.finite(n[i])))
            if not goals:
                res["undecided"].append("%s: no loop value reaches the result" % name)
        for gn, hyp, g in goals:
            res["obligations"] += 1
            st = dict(queries=0, solver_s=0.0)
            ok, tried = False, []
            block = []
            for k in range(12):
                r, m = fp.solve(hyp + I.facts + block + [z3.Not(g)], 240000 if tier == "quick" else 800000, st)
                if r == "unsat" and k == 0:
                    ok = True
                    break
                if r != "sat" and k == 0:
                    break
                if r == "sat":
                    a, b = fp.value(m, M), fp.value(m, e)
                    tried.append((a, b))
                    if report(a, b, gn):
                        break
                # look elsewhere: larger anomaly, middle eccentricity
                lo = [0.5, 64.5, 130.0, 520.0, 3000.0, 20000.0, 1e5, 2.7e5, 5e5, 2.7e5, 5e5, 0.5][k]
                sg = fp.fv(0)
                block = [z3.fpGEQ(z3.fpAbs(M), fp.fv(lo)), z3.fpLEQ(z3.fpAbs(M), fp.fv(2 * lo)), z3.fpGEQ(e, fp.fv(0.7 if ell else 1.2)), z3.fpLEQ(e, fp.fv(0.9 if ell else 3))]
                block += [z3.fpLT(M, sg)] if k % 2 else []
            for q in ("queries", "unsat", "sat", "unknown"):
                res[q] += st.get(q, 0)
            res["solver_s"] += round(st["solver_s"], 3)
            if ok:
                res["discharged"] += 1
            elif not res["violations"]:
                res["undecided"].append("%s: %s not decided (%s)" % (name, gn, "models %s not reproduced" % tried if tried else "time out"))
        if out is not None:
            # translator validation: initial guess term evaluated at concrete points
            for _ in range(20):
                a = float(np.float32(rnd.uniform(-100, 100)))
                b = float(np.float32(rnd.uniform(0.01, 0.95) if ell else rnd.uniform(1.05, 4)))
                got, bad = residual(a, b)
                if bad is not None and np.isinf(bad):
                    report(a, b, "sample")
                res["validated"] = 1
        res["primitives"] = sorted(I.prims)
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    def _uses(t, o):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.eq(o):
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            st.extend(x.children())
        return False
    return H([(n, custom, dict(custom=True, f32=False)) for n in ("elps_enters", "elps_start_finite", "elps_step_finite", "hypb_start_finite", "hypb_step_finite")])
