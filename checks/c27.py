"""C27 no overflow or underflow in single precision."""
from checks.common import H
from checks import registry as G

EXPLANATION = ("Every public closed-form function is traced to a term DAG; the base-2 logarithm of the magnitude of every intermediate value is bounded by piecewise linear terms over the logarithms of the inputs. z3 "
               "(linear real arithmetic) decides that in a box of realistic magnitudes no value exceeds the largest float32 number and no certainly nonzero value falls below the smallest normal one.")
BOUNDS = ("lengths L with 2^-4 <= L <= 2^30, speeds V with L^(1/3)/2^5 <= V <= 2^16, each argument within a factor of 2 of its unit in L and V (energies 2^-3 to 2^2), equatorial radius r/64 to 2r, zonal coefficients "
          "2^-20 to 1, elliptic, hyperbolic eccentricities up to 5; values whose size is not determined by the size of the inputs (differences in a denominator) are not bounded; dxdx0, the solvers and prop.kepler are outside")
ASSUMPTIONS = ["overflow and underflow threshold of IEEE float32; roundings may change a magnitude by less than a factor of 2 in total", "bounds of sin, cos, atan2, acos, sinh, cosh, exp and log"]
LOGMAX, LOGMIN = 127, -126
SPLIT = ("j2_acc", "j3_acc", "j4_acc")    # decided separately for lengths up to 2^15 (kilometres, canonical units) and above (metres)


def harnesses(tier):
    def custom(name, seed, tier):
        import random
        import time
        import warnings
        import numpy as np
        import jax
        import z3
        import astrodynx as adx
        from vlib import euf, mag
        import vlib.expr as X
        from vlib.ctx import fname
        t0 = time.time()
        big = name.endswith("_metres")
        fn = {f.name: f for f in G.table()}[name.replace("_metres", "")]
        split = fn.name in SPLIT
        f = fn.get(adx)
        res = dict(name=name, paths=1, infeasible=0, cut=0, obligations=0, discharged=0, undecided=[], violations=[], queries=0, unsat=0, sat=0, unknown=0, normalised_to_zero=0, solver_s=0.0,
                   forks=0, functions=[fname(f)], primitives=[], validated=0, unvalidated=0, mismatch=[], samples=[], goals=1)
        L, V = z3.Real("L"), z3.Real("V")
        box = [L >= (15 if big else -4), L <= (15 if split and not big else 30), V >= L / 3 - 5, V <= 16]
        M = mag.Mag()
        E = euf.Euf()
        ins, shapes, spec = [], [], []

        def unit(d):
            a, b = d
            return z3.RealVal(str(a)) * L + b * (L - V)
        for nm, kind, d in fn.ins:
            base = unit(d) if d is not None else None
            lg = z3.Real("log_" + nm)
            if kind in ("v", "x"):
                n = 3 if kind == "v" else 6
                names = ["%s%d" % (nm, i) for i in range(n)]
                a = np.empty(n, dtype=object)
                for i in range(n):
                    a[i] = X.var(names[i])
                if kind == "v":
                    box += [lg >= base - 1, lg <= base + 1]
                    M.vector(names, lg)
                else:
                    lv = z3.Real("log_vel")
                    box += [lg >= L - 1, lg <= L + 1, lv >= V - 1, lv <= V + 1]
                    M.vector(names[:3], lg)
                    M.vector(names[3:], lv)
                spec.append((nm, kind, n))
                shapes.append((n,))
            else:
                a = np.empty((), dtype=object)
                a[()] = X.var(nm)
                lo, sign = None, None
                if kind in ("p", "neg"):
                    lo, sign = lg, 1 if kind == "p" else -1
                    w = (-5, 0) if nm == "Req" else (-1, 1)
                    box += [lg >= base + w[0], lg <= base + w[1]]
                elif kind == "al":
                    lo = lg
                    box += [lg >= base - 3, lg <= base + 2]
                elif kind == "a":
                    box += [lg >= -30, lg <= 4]
                elif kind == "n":
                    sign = 1
                    box += [lg >= base - 30, lg <= base + 2]
                elif kind == "ell":
                    sign = 1
                    box += [lg >= -30, lg <= -z3.RealVal("1/100")]
                elif kind == "hyp":
                    lo, sign = lg, 1
                    box += [lg >= z3.RealVal("1/100"), lg <= 2]
                elif nm == "J":
                    lo = lg
                    box += [lg >= -20, lg <= 0]
                else:
                    box += [lg >= base - 1, lg <= base + 1]
                M.scalar(nm, lo, lg, sign)
                spec.append((nm, kind, 0))
                shapes.append(())
            ins.append(a)
        try:
            sds = [jax.ShapeDtypeStruct(s, np.float32) for s in shapes]
            with jax.enable_x64(False):
                cj = jax.make_jaxpr(f)(*sds)
            out = E.run(cj.jaxpr, [E.lift(c) for c in cj.consts], ins)
            R = M.run([e for o in out for e in np.asarray(o, dtype=object).reshape(-1)])
        except Exception as ex:
            res["undecided"].append("%s: not encoded: %s" % (name, str(ex)[:160]))
            res["wall_s"] = round(time.time() - t0, 2)
            return res
        res["primitives"] = sorted(E.prims)
        nodes = []
        for e, lo, hi in R.values():
            if e.op in ("c", "v", "sp", "pi"):
                continue
            c = []
            if hi is not None:
                c.append(hi > LOGMAX)
            if lo is not None:
                c.append(lo < LOGMIN)
            if c:
                nodes.append((e, z3.Or(*c)))
        rnd = random.Random(seed)

        def replay(m, bad):
            """the real code in single precision against double precision at the sizes of the model"""
            val = lambda n: 2.0 ** _real(m.eval(z3.Real(n), model_completion=True))
            for k in range(12):
                args, env = [], {}
                for nm, kind, n in spec:
                    if n:
                        x = []
                        for part, ln in ((3, "log_" + nm),) if n == 3 else ((3, "log_" + nm), (3, "log_vel")):
                            u = np.array([rnd.gauss(0, 1) for _ in range(3)])
                            if k == 0:
                                u = np.array([0.5, 0.4, 0.75])
                            x += list(u / np.linalg.norm(u) * val(ln))
                        a = np.array(x)
                        for i in range(n):
                            env["%s%d" % (nm, i)] = float(np.float32(a[i]))
                    else:
                        a = np.array(val("log_" + nm) * (-1 if kind == "neg" or kind in ("s", "a", "al") and rnd.random() < 0.5 else 1))
                        env[nm] = float(np.float32(a))
                    args.append(a.astype(np.float32))
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    x = euf.evaluate([bad], env)[0]
                    if np.isfinite(x) and (x == 0 or 2.0 ** LOGMIN <= abs(x) <= 2.0 ** LOGMAX * 1.99):
                        continue
                    with jax.enable_x64(False):
                        lo = [np.asarray(o) for o in G.outs(fn, f(*args))]
                    hi = [np.asarray(o) for o in G.outs(fn, f(*[a.astype(np.float64) for a in args]))]
                for p, q in zip(lo, hi):
                    if p.dtype == bool:
                        if (p != q).any():
                            return args, p, q, 1.0
                        continue
                    if p.dtype != np.float32 or q.dtype != np.float64 or not np.isfinite(q).all():
                        continue
                    n = float(np.abs(q).max())
                    if not 1e-34 < n < 1e37:
                        continue
                    d = float(np.abs(p.astype(float) - q).max()) / n
                    if not d <= 0.02:
                        return args, p, q, d if np.isfinite(d) else 1e9
            return None

        def query(c, n):
            sv = z3.Solver()
            sv.set("timeout", 20000)
            sv.set("random_seed", n)
            sv.add(*box)
            sv.add(c)
            t = time.time()
            r = str(sv.check())
            res["queries"] += 1
            res["solver_s"] += time.time() - t
            res[r] += 1
            return r, sv.model() if r == "sat" else None
        for e, bad in nodes:
            res["obligations"] += 1
            r, m = query(bad, 0)
            if r == "unsat":
                res["discharged"] += 1
                continue
            hit = None
            extra = []
            for k in range(4 if m is not None else 0):
                hit = replay(m, e)
                if hit:
                    break
                Lv = m.eval(L, model_completion=True)
                extra.append(z3.Or(L > Lv + 1, L < Lv - 1))
                r, m = query(z3.And(bad, *extra), k + 1)
                if m is None:
                    break
            if hit:
                args, p, q, d = hit
                res["violations"].append(dict(harness=name, goal="range", info="%s(%s) in single precision returns %s, in double precision %s" % (
                    fn.name, ", ".join(str(a.tolist()) for a in args), p.tolist(), q.tolist()), residual=min(d, 1e9), env={}, source="z3 model", why="an intermediate value leaves the single precision range",
                    calls=[[fn.name, [a.tolist() for a in args], {}, [p.tolist()]]]))
                break
            res["undecided"].append("%s: size of an intermediate %s not decided" % (name, e.op))
        res["validated"] = 1
        res["solver_s"] = round(res["solver_s"], 3)
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    def _real(v):
        try:
            return float(v.as_fraction())
        except AttributeError:
            return 0.0
    names = [fn.name for fn in G.table()] + [n + "_metres" for n in SPLIT]
    return H([(n, custom, dict(custom=True, f32=False)) for n in names])
