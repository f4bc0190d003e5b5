"""C28 accuracy of the universal functions."""
from checks.common import H

EXPLANATION = ("ufunc0..5 are traced to a term DAG; every operation gets a relative rounding error of its own, and the first-order error of the result is the sum over all operations of |value * derivative of the result|. "
               "z3 (nonlinear real arithmetic, sin, cos, sinh, cosh enclosed by Taylor polynomials) decides that this bound stays below the tolerance times the true function for every anomaly in the range. "
               "A model is confirmed on the real code against 60-digit arithmetic.")
BOUNDS = ("alpha = +-1, +-2^-24, +-2^20 in double and +-1, +-2^-10 in single precision; x = sqrt|alpha| chi > 0. 'regular': 1/32 <= x <= 3 with relative error 1e-13 (U0, U1), 1e-10 (U2, U3), 1e-6 (U4, U5) in double, "
          "1/3 <= x <= 3 with 1e-4, 1e-3, 2e-2 in single precision; 'near': x below that, down to 1e-7 and 1e-3, with 1e-6 and 2e-2; errors of U0, U1 near their zeros are measured against 1/2 and chi/2")
ASSUMPTIONS = ["every operation is correctly rounded, sin, cos, sinh, cosh, exp, sqrt and powers within 2 units in the last place", "first order in the rounding errors", "alpha and chi themselves are exact"]
ORD = 9
TOL = {"f64": (1e-13, 1e-10, 1e-6), "f32": (1e-4, 1e-3, 2e-2)}      # U0 and U1, U2 and U3, U4 and U5


def harnesses(tier):
    def custom(name, seed, tier):
        import random
        import time
        import numpy as np
        import jax
        import mpmath
        import z3
        from fractions import Fraction as F
        from math import factorial
        import astrodynx as adx
        from vlib import euf
        import vlib.expr as X
        from vlib.expr import Expr
        from vlib.ctx import fname
        t0 = time.time()
        fnm, region, cls, prec = name.split("_")
        n = int(fnm[-1])
        f = getattr(adx.twobody, fnm)
        double = prec == "f64"
        u = F(1, 2 ** 53) if double else F(1, 2 ** 24)
        tol = (F(1, 10 ** 6) if double else F(1, 50)) if region == "near" else TOL[prec][n // 2]
        split = F(1, 32) if double else F(1, 3)
        res = dict(name=name, paths=1, infeasible=0, cut=0, obligations=0, discharged=0, undecided=[], violations=[], queries=0, unsat=0, sat=0, unknown=0, normalised_to_zero=0, solver_s=0.0,
                   forks=0, functions=[fname(f)], primitives=[], validated=0, unvalidated=0, mismatch=[], samples=[], goals=1)
        E = euf.Euf()
        va, vc = X.var("alpha"), X.var("chi")
        try:
            sd = jax.ShapeDtypeStruct((), np.float64 if double else np.float32)
            with jax.enable_x64(double):
                cj = jax.make_jaxpr(f)(sd, sd)
            wrap = lambda e: np.array(e, dtype=object).reshape(())
            out = E.run(cj.jaxpr, [E.lift(c) for c in cj.consts], [wrap(vc), wrap(va)])[0].reshape(-1)[0]
        except Exception as ex:
            res["undecided"].append("%s: not encoded: %s" % (name, str(ex)[:160]))
            return res
        res["primitives"] = sorted(E.prims)
        sg = 1 if cls == "pos" else -1
        x = z3.Real("x")
        q = lambda v: z3.RealVal(str(F(v)))
        fn = {}

        def pw(b, k):
            r = b
            for _ in range(k - 1):
                r = r * b
            return r
        facts = []

        def trans(o, arg):
            """sin, cos, sinh, cosh of a multiple k x of x"""
            k = arg
            key = (o, k)
            if key in fn:
                return fn[key]
            s = z3.Real("%s_%d" % (o, len(fn)))
            fn[key] = s
            y = q(abs(k)) * x
            st = 1 if o in ("sin", "sinh") else 0
            neg = -1 if o in ("sin", "cos") else 1
            for m in (2, 3, ORD - 1, ORD):
                p = q(0)
                for j in range(m):
                    p = p + q(F(neg ** j, factorial(2 * j + st))) * (pw(y, 2 * j + st) if 2 * j + st else q(1))
                w = -s if k < 0 and st else s
                if neg < 0:
                    facts.append(w <= p if m % 2 else w >= p)
                else:
                    facts.append(w >= p)
                    if m >= ORD - 1:
                        d = 2 * m + st
                        # remainder below cosh(y) y^d / d!, cosh(3 |k|) < 4^(3|k|)
                        facts.append(w <= p + q(F(4 ** int(3 * abs(k) + 1), factorial(d))) * pw(y, d))
            if neg < 0:
                facts.extend([s <= 1, s >= -1])
            return s

        class Stop(Exception):
            pass

        def linear(t):
            """coefficient k when the term is k x"""
            k = z3.simplify(z3.substitute(t, (x, q(1))))
            d = z3.simplify(t - k * x, som=True)
            if z3.is_rational_value(k) and z3.is_rational_value(d) and d.as_fraction() == 0:
                return F(k.as_fraction())
            raise Stop("argument of a transcendental function is not a multiple of sqrt(alpha) chi")

        def encode(a):
            """value and total first-order error of the result, as z3 terms over x"""
            val, order = {}, X.topo([out])
            con = {}
            for e in order:
                ar = [val.get(y.id) if isinstance(y, Expr) else y for y in e.a]
                o = e.op
                if o == "c":
                    v = q(e.a[0])
                elif o == "v":
                    v = q(sg * a * a) if e.a[0] == "alpha" else q(1 / F(a)) * x
                elif o in ("bT", "bF"):
                    v = z3.BoolVal(o == "bT")
                elif o == "bnot":
                    v = z3.Not(ar[0])
                elif o == "band":
                    v = z3.And(*ar)
                elif o in ("bgt", "bge", "beq"):
                    v = ar[0] > ar[1] if o == "bgt" else ar[0] >= ar[1] if o == "bge" else ar[0] == ar[1]
                elif o == "ite":
                    c = z3.simplify(ar[0])
                    v = ar[1] if z3.is_true(c) else ar[2] if z3.is_false(c) else None if ar[1] is None or ar[2] is None else z3.If(c, ar[1], ar[2])
                    con[e.id] = c
                elif any(y is None for y in ar):
                    v = None
                elif o == "add":
                    v = ar[0] + ar[1]
                elif o == "neg":
                    v = -ar[0]
                elif o == "round32":
                    v = ar[0]
                elif o == "mul":
                    v = ar[0] * ar[-1]
                elif o == "div":
                    d = z3.simplify(ar[1])
                    v = None if z3.is_rational_value(d) and d.as_fraction() == 0 else ar[0] / ar[1]
                elif o == "ipow":
                    v = pw(ar[0], e.a[1]) if e.a[1] > 0 else 1 / pw(ar[0], -e.a[1])
                elif o == "abs":
                    v = z3.If(ar[0] >= 0, ar[0], -ar[0])
                elif o in ("sqrt", "rsqrt"):
                    w = z3.simplify(ar[0], som=True)
                    v = None
                    if z3.is_rational_value(w):
                        w = F(w.as_fraction())
                        if w > 0:
                            r = F(int(round(float(w.numerator) ** 0.5)), int(round(float(w.denominator) ** 0.5)))
                            if r * r == w:
                                v = q(r if o == "sqrt" else 1 / r)
                    else:
                        raise Stop("square root of the anomaly")
                elif o in ("sin", "cos", "sinh", "cosh"):
                    v = trans(o, linear(ar[0]))
                else:
                    raise Stop("operation " + o)
                val[e.id] = v
            if val[out.id] is None:
                raise Stop("no value")
            adj = {out.id: q(1)}
            err = []
            for e in reversed(order):
                g = adj.get(e.id)
                if g is None or e.op in ("c", "v") or euf.isb(e) or val[e.id] is None:
                    continue
                o, ch = e.op, e.a

                def push(y, t):
                    adj[y.id] = t if y.id not in adj else adj[y.id] + t
                v = [val.get(y.id) if isinstance(y, Expr) else y for y in ch]
                if o == "ite":
                    c = con[e.id]
                    if z3.is_true(c):
                        push(ch[1], g)
                    elif z3.is_false(c):
                        push(ch[2], g)
                    else:
                        push(ch[1], z3.If(c, g, q(0)))
                        push(ch[2], z3.If(c, q(0), g))
                    continue
                if o == "neg":
                    push(ch[0], -g)
                    continue
                w = 1
                if o == "add":
                    push(ch[0], g)
                    push(ch[1], g)
                elif o == "mul":
                    push(ch[0], g * v[1])
                    push(ch[1], g * v[0])
                elif o == "div":
                    push(ch[0], g / v[1])
                    push(ch[1], -g * val[e.id] / v[1])
                elif o == "round32":
                    push(ch[0], g)
                    w = F(1, 2 ** 24) / u
                elif o == "ipow":
                    k = ch[1]
                    push(ch[0], g * k * (val[e.id] / v[0] if k < 1 else pw(v[0], k - 1) if k > 1 else q(1)))
                    w = 2
                elif o == "abs":
                    push(ch[0], z3.If(v[0] >= 0, g, -g))
                    continue
                elif o == "sqrt":
                    push(ch[0], g / (2 * val[e.id]))
                elif o == "rsqrt":
                    push(ch[0], -g * val[e.id] / (2 * v[0]))
                    w = 2
                else:
                    k = linear(v[0])
                    d = {"sin": lambda: trans("cos", k), "cos": lambda: -trans("sin", k), "sinh": lambda: trans("cosh", k), "cosh": lambda: trans("sinh", k)}[o]()
                    push(ch[0], g * d)
                    w = 4
                err.append(q(w) * g * val[e.id])
            return val[out.id], err

        def truth(al, ch):
            with mpmath.workdps(60):
                al, ch = mpmath.mpf(al), mpmath.mpf(ch)
                return sum((-al) ** k * ch ** (n + 2 * k) / mpmath.factorial(n + 2 * k) for k in range(45))

        def replay(a, xv):
            """largest error of the real code at anomalies near the model's, relative to the true size"""
            ty = np.float64 if double else np.float32
            rnd = random.Random(seed)
            for k in range(40):
                al = float(ty(sg * float(a) ** 2))
                ch = float(ty(xv * (1 + (0 if not k else 0.2 * rnd.uniform(-1, 1))) / float(a)))
                xx = abs(al) ** 0.5 * ch
                if not (0 < xx <= 3.0001) or (xx < float(split)) != (region == "near"):
                    continue
                with jax.enable_x64(double):
                    got = float(np.asarray(f(ty(ch), ty(al))))
                tr = truth(al, ch)
                ref = max(abs(tr), abs(mpmath.mpf(ch) ** n) / mpmath.factorial(n) / 2 if n < 2 else 0)
                d = float(abs(got - tr) / ref) if np.isfinite(got) else 1e9
                if not d <= float(tol):
                    return al, ch, got, float(tr), d
            return None
        lo, hi = (split, F(3)) if region == "regular" else (F(0), split)
        scales = [F(1), F(1, 4096), F(1024)] if double else [F(1), F(1, 32)]
        # the range of x in pieces
        cuts = [lo, F(1, 10), F(1, 3), F(1), F(2), F(5, 2), hi] if region == "regular" else [lo, hi]
        cuts = sorted(set(c for c in cuts if lo <= c <= hi))
        for a in scales:
            try:
                v, err = encode(a)
            except Stop as ex:
                res["undecided"].append("%s: %s" % (name, ex))
                continue
            # lower bound of the true function: partial sum of its alternating series (ends with a negative term), first term of the positive one
            true = q(0)
            for k in range(10 if sg > 0 else 3):
                d = n + 2 * k
                true = true + q(F((-sg) ** k, factorial(d)) / F(a) ** n) * (pw(x, d) if d else q(1))
            if n < 2:
                true = q(F(1, 2) / F(a) ** n) * (x if n else q(1))
            tv = [z3.Real("t%d" % i) for i in range(len(err))]
            for b, c in zip(cuts, cuts[1:]):
                res["obligations"] += 1
                sv = z3.Solver()
                sv.set("timeout", 20000 if tier == "quick" else 120000)
                sv.add(x > q(b) if b == 0 else x >= q(b), x <= q(c), *facts)
                tot = []
                for e, t in zip(err, tv):
                    e = z3.simplify(e, som=True)
                    tot.append(z3.If(e >= 0, e, -e))
                sv.add(q(u) * z3.Sum(tot) > q(tol) * true)
                if region == "near":
                    sv.add(x >= q(F(1, 10 ** 7) if double else F(1, 10 ** 3)))
                s = time.time()
                r = str(sv.check())
                res["queries"] += 1
                res["solver_s"] += time.time() - s
                res[r] += 1
                if r == "unsat":
                    res["discharged"] += 1
                    continue
                hit = None
                if r == "sat":
                    xm = sv.model().eval(x, model_completion=True)
                    xm = float(F(xm.as_fraction())) if z3.is_rational_value(xm) else float(F(xm.approx(20).as_fraction()))
                    hit = replay(a, xm) or (replay(a, float(b) * 1.01) if b else replay(a, 1e-7 if double else 1e-3))
                if hit:
                    al, ch, got, tr, d = hit
                    res["violations"].append(dict(harness=name, goal="accuracy", info="%s(%r, %r) returns %r, true value %r (relative error %.2g)" % (fnm, ch, al, got, tr, d), residual=min(d, 1e9), env=dict(x=xm),
                                                  source="z3 model", why="rounding errors are amplified", calls=[[fnm, [ch, al], {}, [got]]]))
                    break
                res["undecided"].append("%s: rounding error for %s <= x <= %s not decided (%s)" % (name, b, c, r))
            if res["violations"]:
                break
        res["validated"] = 1
        res["solver_s"] = round(res["solver_s"], 3)
        res["wall_s"] = round(time.time() - t0, 2)
        return res
    return H([("ufunc%d_%s_%s_%s" % (n, r, c, p), custom, dict(custom=True, f32=False)) for p in ("f64", "f32") for r in ("regular", "near") for c in ("pos", "neg") for n in range(6)])
