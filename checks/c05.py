"""C05 Kepler solvers: exit condition, Newton step, budget."""
from checks.common import REAL, H, spec_U, alpha_of, CLS

EXPLANATION = ("Symbolic execution of the three Newton loops. (a) budgets 0..K unrolled, symbolic tolerance and inputs: the result for budget k+1 is either one exact Newton step of the Kepler "
               "equation from the result for budget k, or equal to it with residual <= 2 tol; a budget of k takes at most k steps. (b) arbitrary last iteration of the loop (havoc of the "
               "carried values, exit condition taken, budget not reached): residual <= 2 tol, for any number of iterations. (c) default tolerance and budgets.")
BOUNDS = ("unrolled: budgets 0..2 (quick), 0..3 (thorough); exit: any iteration count, budget not exhausted, loop counter moving by one; 0 <= e < 1, e > 1, any alpha with h^2 > 0, all tol > 0, "
          "all mean anomalies / times")
ASSUMPTIONS = REAL + ["|sin a - sin b| <= |a - b| and 1 - e cos x > 0 are given to the solver for iterates of the elliptic solver",
                      "exit mode: an integer loop counter is assumed within max_iter-2 of its start (runs that hit the budget are covered only up to the unrolled bound)"]

BIG = 1000


def vlib_special(x):
    import vlib.expr as X
    return X.issp(x)


def two(tier):
    return 2 if tier == "quick" else 3


class Elps:
    def inputs(self, c):
        e, M = c.var("e", lo=0, rng=(0.05, 0.95)), c.var("M", rng=(-6, 6))
        c.assume(c.lt(e, 1))
        return (M, e)

    def f(self, c, x, M, e):
        return x - e * c.sin(x) - M

    def df(self, c, x, M, e):
        return 1 - e * c.cos(x)

    def solver(self):
        import astrodynx as adx
        return adx.solve_kepler_elps


class Hypb:
    def inputs(self, c):
        e, N = c.var("e", lo=1, rng=(1.05, 3)), c.var("N", rng=(-5, 5))
        c.assume(c.gt(e, 1))
        return (N, e)

    def f(self, c, x, N, e):
        return e * c.sinh(x) - x - N

    def df(self, c, x, N, e):
        return e * c.cosh(x) - 1

    def solver(self):
        import astrodynx as adx
        return adx.solve_kepler_hypb


class Uni:
    def __init__(self, cls):
        self.cls = cls

    def inputs(self, c):
        al, A = alpha_of(c, self.cls)
        self.A = A
        dt, r0, s0, mu = c.var("dt"), c.var("r0", pos=True), c.var("s0", rng=(-0.5, 0.5)), c.var("mu", pos=True)
        c.assume(c.gt(2 * r0 - al * r0 * r0 - s0 * s0, 0))
        return (dt, al, r0, s0, mu)

    def f(self, c, x, dt, al, r0, s0, mu):
        U = spec_U(c, self.cls, x, self.A)
        return r0 * U[1] + s0 * U[2] + U[3] - c.sqrt(mu) * dt

    def df(self, c, x, dt, al, r0, s0, mu):
        U = spec_U(c, self.cls, x, self.A)
        return r0 * U[0] + s0 * U[1] + U[2]

    def solver(self):
        import astrodynx as adx
        return adx.solve_kepler_uni


def harnesses(tier):
    K = two(tier)

    def residual(c, p, name, a, prevs, args, tol):
        """|f(a)| <= 2 tol, a the last iterate, prevs candidates for the iterate before"""
        fa = p.f(c, a, *args)
        if c.symbolic:
            up = any(c.implied(c.le(fa, k * tol), tmo=t) for t in (0, 700) for k in (0, 1, 2))
            if up and any(c.implied(c.le(-fa, k * tol), tmo=t) for t in (0, 700) for k in (0, 1, 2)):
                return c.proved(name)
            if isinstance(p, Elps):
                e = args[1]
                for q in prevs:
                    # the last step was a Newton step of length <= tol
                    d, s, cq = a - q, c.sin(a) - c.sin(q), c.cos(q)
                    if not c.zero(fa - e * (d * cq - s)):
                        continue
                    sg = 1 if c.implied(c.ge(d, 0), tmo=0) else -1
                    prem = lambda d, s, cq, e, t: [c.le(sg * d, t), c.le(0, sg * d), c.ge(e, 0), c.lt(e, 1), c.le(cq, 1), c.le(-cq, 1), c.gt(t, 0), c.le(s * s, d * d)]
                    goal = lambda sg: (lambda d, s, cq, e, t: c.le(sg * e * (d * cq - s), 2 * t))
                    if all(c.via([d, s, cq, e, tol], prem, goal(g), given=(4, 5, 7)) for g in (1, -1)):
                        return c.proved(name)
        c.check_le(name, c.abs(fa), 2 * tol, tol=1e-6, scale=None if c.symbolic else float(tol))

    def unroll(p, k):
        def h(c):
            args = p.inputs(c)
            tol = c.var("tol", pos=True, rng=(1e-3, 0.5))
            solve = p.solver()
            xs = []
            for j in range(k + 2):
                xs.append(c.call(solve, *args, tol=tol, max_iter=j))
                if isinstance(p, Elps) and c.symbolic and not vlib_special(xs[-1]):
                    c.axiom(c.gt(1 - args[1] * c.cos(xs[-1]), 0))   # e < 1, |cos| <= 1
            a, b = xs[k], xs[k + 1]
            same = c.zero(a - b) if c.symbolic else abs(a - b) < 1e-12 * max(1, abs(a))
            if same:
                residual(c, p, "stops_at_solution_k%d" % k, a, xs[:k], args, tol)
            else:
                c.eq("newton_step_k%d" % k, b, a - p.f(c, a, *args) / p.df(c, a, *args))
        return h

    def exit_(p):
        def h(c):
            args = p.inputs(c)
            tol = c.var("tol", pos=True, rng=(1e-5, 0.5))
            n0 = len(c.events)
            x = c.call(p.solver(), *args, tol=tol, max_iter=BIG, _loop="exit", _count_bound=BIG - 2)
            prevs = []
            if c.symbolic:
                import vlib.expr as X
                for ev in c.events[n0:]:
                    prevs += [v[()] for v in ev.get("prev", []) if v.shape == () and isinstance(v[()], X.Expr) and not X.issp(v[()]) and v[()].op != "c"]
            residual(c, p, "residual", x, prevs, args, tol)
        return h

    def budget(p, k):
        """at most k iterations for a budget of k"""
        def h(c):
            args = p.inputs(c)
            tol = c.var("tol", pos=True, rng=(1e-9, 1e-3))
            c.call(p.solver(), *args, tol=tol, max_iter=k, _max_loop=k)
            c.static("budget", True)
        return h

    def defaults(p, kw):
        def h(c):
            args = p.inputs(c)
            s = p.solver()
            c.same_trace("defaults", lambda *a: s(*a), lambda *a: s(*a, **kw), args)
        return h

    def defmu(c):
        import astrodynx as adx
        s = adx.solve_kepler_uni
        args = Uni("pos").inputs(c)
        c.same_trace("default_mu", lambda d, al, r, s0: s(d, al, r, s0), lambda d, al, r, s0: s(d, al, r, s0, 1), args[:4])

    hs = []
    probs = [("elps", Elps(), dict(tol=1e-6, max_iter=20)), ("hypb", Hypb(), dict(tol=1e-6, max_iter=50))]
    probs += [("uni_" + k, Uni(k), dict(tol=1e-6, max_iter=50)) for k in CLS]
    for n, p, kw in probs:
        for k in range(K):
            hs.append(("%s_step%d" % (n, k), unroll(p, k), dict(budget=300)))
            hs.append(("%s_budget%d" % (n, k), budget(p, k)))
        hs.append((n + "_exit", exit_(p), dict(budget=300)))
        hs.append((n + "_defaults", defaults(p, kw)))
    hs.append(("uni_default_mu", defmu))
    return H(hs)
