"""C07 analytic propagation lands at the requested time."""
from fractions import Fraction as F

from checks.common import REAL, H, CLS, any_time, kstate, radius_axioms, floats, spec_U

EXPLANATION = ("Symbolic execution of prop.kepler. (a) arbitrary last iteration of its Newton loop, budget not reached: the returned state is the Lagrange state of the carried anomaly, and that anomaly "
               "satisfies the universal Kepler equation of the initial state and requested time to 1e-6 (in sqrt(mu) dt). (b) arbitrary anomaly: dr/dchi and dv/dchi times sqrt(mu)/r are v and "
               "-mu r/|r|^3. (c) two requested times: each lane independently, in order.")
BOUNDS = ("all initial states with nonzero angular momentum, mu > 0, all conics; any number of iterations below the budget; one requested time in an arbitrary frame (b) and planar frame (a), "
          "two requested times (c, for one elliptic, one parabolic and one hyperbolic initial state)")
ASSUMPTIONS = REAL + ["the orbit radius r0 U0 + sigma0 U1 + U2 is positive for nonzero angular momentum (decided in C04, harnesses radius_positive_*)",
                      "the loop counter stays below max_iter - 1 (converged runs)"]


def reference(c, cls, t, r, v, mu, rho, al, A, s0):
    """numeric: the exact state at t, or reject when Newton from the documented start does not converge quickly"""
    m = c.sqrt(mu)
    chi = m * abs(al) * t
    for k in range(25):
        U = spec_U(c, cls, chi, A)
        f = rho * U[1] + s0 * U[2] + U[3] - m * t
        d = f / (rho * U[0] + s0 * U[1] + U[2])
        chi = chi - d
        if abs(chi) > 40:
            c.assume(False)
        if abs(d) < 1e-25:
            break
    else:
        c.assume(False)
    return lagrange(c, chi, cls, r, v, mu, rho, A, s0)


def size(v):
    return max(abs(x) for x in v) + 1e-2


def lagrange(c, chi, cls, r, v, mu, rho, A, s0):
    U = spec_U(c, cls, chi, A)
    m = c.sqrt(mu)
    rs = rho * U[0] + s0 * U[1] + U[2]
    Ff, G = 1 - U[2] / rho, (rho * U[1] + s0 * U[2]) / m
    Ft, Gt = -m * U[1] / (rs * rho), 1 - U[2] / rs
    return [Ff * r[i] + G * v[i] for i in range(3)], [Ft * r[i] + Gt * v[i] for i in range(3)], rs, U


def fixed(c, cls):
    """one initial state per conic (two-lane harness)"""
    if cls == "pos":
        r, v, mu, rho, al, s0 = (1, 0, 0), (F(3, 5), F(4, 5), 0), 1, 1, 1, F(3, 5)
    elif cls == "neg":
        r, v, mu, rho, al, s0 = (1, 0, 0), (1, 1, 1), 1, 1, -1, 1
    else:
        r, v, mu, rho, al, s0 = (2, 0, 0), (6, 8, 0), 100, 2, 0, F(6, 5)
    n = c.num
    return c.arr(*r), c.arr(*v), n(mu), n(rho), n(al), n(1), n(s0)


def harnesses(tier):
    def lands(cls, n):
        def h(c):
            import astrodynx as adx
            st = kstate(c, cls, planar=True) if n == 1 else fixed(c, cls)
            r, v, mu, rho, al, A, s0 = st
            ts = [c.var("t%d" % i, rng=(-1.5, 1.5)) for i in range(n)] if n > 1 else [any_time(c, cls, mu, rho, A, s0, "t0")]
            ax = radius_axioms(c, cls, rho, A, s0)
            if cls == "zero":
                c.hint(c.sqrt(mu))
            r1, v1 = c.call(adx.prop.kepler, c.arr(*ts), r, v, mu, _loop="exit", _count_bound=40, _on_loop=ax)
            c.static("shape", r1.shape == (n, 3) and v1.shape == (n, 3), "shape %s" % (r1.shape,))
            for i, t in enumerate(ts):
                if not c.symbolic:
                    rr, vv, _, _ = reference(c, cls, t, *st)
                    for k in range(3):
                        # 1e-6/sqrt(mu) of time times speed and acceleration, with slack for rounding
                        c.eq("state[%d]" % i, r1[i][k], rr[k], tol=3e-4, scale=size(rr))
                        c.eq("state[%d]" % i, v1[i][k], vv[k], tol=3e-4, scale=size(vv))
                    continue
                cand = [c.num(0)] + [x for ev in c.events for x in floats(c, ev["carry"])]
                found = None
                for x in cand:
                    R1, V1, rs, U = lagrange(c, x, cls, r, v, mu, rho, A, s0)
                    if all(c.zero(R1[k] - r1[i][k]) for k in range(3)) and all(c.zero(V1[k] - v1[i][k]) for k in range(3)):
                        f = rho * U[1] + s0 * U[2] + U[3] - c.sqrt(mu) * t
                        tol = c.num(1) / 1000000
                        if found is None:
                            found = f
                        if all(any(c.implied(c.le(sg * f, b), tmo=tm) for tm in (0, 1500) for b in (c.num(0), tol)) for sg in (1, -1)):
                            found = True
                            break
                if found is True:
                    c.proved("state[%d]" % i)
                else:
                    c.fail("state[%d]" % i, "the returned state is not a Lagrange state of a converged anomaly" if found is None else "time residual not bounded by 1e-6")
        return h

    def motion(cls):
        def h(c):
            import astrodynx as adx
            st = kstate(c, cls)
            r, v, mu, rho, al, A, s0 = st
            t = any_time(c, cls, mu, rho, A, s0)
            r1, v1 = c.call(adx.prop.kepler, c.arr(t), r, v, mu, _loop="havoc", _on_loop=radius_axioms(c, cls, rho, A, s0))
            if not c.symbolic:
                rr, vv, _, _ = reference(c, cls, t, *st)
                for k in range(3):
                    c.eq("drdt", r1[0][k], rr[k], tol=3e-4, scale=size(rr))
                    c.eq("dvdt", v1[0][k], vv[k], tol=3e-4, scale=size(vv))
                return
            import vlib.expr as X
            xs = [x for ev in c.events for x in floats(c, ev["carry"])]
            xs = [x for x in xs if any(not c.zero(X.diff(r1[0][k], x)) for k in range(3))]
            if len(xs) != 1:
                return c.fail("drdt", "the state depends on %d loop values" % len(xs))
            x = xs[0]
            U = spec_U(c, cls, x, A)
            rs = rho * U[0] + s0 * U[1] + U[2]
            m = c.sqrt(mu)
            for k in range(3):
                c.eq("drdt", X.diff(r1[0][k], x) * m / rs, v1[0][k])
                c.eq("dvdt", X.diff(v1[0][k], x) * m / rs, -mu * r1[0][k] / (rs * rs * rs))
        return h

    def defmu(c):
        import astrodynx as adx
        r, v = c.vec("r"), c.vec("v")
        t = c.var("t", rng=(-0.5, 0.5))
        c.same_trace("default_mu", lambda t, r, v: adx.prop.kepler(t, r, v)[0][0, 0], lambda t, r, v: adx.prop.kepler(t, r, v, 1.0)[0][0, 0], (c.arr(t), r, v))

    hs = [("default_mu", defmu)]
    for k in CLS:
        hs += [("lands_" + k, lands(k, 1), dict(budget=420 if tier == "quick" else 2000, fork_tmo=150)), ("lands2_" + k, lands(k, 2), dict(budget=420 if tier == "quick" else 2000, fork_tmo=150)), ("motion_" + k, motion(k))]
    return H(hs)
