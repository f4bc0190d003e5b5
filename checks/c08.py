"""C08 state transition matrix."""
from checks.common import REAL, H, CLS, kstate, radius_axioms, spec_U

EXPLANATION = ("Symbolic execution of dxdx0 and its four block functions at the end points of a two-body arc (initial state in the planar frame, arc parameter chi symbolic, elapsed time given by the "
               "universal Kepler equation). Oracle: the derivative of the universal-variable solution at fixed elapsed time by the implicit function theorem, using dU_n/dalpha = (n U_{n+2} - chi U_{n+1})/2 "
               "(decided in harness U_alpha). z3 decides all 36 entries on each conic; other frames follow from the rotation equivariance of dxdx0 decided in C21.")
BOUNDS = "all elliptic, parabolic, hyperbolic arcs (any chi, either sign of elapsed time) with nonzero angular momentum, mu > 0"
ASSUMPTIONS = REAL + ["the orbit radius r0 U0 + sigma0 U1 + U2 is positive (decided in C04)"]


def reference(c, cls, st, chi):
    """final state, elapsed time and 6x6 derivative matrix (rows r, v; columns r0, v0) in the planar frame"""
    r, v, mu, rho, al, A, s0 = st
    U = spec_U(c, cls, chi, A)
    m = c.sqrt(mu)
    rs = rho * U[0] + s0 * U[1] + U[2]
    dt = (rho * U[1] + s0 * U[2] + U[3]) / m
    F, G = 1 - U[2] / rho, (rho * U[1] + s0 * U[2]) / m
    Ft, Gt = -m * U[1] / (rs * rho), 1 - U[2] / rs
    r1 = [F * r[k] + G * v[k] for k in range(3)]
    v1 = [Ft * r[k] + Gt * v[k] for k in range(3)]
    Ua = [(n * U[n + 2] - chi * U[n + 1]) / 2 for n in range(4)]
    Ux = [-al * U[1], U[0], U[1], U[2]]
    cols = []
    for j in range(6):
        dr = [c.num(1 if k == j else 0) for k in range(3)]
        dv = [c.num(1 if k + 3 == j else 0) for k in range(3)]
        drho = c.dot(r, dr) / rho
        ds0 = (c.dot(r, dv) + c.dot(v, dr)) / m
        dal = -2 * drho / (rho * rho) - 2 * c.dot(v, dv) / mu
        # rho U1 + s0 U2 + U3 = m dt with dt fixed
        dchi = -(drho * U[1] + ds0 * U[2] + (rho * Ua[1] + s0 * Ua[2] + Ua[3]) * dal) / rs
        dU = [Ux[n] * dchi + Ua[n] * dal for n in range(4)]
        drs = drho * U[0] + rho * dU[0] + ds0 * U[1] + s0 * dU[1] + dU[2]
        dF = -dU[2] / rho + U[2] * drho / (rho * rho)
        dG = (drho * U[1] + rho * dU[1] + ds0 * U[2] + s0 * dU[2]) / m
        dFt = -m * (dU[1] / (rs * rho) - U[1] * drs / (rs * rs * rho) - U[1] * drho / (rs * rho * rho))
        dGt = -dU[2] / rs + U[2] * drs / (rs * rs)
        cols.append([dF * r[k] + F * dr[k] + dG * v[k] + G * dv[k] for k in range(3)] + [dFt * r[k] + Ft * dr[k] + dGt * v[k] + Gt * dv[k] for k in range(3)])
    return c.arr(*r1), c.arr(*v1), dt, cols, (F, G, Ft, Gt)


def harnesses(tier):
    def stm(cls, a, b):
        def h(c):
            import astrodynx as adx
            st = kstate(c, cls, planar=True)
            r, v, mu, rho, al, A, s0 = st
            chi = c.var("chi", rng=(-1.5, 1.5))
            c.moderate(6, chi)
            radius_axioms(c, cls, rho, A, s0)([chi])
            c.hint(c.sqrt(mu))
            r1, v1, dt, cols, _ = reference(c, cls, st, chi)
            M = c.call(adx.twobody.dxdx0, r1, v1, r, v, dt, mu)
            c.static("shape", M.shape == (6, 6), "shape %s" % (M.shape,))
            for j in range(3 * b, 3 * b + 3):
                for k in range(3 * a, 3 * a + 3):
                    c.eq("d%s%d/d%s%d" % ("rv"[a], k % 3, "rv"[b], j % 3), M[k, j], cols[j][k], tol=1e-5)
        return h

    def ualpha(cls):
        def h(c):
            import vlib.expr as X
            A, chi = c.var("A", pos=True), c.var("chi", rng=(-2, 2))
            U = spec_U(c, cls, chi, A)
            s = 1 if cls == "pos" else -1
            for n in range(4):
                c.eq("dU%d" % n, c.diff(lambda a: spec_U(c, cls, chi, a)[n], [A])[0], s * A * (n * U[n + 2] - chi * U[n + 1]), tol=1e-5)
        return h

    def ident(c):
        import astrodynx as adx
        r, v, mu = c.vec("r"), c.vec("v"), c.var("mu", pos=True)
        c.nonzero(c.dot(r, r))
        M = c.call(adx.twobody.dxdx0, r, v, r, v, c.num(0), mu)
        for k in range(6):
            for j in range(6):
                c.eq("I%d%d" % (k, j), M[k, j], c.num(1 if k == j else 0), tol=1e-9, scale=1)

    def blocks(cls):
        def h(c):
            import astrodynx as adx
            tb = adx.twobody
            r, v = c.vec("r"), c.vec("v")
            dt = c.var("dt", rng=(-1.5, 1.5))
            c.nonzero(c.dot(r, r))
            if cls == "zero":
                q, w, mu, qm, al, _, s0 = kstate(c, cls, planar=True)
            else:
                q, w, mu = c.vec("q"), c.vec("w"), c.var("mu", pos=True)
                c.nonzero(c.dot(q, q))
                qm = c.norm(q)
                al = 2 / qm - c.dot(w, w) / mu
                c.assume(c.gt(al, 0) if cls == "pos" else c.lt(al, 0))
                if not c.symbolic:
                    c.assume(abs(al) > 0.05)    # closer to parabolic double precision cancels
                s0 = c.dot(q, w) / c.sqrt(mu)
            M = c.call(tb.dxdx0, r, v, q, w, dt, mu)
            rm, m = c.norm(r), c.sqrt(mu)
            s1 = c.dot(r, v) / m
            chi = al * m * dt + s1 - s0
            c.moderate(6, chi)
            U = [c.call(getattr(tb, "ufunc%d" % n), chi, al) for n in range(6)]
            F, G = c.call(tb.lagrange_F, U[2], qm), c.call(tb.lagrange_G, U[1], U[2], s0, qm, mu)
            Ft, Gt = c.call(tb.lagrange_Ft, U[1], rm, qm, mu), c.call(tb.lagrange_Gt, U[2], rm)
            C = c.call(tb.C_func, chi, U[2], U[4], U[5], dt, mu)
            B = [[c.call(tb.prpr0, r, v, q, w, F, C, mu), c.call(tb.prpv0, r, v, q, w, F, G, C, mu)],
                 [c.call(tb.pvpr0, r, v, q, w, Ft, C, mu), c.call(tb.pvpv0, r, v, q, w, F, Gt, C, mu)]]
            for k in range(6):
                for j in range(6):
                    c.eq("block%d%d" % (k // 3, j // 3), M[k, j], B[k // 3][j // 3][k % 3, j % 3], tol=1e-6)
        return h

    def default(c):
        import astrodynx as adx
        tb = adx.twobody
        a = (c.vec("r"), c.vec("v"), c.vec("q"), c.vec("w"))
        s = [c.var(n) for n in ("dt", "F", "G", "Ft", "Gt", "C")]
        dt, F, G, Ft, Gt, C = s
        c.same_trace("dxdx0", lambda *x: tb.dxdx0(*x), lambda *x: tb.dxdx0(*x, 1.0), a + (dt,))
        c.same_trace("prpr0", lambda *x: tb.prpr0(*x), lambda *x: tb.prpr0(*x, 1.0), a + (F, C))
        c.same_trace("prpv0", lambda *x: tb.prpv0(*x), lambda *x: tb.prpv0(*x, 1.0), a + (F, G, C))
        c.same_trace("pvpr0", lambda *x: tb.pvpr0(*x), lambda *x: tb.pvpr0(*x, 1.0), a + (Ft, C))
        c.same_trace("pvpv0", lambda *x: tb.pvpv0(*x), lambda *x: tb.pvpv0(*x, 1.0), a + (F, Gt, C))
    hs = [("stm_%s_%d%d" % (k, a, b), stm(k, a, b), dict(fork_tmo=150)) for k in CLS for a in (0, 1) for b in (0, 1)]
    hs += [("U_alpha_pos", ualpha("pos")), ("U_alpha_neg", ualpha("neg")), ("identity", ident),  ("default_mu", default)]
    hs += [("blocks_" + k, blocks(k)) for k in CLS]
    return H(hs)
