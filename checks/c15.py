"""C15 periapsis and revolution limits."""
from checks.common import REAL, H, frame

EXPLANATION = ("Symbolic execution of rp_islower_rmin (oracle: the smaller root of the radial equation, written with the closed-form h and e of a state in an arbitrary frame) and of "
               "nmax_by_periapsis (oracle: N P <= tof < (N+1) P for the integer N returned, P the period of the limiting ellipse). z3 decides both, symmetry in r1, r2, and defaults.")
BOUNDS = "all states with r != 0, all rmin, all radii and rp_min > 0, tof >= 0, mu > 0"
ASSUMPTIONS = REAL


def harnesses(tier):
    def rp(planar):
        def h(c):
            import astrodynx as adx
            R = c.rotz(c.num(0)) if planar else frame(c)
            rho, vr, vt, mu, rmin = c.var("rho", pos=True), c.var("vr", rng=(-1.2, 1.2)), c.var("vt", rng=(-1.3, 1.3)), c.var("mu", pos=True), c.var("rmin", rng=(0.05, 2))
            r, v = c.matvec(R, c.arr(rho, 0, 0)), c.matvec(R, c.arr(vr, vt, 0))
            if not planar:
                c.hint(rho)
            got = c.call(adx.twobody.rp_islower_rmin, rmin, r, v, mu)
            ex, ey = rho * vt * vt / mu - 1, -rho * vr * vt / mu
            e = c.sqrt(ex * ex + ey * ey)
            p = rho * rho * vt * vt / mu
            c.iff("below", got, c.lt(p / (1 + e), rmin))
        return h

    def tight(c):
        """periapsis passage itself: the predicate compares rmin with the distance there"""
        import astrodynx as adx
        R = frame(c)
        q, k, mu, rmin = c.var("q", pos=True), c.var("e", nonneg=True, rng=(0, 2)), c.var("mu", pos=True), c.var("rmin", pos=True)
        vt = c.sqrt(mu * (1 + k) / q)
        r, v = c.matvec(R, c.arr(q, 0, 0)), c.matvec(R, c.arr(0, vt, 0))
        c.hint(q)
        c.iff("below", c.call(adx.twobody.rp_islower_rmin, rmin, r, v, mu), c.lt(q, rmin))

    def nmax(c):
        import astrodynx as adx
        rp, r1, r2, mu = [c.var(n, pos=True) for n in ("rp", "r1", "r2", "mu")]
        tof = c.var("tof", nonneg=True, rng=(0, 60))
        N = c.call(adx.twobody.nmax_by_periapsis, rp, r1, r2, tof, mu)
        a = (c.max(r1, r2) + rp) / 2
        P = 2 * c.pi * c.sqrt(a ** 3 / mu)
        c.check_le("N fits", N * P, tof, tol=1e-9)
        c.check_lt("N+1 does not", tof, (N + 1) * P)

    def scaled(n):
        def h(c):
            """any number of revolutions and a fraction, in any units"""
            import astrodynx as adx
            rp, r1, r2, mu = [c.var(n, pos=True) for n in ("rp", "r1", "r2", "mu")]
            f, k = c.var("f", rng=(0.05, 0.95)), c.var("k", pos=True, rng=(0.1, 2))
            c.assume(c.ge(f, 0))
            c.assume(c.lt(f, 1))
            if not c.symbolic:
                c.assume(0.02 < f < 0.98)
                k = 2.0 ** round(24 * (min(k, 2) - 1))
            rp, r1, r2 = k * rp, k * r1, k * r2
            a = (c.max(r1, r2) + rp) / 2
            tof = (n + f) * (2 * c.pi * c.sqrt(a ** 3 / mu))
            c.eq("revolutions", c.call(adx.twobody.nmax_by_periapsis, rp, r1, r2, tof, mu), c.num(n), tol=1e-9)
        return h

    def symmetric(c):
        import astrodynx as adx
        rp, r1, r2, mu = [c.var(n, pos=True) for n in ("rp", "r1", "r2", "mu")]
        tof = c.var("tof", nonneg=True, rng=(0, 60))
        c.assume(c.gt(r1, r2))      # equal radii: nothing to swap
        c.eq("symmetric", c.call(adx.twobody.nmax_by_periapsis, rp, r2, r1, tof, mu), c.call(adx.twobody.nmax_by_periapsis, rp, r1, r2, tof, mu))

    def default(c):
        import astrodynx as adx
        r, v = c.vec("r"), c.vec("v")
        rp, r1, r2, tof = [c.var(n, pos=True) for n in ("rp", "r1", "r2", "tof")]
        f, g = adx.twobody.rp_islower_rmin, adx.twobody.nmax_by_periapsis
        c.same_trace("default_mu", lambda *a: f(*a) * 1.0, lambda *a: f(*a, 1.0) * 1.0, (rp, r, v))
        c.same_trace("default_mu", g, lambda *a: g(*a, 1.0), (rp, r1, r2, tof))
    sc = [("nmax_%d_scaled" % n, scaled(n)) for n in ((0, 1, 4) if tier == "quick" else (0, 1, 2, 3, 4, 7, 12, 40))]
    return H(sc + [("rp_planar", rp(True)), ("rp", rp(False)), ("rp_at_periapsis", tight), ("nmax", nmax),  ("nmax_symmetric", symmetric), ("default_mu", default)])
