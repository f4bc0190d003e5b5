"""C04 Kepler equations, derivatives, mean anomalies, generalized anomaly."""
from checks.common import REAL, H, spec_U, alpha_of, CLS

EXPLANATION = ("Symbolic execution of the three Kepler equations, dE/dH/dchi, the mean anomalies, sigma_fn and generalized_anomaly; z3 decides equality with the closed forms, "
               "derivative identities, positivity of the derivatives, and that generalized_anomaly inverts the universal equation.")
BOUNDS = "all real anomalies, times; 0 <= e < 1 (elliptic), e > 1 (hyperbolic); a of the documented sign; mu > 0; alpha of any sign"
ASSUMPTIONS = REAL


def harnesses(tier):
    def elps(c):
        import astrodynx as adx
        E, e, M = c.var("E", angle=True), c.var("e", lo=0, rng=(0.05, 0.95)), c.var("M")
        c.assume(c.lt(e, 1))
        c.eq("kepler", c.call(adx.kepler_equ_elps, E, e, M), E - e * c.sin(E) - M)
        c.eq("kepler_default_M", c.call(adx.kepler_equ_elps, E, e), E - e * c.sin(E))
        d = c.call(adx.dE, E, e)
        c.eq("dE", d, c.deriv(lambda x: c.call(adx.kepler_equ_elps, x, e, M), E), tol=1e-6)
        c.check_lt("dE_positive", 0, d)

    def hypb(c):
        import astrodynx as adx
        Hh, e, N = c.var("H"), c.var("e", lo=1, rng=(1.05, 3)), c.var("N")
        c.assume(c.gt(e, 1))
        c.eq("kepler", c.call(adx.kepler_equ_hypb, Hh, e, N), e * c.sinh(Hh) - Hh - N)
        c.eq("kepler_default_N", c.call(adx.kepler_equ_hypb, Hh, e), e * c.sinh(Hh) - Hh)
        d = c.call(adx.dH, Hh, e)
        c.eq("dH", d, c.deriv(lambda x: c.call(adx.kepler_equ_hypb, x, e, N), Hh), tol=1e-6)
        c.check_lt("dH_positive", 0, d)

    def uni(cls):
        def h(c):
            import astrodynx as adx
            from astrodynx.twobody._kep_equ import dchi
            al, A = alpha_of(c, cls)
            chi, r0, s0, dt, mu = c.var("chi"), c.var("r0", pos=True), c.var("s0"), c.var("dt"), c.var("mu", pos=True)
            U = spec_U(c, cls, chi, A)
            v = c.call(adx.kepler_equ_uni, chi, al, r0, s0, dt, mu)
            c.eq("kepler", v, r0 * U[1] + s0 * U[2] + U[3] - c.sqrt(mu) * dt)
            d = c.call(dchi, chi, al, r0, s0)
            c.eq("dchi", d, c.deriv(lambda x: c.call(adx.kepler_equ_uni, x, al, r0, s0, dt, mu), chi), tol=1e-6)
        return h

    def unidef(c):
        import astrodynx as adx
        chi = c.var("chi")
        U = spec_U(c, "pos", chi, c.num(1))
        c.eq("defaults", c.call(adx.kepler_equ_uni, chi), U[1] + U[3])

    def dchipos(cls):
        """the derivative is the radius: positive on every orbit with nonzero angular momentum (h^2/mu = 2 r0 - alpha r0^2 - sigma0^2 > 0)"""
        def h(c):
            from astrodynx.twobody._kep_equ import dchi
            al, A = alpha_of(c, cls)
            chi, r0, s0 = c.var("chi"), c.var("r0", pos=True), c.var("s0", rng=(-0.6, 0.6))
            c.assume(c.gt(2 * r0 - al * r0 * r0 - s0 * s0, 0))
            c.check_lt("positive", 0, c.call(dchi, chi, al, r0, s0))
        return h

    def mean(c):
        import astrodynx as adx
        a, dt, mu = c.var("a", pos=True), c.var("dt"), c.var("mu", pos=True)
        n = c.sqrt(mu / (a * a * a))
        c.eq("elps", c.call(adx.mean_anomaly_elps, a, dt, mu), n * dt)
        c.eq("hypb", c.call(adx.mean_anomaly_hypb, -a, dt, mu), n * dt)
        n1 = c.sqrt(1 / (a * a * a))
        c.eq("elps_default_mu", c.call(adx.mean_anomaly_elps, a, dt), n1 * dt)
        c.eq("hypb_default_mu", c.call(adx.mean_anomaly_hypb, -a, dt), n1 * dt)

    def gen(cls):
        def h(c):
            import astrodynx as adx
            al, A = alpha_of(c, cls)
            chi, r0, s0, mu = c.var("chi"), c.var("r0", pos=True), c.var("s0"), c.var("mu", pos=True)
            U = spec_U(c, cls, chi, A)
            dt = (r0 * U[1] + s0 * U[2] + U[3]) / c.sqrt(mu)
            s = s0 * U[0] + (1 - al * r0) * U[1]
            c.eq("inverts", c.call(adx.generalized_anomaly, al, s, s0, dt, mu), chi)
            mu1 = c.num(1)
            dt1 = r0 * U[1] + s0 * U[2] + U[3]
            c.eq("inverts_default_mu", c.call(adx.generalized_anomaly, al, s, s0, dt1), chi)
            c.eq("default_dt", c.call(adx.generalized_anomaly, al, s, s0), s - s0)
        return h

    def sigma(c):
        from astrodynx import twobody as tb
        r, v, mu = c.vec("r"), c.vec("v"), c.var("mu", pos=True)
        s = c.call(tb.sigma_fn, r, v, mu)
        c.static("shape", getattr(s, "shape", None) == (1,), "shape")
        c.eq("sigma", s[0], c.dot(r, v) / c.sqrt(mu))
        c.eq("sigma_default_mu", c.call(tb.sigma_fn, r, v)[0], c.dot(r, v))

    return H([("elps", elps), ("hypb", hypb), ("uni_default", unidef), ("mean", mean), ("sigma", sigma)]
             + [("uni_" + k, uni(k)) for k in CLS] + [("radius_positive_" + k, dchipos(k)) for k in CLS] + [("generalized_" + k, gen(k)) for k in CLS])
