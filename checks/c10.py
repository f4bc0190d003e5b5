"""C10 size/shape/period conversions."""
from checks.common import REAL, H

EXPLANATION = "Symbolic execution of the scalar orbit relations; z3 decides the inverse pairs, Kepler's third law, conic radii, vis-viva and p = h^2/mu for all real parameters in range."
BOUNDS = "a, p, r, v, h, P, mu > 0 (a < 0 for hyperbolas), all real f with 1 + e cos f != 0, e >= 0, e != 1 where a is finite"
ASSUMPTIONS = REAL


def harnesses(tier):
    def period(c):
        import astrodynx as adx
        a, mu = c.var("a", pos=True), c.var("mu", pos=True)
        P = c.call(adx.orb_period, a, mu)
        c.eq("third_law", P, 2 * c.pi * c.sqrt(a * a * a / mu))
        c.eq("third_law_sq", P * P * mu, 4 * c.pi * c.pi * a * a * a)
        c.eq("inverse", c.call(adx.a_from_period, P, mu), a)
        c.eq("default_mu", c.call(adx.orb_period, a), 2 * c.pi * c.sqrt(a * a * a))
        n = c.call(adx.mean_motion, P)
        c.eq("mean_motion", n * P, 2 * c.pi)
        c.eq("n_sq", n * n * a * a * a, mu)

    def period2(c):
        import astrodynx as adx
        P, mu = c.var("P", pos=True), c.var("mu", pos=True)
        a = c.call(adx.a_from_period, P, mu)
        c.eq("cube", 4 * c.pi * c.pi * a * a * a, P * P * mu)
        c.check_lt("positive", 0, a)
        c.eq("inverse", c.call(adx.orb_period, a, mu), P)
        a1 = c.call(adx.a_from_period, P)
        c.eq("default_mu", 4 * c.pi * c.pi * a1 * a1 * a1, P * P)
        c.eq("mean_motion", c.call(adx.mean_motion, P), 2 * c.pi / P)

    def ell(sign):
        def h(c):
            import astrodynx as adx
            if sign > 0:
                e = c.var("e", nonneg=True, rng=(0.0, 0.95))
                c.assume(c.lt(e, 1))
                a = c.var("a", pos=True)
            else:
                e = c.var("e", pos=True, rng=(1.1, 3))
                c.assume(c.gt(e, 1))
                a = -c.var("a", pos=True)
            p = c.call(adx.semipara_from_ae, a, e)
            c.eq("p", p, a * (1 - e * e))
            c.eq("a_of_p", c.call(adx.a_from_pe, p, e), a)
            q = c.var("p", pos=True)
            b = c.call(adx.a_from_pe, q, e)
            c.eq("p_of_a", c.call(adx.semipara_from_ae, b, e), q)
            rp = c.call(adx.radius_periapsis, q, e)
            c.eq("rp_conic", rp, c.call(adx.equ_of_orbit, q, e, c.num(0)))
            ra = c.call(adx.radius_apoapsis, q, e)
            c.eq("mean_radius", (rp + ra) / 2, b)
            c.eq("ra_conic", ra, c.call(adx.equ_of_orbit, q, e, c.pi))
            c.eq("rp", rp, q / (1 + e))
            c.eq("ra", ra, q / (1 - e))
        return h

    def conic(c):
        import astrodynx as adx
        p, e, f = c.var("p", pos=True), c.var("e", nonneg=True), c.angle("f")
        c.nonzero(1 + e * c.cos(f))
        r = c.call(adx.equ_of_orbit, p, e, f)
        c.eq("conic", r * (1 + e * c.cos(f)), p)

    def visviva(c):
        import astrodynx as adx
        r, v, mu = c.var("r", pos=True), c.var("v", nonneg=True), c.var("mu", pos=True)
        c.nonzero(2 * mu - r * v * v)
        a = c.call(adx.semimajor_axis, r, v, mu)
        c.nonzero(a)
        c.eq("vis_viva", v * v, mu * (2 / r - 1 / a))
        c.iff("ellipse_positive", c.gt(a, 0), c.gt(2 * mu, r * v * v))

    def visdef(c):
        import astrodynx as adx
        r, v = c.var("r", pos=True), c.var("v", nonneg=True)
        c.nonzero(2 - r * v * v)
        a = c.call(adx.semimajor_axis, r, v)
        c.eq("default_mu", a * (2 - r * v * v), r)

    def semip(c):
        import astrodynx as adx
        h, mu = c.var("h"), c.var("mu", pos=True)
        c.eq("p", c.call(adx.semiparameter, h, mu) * mu, h * h)
        c.eq("default_mu", c.call(adx.semiparameter, h), h * h)

    def apsis(c):
        """a, e, p from an apsis state agree: r = a(1-e), v^2 = mu (1+e)/(a (1-e))"""
        import astrodynx as adx
        a, mu = c.var("a", pos=True), c.var("mu", pos=True)
        e = c.var("e", nonneg=True, rng=(0.0, 0.9))
        c.assume(c.lt(e, 1))
        r = a * (1 - e)
        v = c.sqrt(mu * (1 + e) / (a * (1 - e)))
        c.eq("a", c.call(adx.semimajor_axis, r, v, mu), a)
        c.eq("p", c.call(adx.semiparameter, r * v, mu), c.call(adx.semipara_from_ae, a, e))
    return H([("period", period), ("period_inverse", period2), ("shape_ellipse", ell(1)), ("shape_hyperbola", ell(-1)), ("conic", conic),
              ("vis_viva", visviva), ("vis_viva_default", visdef), ("semiparameter", semip), ("apsis", apsis)])
