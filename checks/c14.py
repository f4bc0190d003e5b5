"""C14 transfer-path predicates."""
from checks.common import REAL, H, frame

EXPLANATION = ("Symbolic execution of is_short_way and pass_perigee for a departure state r1 = R(rho,0,0), v1 = R(vr,vt,0) and arrival r2 = R rho2 (cos d, sin d, 0) with an arbitrary rotation R; the "
               "oracle is the swept angle itself: d' = d for vt > 0 and -d for vt < 0, short way iff sin d' > 0, and the periapsis angle from the closed-form eccentricity vector of the state. "
               "z3 decides the equivalence on every path.")
BOUNDS = "all frames, rho, rho2, mu > 0, all vr, vt != 0, all non-collinear arrival directions; for pass_perigee e > 0 and periapsis not at an endpoint"
ASSUMPTIONS = REAL


def harnesses(tier):
    def setup(c, planar):
        R = c.rotz(c.num(0)) if planar else frame(c)
        rho, rho2 = c.var("rho", pos=True), c.var("rho2", pos=True)
        vr, vt, mu = c.var("vr", rng=(-1.2, 1.2)), c.var("vt", rng=(-1.3, 1.3)), c.var("mu", pos=True)
        d = c.angle("d")
        c.nonzero(vt)
        cd, sd = c.cos(d), c.sin(d)
        c.nonzero(sd)
        r1, v1, r2 = [c.matvec(R, x) for x in (c.arr(rho, 0, 0), c.arr(vr, vt, 0), c.arr(rho2 * cd, rho2 * sd, 0))]
        return rho, rho2, vr, vt, mu, cd, sd, r1, v1, r2

    def short(c):
        import astrodynx as adx
        rho, rho2, vr, vt, mu, cd, sd, r1, v1, r2 = setup(c, False)
        c.iff("short", c.call(adx.twobody.is_short_way, r1, v1, r2), c.gt(vt * sd, 0))

    def perigee(planar, sgn, short):
        def h(c):
            import astrodynx as adx
            rho, rho2, vr, vt, mu, cd, sd, r1, v1, r2 = setup(c, planar)
            s = c.num(sgn)
            c.assume(c.gt(s * vt, 0))
            sd = s * sd                      # sine of the angle swept in the direction of motion
            c.assume(c.gt(sd, 0) if short else c.lt(sd, 0))
            # mu times the eccentricity vector, components along r1 and along the transverse direction of motion
            ex, ey = rho * vt * vt - mu, -s * rho * vr * vt
            # beta = periapsis angle from departure, theta = swept angle; not at an endpoint
            a, b = ey, ex * sd - ey * cd     # proportional to sin(beta), sin(theta - beta)
            c.assume(c.not_(c.and_(c.equal(a, 0), c.ge(ex, 0))))
            c.assume(c.not_(c.and_(c.equal(b, 0), c.ge(ex * cd + ey * sd, 0))))
            inside = c.and_(c.gt(a, 0), c.gt(b, 0)) if short else c.not_(c.and_(c.lt(a, 0), c.lt(b, 0)))
            c.iff("perigee", c.call(adx.twobody.pass_perigee, r1, v1, r2, mu), inside)
        return h

    def default(c):
        import astrodynx as adx
        r, v, q = c.vec("r"), c.vec("v"), c.vec("q")
        c.same_trace("default_mu", lambda *a: adx.twobody.pass_perigee(*a) * 1.0, lambda *a: adx.twobody.pass_perigee(*a, 1.0) * 1.0, (r, v, q))
    hs = [("short", short), ("default_mu", default)]
    for sgn, nm in ((1, "ccw"), (-1, "cw")):
        for sh in (True, False):
            hs.append(("perigee_%s_%s" % (nm, "short" if sh else "long"), perigee(False, sgn, sh)))
    return H(hs)
