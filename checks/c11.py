"""C11 angular momentum and eccentricity vectors."""
from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of angular_momentum, eccentricity_vector and point_mass_grav on fully symbolic Cartesian states; z3 decides the defining identities and that both vectors are "
               "first integrals (their exact directional derivative along the two-body flow vanishes).")
BOUNDS = "all states with r != 0, mu > 0; single state and batch of 2"
ASSUMPTIONS = REAL


def harnesses(tier):
    def st(c):
        r, v, mu = c.vec("r"), c.vec("v"), c.var("mu", pos=True)
        c.nonzero(c.dot(r, r))
        return r, v, mu

    def hvec(c):
        import astrodynx as adx
        r, v = c.vec("r"), c.vec("v")
        c.eqv("h", c.call(adx.angular_momentum, r, v), c.cross(r, v))

    def evec(c):
        import astrodynx as adx
        r, v, mu = st(c)
        e = c.call(adx.eccentricity_vector, r, v, mu)
        h = c.cross(r, v)
        R = c.norm(r)
        vh = c.cross(v, h)
        c.eqv("e", e, c.arr(*[vh[i] / mu - r[i] / R for i in range(3)]))
        c.eq("e.h", c.dot(e, h), 0, scale=1)
        c.eq("e.r", c.dot(e, r), c.dot(h, h) / mu - R)
        ainv = 2 / R - c.dot(v, v) / mu
        c.eq("e2", c.dot(e, e), 1 - c.dot(h, h) / mu * ainv)

    def edef(c):
        import astrodynx as adx
        r, v, mu = st(c)
        e = c.call(adx.eccentricity_vector, r, v)
        h = c.cross(r, v)
        R = c.norm(r)
        vh = c.cross(v, h)
        c.eqv("e", e, c.arr(*[vh[i] - r[i] / R for i in range(3)]))

    def flow(c):
        import astrodynx as adx
        r, v, mu = st(c)
        x = list(r) + list(v)
        acc = c.call(adx.gravity.point_mass_grav, c.num(0), c.arr(*x), {"mu": mu})
        dx = list(v) + list(acc)
        dh = c.dirderiv(lambda *s: c.call(adx.angular_momentum, c.arr(*s[:3]), c.arr(*s[3:])), x, dx)
        c.eqv("dh", dh, c.arr(0, 0, 0), tol=1e-6, scale=1)
        de = c.dirderiv(lambda *s: c.call(adx.eccentricity_vector, c.arr(*s[:3]), c.arr(*s[3:]), mu), x, dx)
        c.eqv("de", de, c.arr(0, 0, 0), tol=1e-6, scale=1)

    def batch(c):
        import astrodynx as adx
        import numpy as np
        r, v, mu = st(c)
        q, w = c.vec("q"), c.vec("w")
        c.nonzero(c.dot(q, q))
        rr = np.stack([r, q])
        vv = np.stack([v, w])
        hh = c.call(adx.angular_momentum, rr, vv)
        c.eqv("h0", hh[0], c.cross(r, v))
        c.eqv("h1", hh[1], c.cross(q, w))
        ee = c.call(adx.eccentricity_vector, rr, vv, mu)
        for k, (a, b) in enumerate(((r, v), (q, w))):
            R, vh = c.norm(a), c.cross(b, c.cross(a, b))
            c.eqv("e%d" % k, ee[k], c.arr(*[vh[i] / mu - a[i] / R for i in range(3)]))
    return H([("h", hvec), ("e", evec), ("e_default", edef), ("flow", flow), ("batch", batch)])
