"""C06 analytic propagation stays on the initial orbit, whatever the iteration returned."""
from checks.common import REAL, H, CLS, any_time, kstate, radius_axioms

EXPLANATION = ("Symbolic execution of prop.kepler with the Newton loop replaced by an arbitrary returned anomaly; z3 decides that the angular momentum vector, energy and eccentricity vector "
               "of the returned state equal those of the initial state, and that dt = 0 returns the initial state (loop unrolled: zero iterations).")
BOUNDS = "all initial states (arbitrary frame, radius, radial and transverse speed) with nonzero angular momentum, mu > 0, all three conic classes, one requested time, any loop outcome"
ASSUMPTIONS = REAL + ["the orbit radius r0 U0 + sigma0 U1 + U2 is positive for nonzero angular momentum (decided in C04, harnesses radius_positive_*)"]


def consts(c, r, v, mu):
    R = c.norm(r)
    h = c.cross(r, v)
    vh = c.cross(v, h)
    return h, c.dot(v, v) / 2 - mu / R, c.arr(*[vh[i] / mu - r[i] / R for i in range(3)])


def harnesses(tier):
    def keep(cls, what):
        def h(c):
            import astrodynx as adx
            r, v, mu, rho, al, A, s0 = kstate(c, cls)
            t = any_time(c, cls, mu, rho, A, s0, steady=False)
            r1, v1 = c.call(adx.prop.kepler, c.arr(t), r, v, mu, _loop="havoc", _on_loop=radius_axioms(c, cls, rho, A, s0))
            c.static("shape", r1.shape == (1, 3) and v1.shape == (1, 3), "shape %s %s" % (r1.shape, v1.shape))
            r1, v1 = r1[0], v1[0]
            if c.symbolic or abs(t) * c.sqrt(mu) * (1 + abs(al)) < 0.1 * rho:   # otherwise the iteration may have diverged (N01)
                c.finite("finite", r1, v1)
            c.moderate(1e3, r1, v1)
            k0, k1 = consts(c, r, v, mu), consts(c, r1, v1, mu)
            if what == "h":
                c.eqv("angular_momentum", k1[0], k0[0])
            elif what == "E":
                c.eq("energy", k1[1], k0[1])
            else:
                c.eqv("eccentricity", k1[2], k0[2])
        return h

    def zero(cls):
        def h(c):
            import astrodynx as adx
            r, v, mu, rho, al, A, s0 = kstate(c, cls)
            r1, v1 = c.call(adx.prop.kepler, c.arr(c.num(0)), r, v, mu)
            c.eqv("r", r1[0], r)
            c.eqv("v", v1[0], v)
        return h

    hs = []
    for k in CLS:
        hs += [("%s_%s" % (w, k), keep(k, w)) for w in ("h", "E", "e")]
        hs.append(("zero_" + k, zero(k)))
    return H(hs)
