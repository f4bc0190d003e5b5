"""C13 state to elements."""
from checks.common import REAL, H
from checks.c12 import geometry

EXPLANATION = ("Symbolic execution of rv2coe on the state with given symbolic elements (every non-circular, non-equatorial, non-rectilinear state has such elements); z3 decides on every path that "
               "p and e come back, that cosine and sine of every returned angle equal those of the element, and that the angles lie in their ranges. "
               "inclination, right_ascension, argument_of_periapsis, true_anomaly are decided the same way on the corresponding vectors.")
BOUNDS = "all p > 0, e > 0, 0 < i < pi, all node/argument/anomaly angles with 1 + e cos f > 0, mu > 0"
ASSUMPTIONS = REAL


def state(c):
    q, m, e = c.var("q", pos=True), c.var("m", pos=True), c.var("e", pos=True, rng=(0.05, 2.5))
    p, mu = q * q, m * m
    O, i, w, f = [c.angle(k) for k in "Oiwf"]
    c.assume(c.gt(c.sin(i), 0))
    c.assume(c.gt(1 + e * c.cos(f), 0))
    W, P, Q = geometry(c, O, i, w)
    rad, s = p / (1 + e * c.cos(f)), m / q
    r = c.arr(*[rad * (c.cos(f) * P[k] + c.sin(f) * Q[k]) for k in range(3)])
    v = c.arr(*[s * (-c.sin(f) * P[k] + (e + c.cos(f)) * Q[k]) for k in range(3)])
    for x in (c.sin(i), rad, e, q, m, s):
        c.hint(x)
    return p, e, i, O, w, f, mu, r, v, W, P, Q


def same_angle(c, name, got, want, lo, hi):
    c.eq("cos " + name, c.cos(got), c.cos(want), tol=1e-6, scale=1)
    c.eq("sin " + name, c.sin(got), c.sin(want), tol=1e-6, scale=1)
    c.check_le(name + " range", c.num(lo), got)
    c.check_le(name + " range", got, hi)


def harnesses(tier):
    def full(which):
        def h(c):
            import astrodynx as adx
            p, e, i, O, w, f, mu, r, v, W, P, Q = state(c)
            res = c.call(adx.rv2coe, r, v, mu)
            if which == "shape":
                c.eq("p", res[0], p)
                c.eq("e", res[1], e)
                for k in range(6):
                    c.static("shape", getattr(res[k], "shape", ()) == (), "shape %s" % (getattr(res[k], "shape", ()),))
            elif which == "incl":
                same_angle(c, "incl", res[2], i, 0, c.pi)
            elif which == "raan":
                same_angle(c, "raan", res[3], O, 0, 2 * c.pi)
            elif which == "argp":
                same_angle(c, "argp", res[4], w, 0, 2 * c.pi)
            elif which == "anom":
                same_angle(c, "anom", res[5], f, 0, 2 * c.pi)
        return h

    def single(which):
        def h(c):
            import astrodynx as adx
            p, e, i, O, w, f, mu, r, v, W, P, Q = state(c)
            k = c.var("k", pos=True)
            c.hint(k)
            if which == "incl":
                same_angle(c, "incl", c.call(adx.inclination, c.arr(*[k * x for x in W]))[0], i, 0, c.pi)
            N = c.arr(k * c.cos(O), k * c.sin(O), 0)
            E = c.arr(*[e * x for x in P])
            if which == "raan":
                same_angle(c, "raan", c.call(adx.right_ascension, N)[0], O, 0, 2 * c.pi)
            if which == "argp":
                same_angle(c, "argp", c.call(adx.argument_of_periapsis, N, E)[0], w, 0, 2 * c.pi)
            if which == "anom":
                # position and eccentricity vector alone fix the anomaly up to the direction of motion
                g = c.call(adx.true_anomaly, r, E)[0]
                c.eq("cos anom", c.cos(g), c.cos(f), tol=1e-6, scale=1)
                c.check_le("anom range", c.num(0), g)
                c.check_le("anom range", g, 2 * c.pi)
        return h

    def default(c):
        import astrodynx as adx
        r, v = c.vec("r"), c.vec("v")
        for k in range(6):
            c.same_trace("default_mu", lambda *a, k=k: adx.rv2coe(*a)[k], lambda *a, k=k: adx.rv2coe(*a, 1.0)[k], (r, v))
    return H([("rv2coe_" + k, full(k)) for k in ("shape", "incl", "raan", "argp", "anom")] + [("fn_" + k, single(k)) for k in ("incl", "raan", "argp", "anom")] + [("default_mu", default)])
