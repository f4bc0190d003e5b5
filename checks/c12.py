"""C12 elements to state."""
from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of coe2rv on symbolic elements; the pole, node, periapsis direction and in-plane direction are written down independently from node/inclination/argument "
               "(spherical trigonometry, no rotation matrices) and z3 decides that position, angular momentum and eccentricity vector of the produced state are the stated ones.")
BOUNDS = "all p > 0, e >= 0, all angles (unrestricted reals), mu > 0 with 1 + e cos f > 0; one element set and a batch of two"
ASSUMPTIONS = REAL


def geometry(c, O, i, w):
    cO, sO, ci, si, cw, sw = c.cos(O), c.sin(O), c.cos(i), c.sin(i), c.cos(w), c.sin(w)
    W = c.arr(sO * si, -cO * si, ci)
    N = c.arr(cO, sO, 0)
    M = c.cross(W, N)
    P = c.arr(*[cw * N[k] + sw * M[k] for k in range(3)])
    return W, P, c.cross(W, P)


def elements(c, sfx=""):
    p, e, mu = c.var("p" + sfx, pos=True), c.var("e" + sfx, nonneg=True, rng=(0, 2.5)), c.var("mu", pos=True)
    O, i, w, f = [c.angle(k + sfx) for k in "Oiwf"]
    c.assume(c.gt(1 + e * c.cos(f), 0))
    return p, e, i, O, w, f, mu


def harnesses(tier):
    def orbit(part):
        def h(c):
            import astrodynx as adx
            p, e, i, O, w, f, mu = elements(c)
            W, P, Q = geometry(c, O, i, w)
            r, v = c.call(adx.coe2rv, p, e, i, O, w, f, mu)
            c.static("shape", r.shape == (3,) and v.shape == (3,), "shapes %s %s" % (r.shape, v.shape))
            rad = p / (1 + e * c.cos(f))
            if part == "r":
                c.eqv("r", r, c.arr(*[rad * (c.cos(f) * P[k] + c.sin(f) * Q[k]) for k in range(3)]))
                c.eq("rmag", c.norm(r), rad)
            elif part == "v":
                s = c.sqrt(mu / p)
                c.eqv("v", v, c.arr(*[s * (-c.sin(f) * P[k] + (e + c.cos(f)) * Q[k]) for k in range(3)]))
            elif part == "h":
                hv = c.cross(r, v)
                m = c.sqrt(mu * p)
                c.eqv("h", hv, c.arr(*[m * W[k] for k in range(3)]))
            elif part == "e":
                hv = c.cross(r, v)
                vh = c.cross(v, hv)
                c.eqv("evec", c.arr(*[vh[k] / mu - r[k] / rad for k in range(3)]), c.arr(*[e * P[k] for k in range(3)]), scale=1 + e)
        return h

    def default(c):
        import astrodynx as adx
        p, e, i, O, w, f, mu = elements(c)
        for k in (0, 1):
            c.same_trace("default_mu", lambda *a, k=k: adx.coe2rv(*a)[k], lambda *a, k=k: adx.coe2rv(*a, 1.0)[k], (p, e, i, O, w, f))

    def batch(c):
        import astrodynx as adx
        a = elements(c)
        b = elements(c, "_")
        r, v = c.call(adx.coe2rv, *[c.arr(x, y) for x, y in zip(a[:6], b[:6])], a[6])
        c.static("shape", r.shape == (2, 3) and v.shape == (2, 3), "shapes %s %s" % (r.shape, v.shape))
        for k, (p, e, i, O, w, f, mu) in enumerate((a, b)):
            W, P, Q = geometry(c, O, i, w)
            rad, s = p / (1 + e * c.cos(f)), c.sqrt(mu / p)
            c.eqv("r%d" % k, r[k], c.arr(*[rad * (c.cos(f) * P[j] + c.sin(f) * Q[j]) for j in range(3)]))
            c.eqv("v%d" % k, v[k], c.arr(*[s * (-c.sin(f) * P[j] + (e + c.cos(f)) * Q[j]) for j in range(3)]))
    return H([("position", orbit("r")), ("velocity", orbit("v")), ("pole", orbit("h")), ("evec", orbit("e")), ("default_mu", default), ("batch", batch)])
