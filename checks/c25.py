"""C25 degenerate orbits."""
from checks.common import REAL, H, CLS, any_time, radius_axioms
from checks.c12 import geometry
from checks.c13 import same_angle

EXPLANATION = ("Symbolic execution of rv2coe and its angle functions on states written down from symbolic elements with the eccentricity, the inclination or both degenerate; z3 decides that p, e, the inclination and "
               "every angle that is still defined are those of the orbit, and that the undefined angles are finite and in range. prop.kepler with an arbitrary outcome of its iteration on rectilinear states.")
BOUNDS = ("all circular orbits, all equatorial orbits (prograde and retrograde, any eccentricity), all p > 0, mu > 0, anomalies; null node and eccentricity vectors; "
          "all rectilinear states with r != 0 of the three energy classes, at anomalies where the radius is not zero")
ASSUMPTIONS = REAL


def ranges(c, res):
    for k, n, hi in ((2, "incl", 1), (3, "raan", 2), (4, "argp", 2), (5, "anom", 2)):
        c.finite(n + " finite", res[k])
        c.check_le(n + " range", c.num(0), res[k])
        c.check_le(n + " range", res[k], hi * c.pi)


def scales(c):
    q, m = c.var("q", pos=True), c.var("m", pos=True)
    c.hint(q)
    c.hint(m)
    return q, m


def circular(c, q, m, O, i, u):
    """position and velocity of a circular orbit of radius q^2, mu = m^2"""
    W, N, M = geometry(c, O, i, c.num(0))
    cu, su = c.cos(u), c.sin(u)
    return c.arr(*[q * q * (cu * N[k] + su * M[k]) for k in range(3)]), c.arr(*[m / q * (-su * N[k] + cu * M[k]) for k in range(3)])


def equatorial(c, q, m, e, w, f, sg):
    """orbit in the xy plane, periapsis at azimuth w; sg = -1: clockwise"""
    rad, s = q * q / (1 + e * c.cos(f)), m / q
    P, Q = c.arr(c.cos(w), c.sin(w), 0), c.arr(-sg * c.sin(w), sg * c.cos(w), 0)
    r = c.arr(*[rad * (c.cos(f) * P[k] + c.sin(f) * Q[k]) for k in range(3)])
    v = c.arr(*[s * (-c.sin(f) * P[k] + (e + c.cos(f)) * Q[k]) for k in range(3)])
    c.hint(rad)
    return r, v


def harnesses(tier):
    def circ(part):
        def h(c):
            import astrodynx as adx
            q, m = scales(c)
            O, i, u = c.angle("O"), c.angle("i"), c.angle("u")
            c.assume(c.gt(c.sin(i), 0))
            c.hint(c.sin(i))
            r, v = circular(c, q, m, O, i, u)
            res = c.call(adx.rv2coe, r, v, m * m)
            if part == "size":
                c.eq("p", res[0], q * q)
                c.eq("e", res[1], c.num(0), scale=1, tol=1e-7)
                same_angle(c, "incl", res[2], i, 0, c.pi)
            elif part == "raan":
                same_angle(c, "raan", res[3], O, 0, 2 * c.pi)
            else:
                ranges(c, res)
        return h

    def equ(sg, part, circ=False):
        def h(c):
            import astrodynx as adx
            q, m = scales(c)
            e = c.num(0) if circ else c.var("e", pos=True, rng=(0.05, 2.2))
            w, f = c.angle("w"), c.angle("f")
            if not circ:
                c.assume(c.gt(1 + e * c.cos(f), 0))
                c.hint(e)
            r, v = equatorial(c, q, m, e, w, f, sg)
            res = c.call(adx.rv2coe, r, v, m * m)
            if part == "size":
                c.eq("p", res[0], q * q)
                c.eq("e", res[1], e, scale=1, tol=1e-7)
                c.eq("incl", res[2], c.num(0) if sg > 0 else c.pi, scale=1, tol=1e-7)
            elif part == "anom":
                same_angle(c, "anom", res[5], f, 0, 2 * c.pi)
            else:
                ranges(c, res)
        return h

    def null(which):
        def h(c):
            import astrodynx as adx
            z, a = c.arr(0, 0, 0), c.vec("a")
            c.nonzero(c.dot(a, a))
            if which == "incl":
                k = c.var("k", pos=True)
                c.hint(k)
                for s in (1, -1):
                    c.eq("incl", c.call(adx.inclination, c.arr(0, 0, s * k))[0], c.num(0) if s > 0 else c.pi, scale=1, tol=1e-7)
                return
            g = {"raan": lambda: [c.call(adx.right_ascension, z)],
                 "argp": lambda: [c.call(adx.argument_of_periapsis, z, a), c.call(adx.argument_of_periapsis, a, z), c.call(adx.argument_of_periapsis, z, z)],
                 "anom": lambda: [c.call(adx.true_anomaly, a, z)]}[which]()
            for x in g:
                c.finite(which, x[0])
                c.check_le(which + " range", c.num(0), x[0])
                c.check_le(which + " range", x[0], 2 * c.pi)
        return h

    def rect(cls, sg=1):
        """radial motion: the propagated state stays on the line of the initial one with the same energy"""
        def h(c):
            import astrodynx as adx
            R = c.matmul(c.rotz(c.angle("O")), c.roty(c.angle("d")))
            q, m = scales(c)
            if cls == "zero":
                if not c.symbolic:
                    q, m = c.pow2(q), c.pow2(m)
                rho, mu, vr, al, A = q * q, 2 * m * m, 2 * sg * m / q, c.num(0), None
                s0 = rho * vr / c.sqrt(mu)
            else:
                rho, mu, vr = q * q, m * m, c.var("vr", rng=(-1.2, 1.2))
                al = 2 / rho - vr * vr / mu
                c.assume(c.gt(al, 0) if cls == "pos" else c.lt(al, 0))
                A = c.sqrt(al if cls == "pos" else -al)
                s0 = rho * vr / m
            r, v = c.matvec(R, c.arr(rho, 0, 0)), c.matvec(R, c.arr(vr, 0, 0))
            t = any_time(c, cls, mu, rho, A, s0, steady=False)
            small = c.symbolic or abs(t) * c.sqrt(mu) * (1 + abs(al)) < 0.1 * rho and abs(t * vr) < 0.1 * rho
            r1, v1 = c.call(adx.prop.kepler, c.arr(t), r, v, mu, _loop="havoc", _on_loop=radius_axioms(c, cls, rho, A, s0))
            if not c.symbolic:
                c.assume(small)
            r1, v1 = r1[0], v1[0]
            c.finite("finite", r1, v1)
            u = [R[0][0], R[1][0], R[2][0]]
            for n, w, sz in (("position", r1, rho), ("velocity", v1, c.sqrt(mu / rho))):
                z = c.cross(w, u)
                for j in range(3):
                    c.eq("line " + n, z[j], c.num(0), scale=sz, tol=1e-6)
            c.eq("energy", c.dot(v1, v1) / 2 - mu / c.dot(r1, u), c.dot(v, v) / 2 - mu / rho, scale=mu / rho, tol=1e-6)
        return h
    hs = [("circ_" + p, circ(p)) for p in ("size", "raan", "range")]
    for s, n in ((1, "pro"), (-1, "retro")):
        hs += [("equ_%s_%s" % (n, p), equ(s, p)) for p in ("size", "anom", "range")]
        hs += [("circ_equ_%s_%s" % (n, p), equ(s, p, True)) for p in ("size", "range")]
    hs += [("null_" + k, null(k)) for k in ("incl", "raan", "argp", "anom")]
    hs += [("rectilinear_" + k, rect(k)) for k in CLS] + [("rectilinear_zero_in", rect("zero", -1))]
    return H(hs)
