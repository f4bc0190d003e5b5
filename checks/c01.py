"""C01 gravity accelerations are gradients of the zonal potentials."""
from fractions import Fraction
from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of the jaxpr of each force model with symbolic position, velocity, time and parameters; z3 decides, on every path, "
               "that each component equals the exact gradient of the potential, and that time, velocity and extra components do not matter.")
BOUNDS = "state length 3, 6 and 7; all real positions != 0, velocities, times, mu, J_n, R_eq (no magnitude bound)"
ASSUMPTIONS = REAL


def legendre(n, u):
    q = Fraction
    return {2: (3 * u ** 2 - 1) / 2, 3: (5 * u ** 3 - 3 * u) / 2, 4: (35 * u ** 4 - 30 * u ** 2 + 3) / 8}[n]


def harnesses(tier):
    def mk(fname, n, length, params=True):
        def h(c):
            import astrodynx as adx
            fn = getattr(adx.gravity, fname)
            x = c.vec("x", 3)
            v = c.vec("v", length - 3) if length > 3 else c.arr()
            t = c.var("t")
            c.nonzero(c.dot(x, x))
            mu, J, R = c.num(1), c.num(0), c.num(1)
            if params:
                mu = c.var("mu")
                args = {"mu": mu}
                if n:
                    J, R = c.var("J"), c.var("R")
                    args["J%d" % n] = J
                    args["R_eq"] = R
                args["unused"] = c.var("w")
            st = c.arr(*list(x) + list(v))
            out = c.call(fn, t, st, args) if params else c.call(fn, t, st)

            def pot(a, b, z):
                r = c.sqrt(a * a + b * b + z * z)
                if not n:
                    return mu / r
                return -(mu / r) * J * (R / r) ** n * legendre(n, z / r)
            g = c.diff(pot, list(x))
            c.eqv("acc", out, c.arr(*g))
        return h
    hs = []
    for fname, n in (("point_mass_grav", 0), ("j2_acc", 2), ("j3_acc", 3), ("j4_acc", 4)):
        for L in (3, 6, 7):
            hs.append(("%s_len%d" % (fname, L), mk(fname, n, L)))
        hs.append(("%s_defaults" % fname, mk(fname, n, 6, params=False)))
    return H(hs)
