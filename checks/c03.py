"""C03 universal functions."""
from math import factorial
from fractions import Fraction
from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of ufunc0..5 with symbolic anomaly and alpha = +A^2, 0, -A^2 (every real alpha) and with alpha left fully symbolic; z3 decides the "
               "recurrences, the derivative identities (exact derivative of the executed expression), the values at chi = 0 and per-index array results.")
BOUNDS = "all real chi, all real alpha; arrays of length 2"
ASSUMPTIONS = REAL


def harnesses(tier):
    def fns():
        from astrodynx import twobody as tb
        return [getattr(tb, "ufunc%d" % i) for i in range(6)]

    def alpha(c, cls):
        if cls == "zero":
            return c.num(0)
        A = c.var("A", pos=True)
        return A * A if cls == "pos" else -A * A

    def ident(cls):
        def h(c):
            f = fns()
            al = alpha(c, cls)
            chi = c.var("chi")
            U = [c.call(g, chi, al) for g in f]
            c.finite("finite", *U)
            for n in range(4):
                c.eq("U%d+alpha*U%d" % (n, n + 2), U[n] + al * U[n + 2], chi ** n / factorial(n))
            c.eq("pythagoras", U[0] * U[0] + al * U[1] * U[1], 1)
        return h

    def ders(cls):
        def h(c):
            f = fns()
            al = alpha(c, cls)
            chi = c.var("chi")
            U = [c.call(g, chi, al) for g in f]
            dU = [c.deriv(lambda x, g=g: c.call(g, x, al), chi) for g in f]
            c.eq("dU0", dU[0], -al * U[1], tol=1e-6)
            for n in range(5):
                c.eq("dU%d" % (n + 1), dU[n + 1], U[n], tol=1e-6)
        return h

    def zero(cls):
        def h(c):
            f = fns()
            al = alpha(c, cls)
            for n, g in enumerate(f):
                c.eq("U%d(0)" % n, c.call(g, c.num(0), al), 1 if n == 0 else 0)
        return h

    def arr(cls):
        def h(c):
            f = fns()
            al = alpha(c, cls)
            x, y = c.var("x"), c.var("y")
            for n, g in enumerate(f):
                V = c.call(g, c.arr(x, y), al)
                c.static("shape%d" % n, getattr(V, "shape", None) == (2,), "shape")
                c.eq("U%d[0]" % n, V[0], c.call(g, x, al))
                c.eq("U%d[1]" % n, V[1], c.call(g, y, al))
        return h

    def generic(n):
        def h(c):
            f = fns()
            al, chi = c.var("alpha"), c.var("chi")
            a, b = c.call(f[n], chi, al), c.call(f[n + 2], chi, al)
            c.finite("finite", a, b)
            # parabolic class is decided exactly in ident_zero
            c.nonzero(al)
            c.eq("recurrence", a + al * b, chi ** n / factorial(n))
        return h
    hs = []
    for cls in ("pos", "zero", "neg"):
        hs += [("ident_" + cls, ident(cls)), ("deriv_" + cls, ders(cls)), ("zero_" + cls, zero(cls)), ("array_" + cls, arr(cls))]
    hs += [("generic%d" % n, generic(n)) for n in range(4)]
    return H(hs)
