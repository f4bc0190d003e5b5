"""C02 rotation matrices."""
from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of rotmat3dx/y/z with symbolic angles; z3 decides orthogonality, determinant, fixed axis, right-hand sense, composition "
               "and per-index results for arrays of angles.")
BOUNDS = "all real angles; arrays of shape (2,) and (1,2)"
ASSUMPTIONS = REAL


def spec(c, ax, t):
    return {"x": c.rotx, "y": c.roty, "z": c.rotz}[ax](t)


def harnesses(tier):
    def one(ax):
        def h(c):
            import astrodynx as adx
            fn = getattr(adx.utils, "rotmat3d" + ax)
            a, b = c.angle("a"), c.angle("b")
            M = c.call(fn, a)
            c.static("shape", getattr(M, "shape", None) == (3, 3), "shape %s" % (getattr(M, "shape", None),))
            c.eqv("matrix", M, spec(c, ax, a))
            c.eqv("orthogonal", c.matmul(M, M.T), c.mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
            c.eq("det", c.dot(M[0], c.cross(M[1], M[2])), 1)
            k = "xyz".index(ax)
            e = [0, 0, 0]
            e[k] = 1
            c.eqv("axis", c.matvec(M, c.arr(*e)), c.arr(*e))
            i, j = (k + 1) % 3, (k + 2) % 3
            # right-hand rule: e_i -> cos e_i + sin e_j
            c.eq("rh_i", M[i, i], c.cos(a))
            c.eq("rh_j", M[j, i], c.sin(a))
            Mb, Mab = c.call(fn, b), c.call(fn, a + b)
            c.eqv("compose", c.matmul(M, Mb), Mab)
            c.eqv("inverse", c.matmul(M, c.call(fn, -a)), c.mat([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
        return h

    def arr(ax, shape):
        def h(c):
            import astrodynx as adx
            import numpy as np
            fn = getattr(adx.utils, "rotmat3d" + ax)
            a, b = c.angle("a"), c.angle("b")
            A = c.arr(a, b).reshape(shape)
            M = c.call(fn, A)
            c.static("shape", M.shape == shape + (3, 3), "shape %s" % (M.shape,))
            M = M.reshape(2, 3, 3)
            c.eqv("first", M[0], spec(c, ax, a))
            c.eqv("second", M[1], spec(c, ax, b))
        return h
    hs = []
    for ax in "xyz":
        hs.append(("rot" + ax, one(ax)))
        hs.append(("rot%s_array" % ax, arr(ax, (2,))))
        hs.append(("rot%s_array2d" % ax, arr(ax, (1, 2))))
    return H(hs)
