"""C21 independence of the reference frame."""
from checks.common import REAL, H, CLS, any_time, kstate, radius_axioms, frame
from checks import registry as G
from checks.c13 import state

EXPLANATION = ("Every function of vectors is executed symbolically twice, on arbitrary vectors and on the same vectors rotated by an arbitrary angle about a coordinate axis; z3 decides that vector and matrix outputs "
               "rotate along and that scalars, angles and predicates do not change (zonal accelerations: polar axis, and the mirror image in the equator). The propagator is compared at an arbitrary common anomaly, "
               "and for reversed velocity and time at the opposite anomaly.")
BOUNDS = "all inputs, all rotation angles about x, y and z (these generate every rotation); propagator: any number of iterations, arbitrary final anomaly"
ASSUMPTIONS = REAL


def harnesses(tier):
    import numpy as np

    def rot(c, axis, t):
        return {"x": c.rotx, "y": c.roty, "z": c.rotz, "m": lambda t: c.mat([[1, 0, 0], [0, 1, 0], [0, 0, -1]])}[axis](t)

    def mk(fn, axis):
        def h(c):
            import astrodynx as adx
            f = fn.get(adx)
            th = c.angle("th")
            R = rot(c, axis, th)
            vals = [G.value(c, kind, nm, "pos") for nm, kind, d in fn.ins]
            G.ell_pre(c, fn, vals)
            if fn.pre:
                fn.pre(c, vals)
            ro = []
            for x, (nm, kind, d) in zip(vals, fn.ins):
                if kind == "x":
                    ro.append(c.arr(*(list(c.matvec(R, x[:3])) + list(c.matvec(R, x[3:])))))
                else:
                    ro.append(c.matvec(R, x) if kind == "v" else x)
            if fn.outs[0][0] == "b":
                c.settled(f, vals)
                c.settled(f, ro)
            a = G.outs(fn, c.call(f, *vals))
            b = G.outs(fn, c.call(f, *ro))
            sg = -1 if axis == "m" and fn.name == "j3_acc" else 1
            for (kind, d), x, y in zip(fn.outs, a, b):
                if kind == "b":
                    for s, t in zip(G.flat(x), G.flat(y)):
                        c.same_bool("predicate", s, t)
                elif kind == "v":
                    w = c.matvec(R, np.asarray(x, dtype=object).reshape(-1)[:3])
                    for s, t in zip(w, G.flat(y)):
                        c.eq("rotated", t, sg * s, tol=1e-6)
                elif kind == "m":
                    w = c.matmul(c.matmul(R, x), R.T)
                    for s, t in zip(G.flat(w), G.flat(y)):
                        c.eq("rotated", t, s, tol=1e-6)
                else:
                    for s, t in zip(G.flat(x), G.flat(y)):
                        c.eq("unchanged", t, s, tol=1e-6)
        return h

    def stm(cls, axis, which):
        def h(c):
            import astrodynx as adx
            R = rot(c, axis, c.angle("th"))
            st = kstate(c, cls)
            q, w, mu, rho, al, A, s0 = st
            r, v = c.vec("r"), c.vec("v")
            c.nonzero(c.dot(r, r))
            t = c.var("t", rng=(-1.2, 1.2))
            m = c.sqrt(mu)
            c.hint(m)
            c.hint(rho)
            if not c.symbolic and cls != "zero":
                c.assume(abs(al) > 0.05)
            c.moderate(5, al * m * t + c.dot(r, v) / m - s0)
            M = c.call(adx.twobody.dxdx0, r, v, q, w, t, mu)
            N = c.call(adx.twobody.dxdx0, *([c.matvec(R, x) for x in (r, v, q, w)] + [t, mu]))
            a, b = which
            W = c.matmul(c.matmul(R, M[3 * a:3 * a + 3, 3 * b:3 * b + 3]), R.T)
            for i in range(3):
                for j in range(3):
                    c.eq("rotated", N[3 * a + i, 3 * b + j], W[i, j], tol=1e-6)
        return h

    def kep(cls, axis, reverse):
        def h(c):
            import astrodynx as adx
            import vlib.expr as X
            from checks.c07 import reference, size
            st = kstate(c, cls, planar=reverse)
            r, v, mu, rho, al, A, s0 = st
            R = c.rotz(c.num(0)) if reverse else rot(c, axis, c.angle("th"))
            sg = -1 if reverse else 1
            t = any_time(c, cls, mu, rho, A, s0)
            c.hint(c.sqrt(mu))
            c.hint(rho)
            ax = radius_axioms(c, cls, rho, A, s0)
            first = []

            def on1(carry):
                ax(carry)
                first.append(carry)

            def on2(carry):
                if len(first) != 1 or len(first[0]) != len(carry):
                    return None
                out = []
                for a, b in zip(first[0], carry):
                    o = np.empty(b.shape, dtype=object)
                    for i in np.ndindex(b.shape):
                        fl = isinstance(a[i], X.Expr) and a[i].op == "v" and not c.S.isint[c.S.var_atom(a[i].a[0])]
                        o[i] = a[i] * sg if fl else a[i]
                    out.append(o)
                return out
            if not c.symbolic:
                reference(c, cls, t, *st)        # rejects states where Newton does not converge
            r1, v1 = c.call(adx.prop.kepler, c.arr(t), r, v, mu, _loop="havoc", _on_loop=on1)
            r2, v2 = c.call(adx.prop.kepler, c.arr(t * sg), c.matvec(R, r), c.matvec(R, c.arr(*[x * sg for x in v])), mu, _loop="havoc", _on_loop=on2)
            wr, wv = c.matvec(R, r1[0]), c.matvec(R, v1[0])
            for k in range(3):
                c.eq("r", r2[0][k], wr[k], tol=1e-4, **({} if c.symbolic else dict(scale=size(wr))))
                c.eq("v", v2[0][k], sg * wv[k], tol=1e-4, **({} if c.symbolic else dict(scale=size(wv))))
        return h

    def elements(axis, k):
        def h(c):
            import astrodynx as adx
            p, e, i, O, w, f, mu, r, v, W, P, Q = state(c)
            th = c.angle("th")
            R = rot(c, axis, th)
            c.nonzero(c.sin(f))
            a = c.call(adx.rv2coe, r, v, mu)
            b = c.call(adx.rv2coe, c.matvec(R, r), c.matvec(R, v), mu)
            if k == 3:
                c.eq("node", c.cos(b[3]), c.cos(a[3] + th), tol=1e-6, scale=1)
                c.eq("node", c.sin(b[3]), c.sin(a[3] + th), tol=1e-6, scale=1)
            else:
                c.eq("unchanged", b[k], a[k], tol=1e-6, scale=1)
        return h
    hs = []
    for fn in G.table():
        if not fn.rot:
            continue
        for axis in ("z", "m") if fn.rot == "z" else ("x", "y", "z"):
            hs.append(("rot%s_%s" % (axis, fn.name), mk(fn, axis), dict(fork_tmo=150)))
    # for x and y C13 decides it: p, e, f come back for every orientation of the orbit
    for axis in "z":
        for k, nm in enumerate(("p", "e", "incl", "raan", "argp", "anom")):
            hs.append(("rot%s_rv2coe_%s" % (axis, nm), elements(axis, k), dict(fork_tmo=150)))
    for cls in CLS:
        for axis in "xyz":
            hs.append(("rot%s_kepler_%s" % (axis, cls), kep(cls, axis, False), dict(fork_tmo=150, f32=False)))
            for a in (0, 1):
                for b in (0, 1):
                    hs.append(("rot%s_dxdx0_%s_%d%d" % (axis, cls, a, b), stm(cls, axis, (a, b)), dict(fork_tmo=150, f32=False)))
        hs.append(("reverse_kepler_" + cls, kep(cls, "z", True), dict(fork_tmo=150, f32=False)))
    return H(hs)
