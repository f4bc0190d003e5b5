"""C20 independence of units."""
from checks.common import REAL, H, CLS, any_time, kstate, radius_axioms, spec_U
from checks import registry as G
from checks.c13 import state

EXPLANATION = ("Every public function is executed symbolically twice, on arbitrary arguments and on the same arguments in other units (lengths times L, times times T, mu times L^3/T^2, each argument by its "
               "physical dimension); z3 decides that every output is the first one times the power of L and T of its dimension, predicates and angles unchanged. The propagator is compared at an arbitrary "
               "anomaly, scaled by sqrt(L).")
BOUNDS = "all inputs, all L, T > 0; propagator: any number of iterations, arbitrary final anomaly"
ASSUMPTIONS = REAL


def fac(l, T, dim):
    a, b = dim
    a = int(2 * a)
    f = 1
    f = f * l ** a if a >= 0 else f / l ** (-a)
    return f * T ** b if b >= 0 else f / T ** (-b)


def factors(c):
    l, T = c.var("sl", pos=True, rng=(0.6, 1.7)), c.var("sT", pos=True, rng=(0.5, 2))
    c.hint(l)
    c.hint(T)
    return l, T


def harnesses(tier):
    def mk(fn, cls):
        def h(c):
            import astrodynx as adx
            f = fn.get(adx)
            l, T = factors(c)
            vals = [G.value(c, kind, nm, cls) for nm, kind, d in fn.ins]
            G.ell_pre(c, fn, vals)
            if fn.pre:
                fn.pre(c, vals)
            sc = []
            for x, (nm, kind, d) in zip(vals, fn.ins):
                if kind == "x":
                    sc.append(c.arr(*([fac(l, T, G.LEN) * t for t in x[:3]] + [fac(l, T, G.VEL) * t for t in x[3:]])))
                elif kind == "v":
                    sc.append(c.arr(*[fac(l, T, d) * t for t in x]))
                else:
                    sc.append(x * fac(l, T, d))
                if nm == "mu":
                    c.hint(c.sqrt(x) * l ** 3 / T)
                if kind == "al" and cls != "zero":
                    c.hint(c.sqrt(x if cls == "pos" else -x) / l)
            if fn.outs[0][0] == "b" or fn.name.startswith("nmax"):
                c.settled(f, vals)
                c.settled(f, sc)
            a = G.outs(fn, c.call(f, *vals))
            b = G.outs(fn, c.call(f, *sc))
            for (kind, d), x, y in zip(fn.outs, a, b):
                k = fac(l, T, d) if kind != "b" else None
                for s, t in zip(G.flat(x), G.flat(y)):
                    if kind == "b":
                        c.same_bool("predicate", s, t)
                    elif kind == "a":
                        c.eq("angle", t, s, tol=1e-6, scale=1)
                    else:
                        c.eq("scaled", t, s * k, tol=1e-6)
        return h

    def stm(cls, which):
        def h(c):
            import astrodynx as adx
            l, T = factors(c)
            st = kstate(c, cls, planar=True)
            q, w, mu, rho, al, A, s0 = st
            r, v = c.vec("r"), c.vec("v")
            c.nonzero(c.dot(r, r))
            t = c.var("t", rng=(-1.2, 1.2))
            m = c.sqrt(mu)
            for x in (m, m * l ** 3 / T, rho, rho * l * l):
                c.hint(x)
            if not c.symbolic and cls != "zero":
                c.assume(abs(al) > 0.05)
            c.moderate(5, al * m * t + c.dot(r, v) / m - s0)
            S = lambda x, d: c.arr(*[fac(l, T, d) * y for y in x])
            M = c.call(adx.twobody.dxdx0, r, v, q, w, t, mu)
            N = c.call(adx.twobody.dxdx0, S(r, G.LEN), S(v, G.VEL), S(q, G.LEN), S(w, G.VEL), t * T, mu * fac(l, T, G.MU))
            k = [[1, T], [1 / T, 1]][which[0]][which[1]]
            for i in range(3):
                for j in range(3):
                    c.eq("scaled", N[which[0] * 3 + i, which[1] * 3 + j], M[which[0] * 3 + i, which[1] * 3 + j] * k, tol=1e-6)
        return h

    def kep(cls):
        def h(c):
            import astrodynx as adx
            import numpy as np
            import vlib.expr as X
            from checks.c07 import reference, size
            l, T = factors(c)
            st = kstate(c, cls, planar=True)
            r, v, mu, rho, al, A, s0 = st
            t = any_time(c, cls, mu, rho, A, s0)
            m = c.sqrt(mu)
            for x in (m, m * l ** 3 / T):
                c.hint(x)
            ax = radius_axioms(c, cls, rho, A, s0)
            first = []

            def on1(carry):
                ax(carry)
                first.append(carry)

            def on2(carry):
                if len(first) != 1 or len(first[0]) != len(carry):
                    return None
                out = []
                for a, b in zip(first[0], carry):
                    o = np.empty(b.shape, dtype=object)
                    for i in np.ndindex(b.shape):
                        fl = isinstance(a[i], X.Expr) and a[i].op == "v" and not c.S.isint[c.S.var_atom(a[i].a[0])]
                        o[i] = a[i] * l if fl else a[i]
                    out.append(o)
                return out
            S = lambda x, d: c.arr(*[fac(l, T, d) * y for y in x])
            r1, v1 = c.call(adx.prop.kepler, c.arr(t), r, v, mu, _loop="havoc", _on_loop=on1)
            if not c.symbolic:
                reference(c, cls, t, *st)        # rejects states where Newton does not converge
                A2, k2 = (A / l if A is not None else None), fac(l, T, G.LEN)
                reference(c, cls, t * T, S(r, G.LEN), S(v, G.VEL), mu * fac(l, T, G.MU), rho * k2, al / k2, A2, s0 * l)
            r2, v2 = c.call(adx.prop.kepler, c.arr(t * T), S(r, G.LEN), S(v, G.VEL), mu * fac(l, T, G.MU), _loop="havoc", _on_loop=on2)
            for k in range(3):
                kr, kv = ({}, {}) if c.symbolic else (dict(scale=size(r2[0]) + size(r1[0]) * fac(l, T, G.LEN)), dict(scale=size(v2[0]) + size(v1[0]) * fac(l, T, G.VEL)))
                c.eq("r", r2[0][k], r1[0][k] * fac(l, T, G.LEN), tol=1e-3, **kr)
                c.eq("v", v2[0][k], v1[0][k] * fac(l, T, G.VEL), tol=1e-3, **kv)
        return h
    def elements(k):
        def h(c):
            import astrodynx as adx
            l, T = factors(c)
            p, e, i, O, w, f, mu, r, v, W, P, Q = state(c)
            c.nonzero(c.sin(w))
            c.nonzero(c.sin(f))
            S = lambda x, d: c.arr(*[fac(l, T, d) * y for y in x])
            m, q = c.sqrt(mu), c.sqrt(p)
            for x in (m * l ** 3 / T, q * l, m * l * l / (q * T) * l, p * l * l / (1 + e * c.cos(f))):
                c.hint(x)
            a = c.call(adx.rv2coe, r, v, mu)
            b = c.call(adx.rv2coe, S(r, G.LEN), S(v, G.VEL), mu * fac(l, T, G.MU))
            if k == 0:
                c.eq("scaled", b[0], a[0] * l * l, tol=1e-6)
            else:
                c.eq("angle" if k > 1 else "scaled", b[k], a[k], tol=1e-6, scale=1)
        return h
    hs = []
    for k, nm in enumerate(("p", "e", "incl", "raan", "argp", "anom")):
        hs.append(("scale_rv2coe_" + nm, elements(k), dict(fork_tmo=150)))
    for fn in G.table():
        if fn.name == "rv2coe":
            continue
        for cls in (CLS if fn.cls else (None,)):
            hs.append(("scale_%s%s" % (fn.name, "_" + cls if cls else ""), mk(fn, cls), dict(fork_tmo=150)))
    for cls in CLS:
        hs.append(("scale_kepler_" + cls, kep(cls), dict(fork_tmo=150, f32=False)))
        for a in (0, 1):
            for b in (0, 1):
                hs.append(("scale_dxdx0_%s_%d%d" % (cls, a, b), stm(cls, (a, b)), dict(fork_tmo=150, f32=False)))
    return H(hs)
