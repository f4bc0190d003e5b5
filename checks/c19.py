"""C19 jit, vmap and forward-mode differentiation."""
from checks.common import REAL, H, CLS, any_time, kstate, radius_axioms, floats, spec_U
from checks import registry as G
from checks.c13 import state

EXPLANATION = ("Symbolic execution of the real functions under jax.vmap and jax.jit, compared lane by lane with single calls (z3, QF_UF, operations uninterpreted), and of jax.jvp of the real functions, whose "
               "tangents z3 compares, for all inputs and directions, with the exact derivative of the traced operations; for the analytic propagator with the implicit-function derivative of the two-body solution.")
BOUNDS = ("vmap over 2 and 3 lanes, all arguments or one; loops 4 iterations when lanes are compared; derivatives at all inputs where the function is differentiable (the measure-zero exclusions are stated in the "
          "registry preconditions and the recorded findings)")
ASSUMPTIONS = REAL


def forward(f, z, dz):
    import jax
    return jax.jvp(f, z, dz)


def derivatives(tier, tangent):
    """harnesses of the derivatives, obtained from the real functions by tangent(function, arguments, directions)"""
    return harnesses(tier, tangent)


def harnesses(tier, tangent=None):
    import numpy as np
    only = tangent is not None
    tangent = tangent or forward

    def mk_vmap(fn, mode, n, wrap):
        def h(c):
            import jax
            import astrodynx as adx
            f = fn.get(adx)
            ks = list(range(len(fn.ins)))
            bat = ks if mode == "all" else [mode]
            lanes = [[G.value(c, kind, nm + ("_%d" % j if k in bat else ""), "pos") for k, (nm, kind, d) in enumerate(fn.ins)] for j in range(n)]
            for vals in lanes:
                G.ell_pre(c, fn, vals)
                if fn.pre:
                    fn.pre(c, vals)
            args = [(np.stack([l[k] for l in lanes]) if fn.ins[k][1] in "vx" else c.arr(*[l[k] for l in lanes])) if k in bat else lanes[0][k] for k in ks]
            m = jax.vmap(f, in_axes=tuple(0 if k in bat else None for k in ks))
            m.__module__, m.__name__ = f.__module__, f.__name__
            one = jax.jit(f) if wrap else f

            def pairs(call):
                got = G.outs(fn, call(m, *args))
                ps = []
                for j, l in enumerate(lanes):
                    want = G.outs(fn, call(one, *l))
                    for a, b in zip(got, want):
                        ps.extend(zip(G.flat(np.asarray(a, dtype=object)[j]), G.flat(b)))
                return ps
            if c.same_lanes("lane", pairs):
                return
            for x, y in pairs(c.call):
                c.eq("lane", x, y, tol=1e-9)
        return h

    def mk_jvp(fn, cls):
        def h(c):
            import jax
            import astrodynx as adx
            f = fn.get(adx)
            vals = [G.value(c, kind, nm, cls) for nm, kind, d in fn.ins]
            G.ell_pre(c, fn, vals)
            if fn.pre:
                fn.pre(c, vals)
            if fn.dpre:
                fn.dpre(c, vals)
            ds = []
            for nm, kind, d in fn.ins:
                ds.append(c.vec("d" + nm) if kind == "v" else c.vec("d" + nm, 6) if kind == "x" else c.num(0) if kind == "al" and cls == "zero" else c.var("d" + nm, rng=(-1, 1)))

            def J(*z):
                k = len(z) // 2
                return tangent(f, z[:k], z[k:])[1]
            J.__module__, J.__name__ = f.__module__, f.__name__
            got = G.outs(fn, c.call(J, *(vals + ds)))
            want = G.outs(fn, c.exact_jvp(f, vals, ds))
            for a, b in zip(got, want):
                for x, y in zip(G.flat(a), G.flat(b)):
                    c.eq("tangent", x, y, tol=1e-5)
        return h

    def kep_state(c, kind):
        """planar base state, any conic: r = (rho,0,0), v = (vr,vt,0)"""
        if kind == "circ":
            q, m = c.var("q", pos=True), c.var("m", pos=True)
            c.hint(q)
            c.hint(m)
            rho, mu, vr, vt, al, A, s0, cls = q * q, m * m, c.num(0), m / q, 1 / (q * q), 1 / q, c.num(0), "pos"
            return c.arr(rho, 0, 0), c.arr(vr, vt, 0), mu, rho, al, A, s0, cls
        r, v, mu, rho, al, A, s0 = kstate(c, kind, planar=True)
        return r, v, mu, rho, al, A, s0, kind

    def spec_tangent(c, cls, x, t, r, v, mu, rho, al, A, s0, dt, dr, dv, dmu):
        """two-body state at anomaly x and its derivative, the anomaly being the root of Kepler's equation"""
        U = spec_U(c, cls, x, A)
        # dU_n/dalpha = (n U_{n+2} - x U_{n+1}) / 2
        dU = [(n * U[n + 2] - x * U[n + 1]) / 2 for n in range(4)]
        m = c.sqrt(mu)
        dm = dmu / (2 * m)
        drho = c.dot(r, dr) / rho
        dal = -2 * drho / (rho * rho) - 2 * c.dot(v, dv) / mu + c.dot(v, v) * dmu / (mu * mu)
        ds0 = (c.dot(dr, v) + c.dot(r, dv)) / m - s0 * dm / m
        R = rho * U[0] + s0 * U[1] + U[2]
        dFa = rho * dU[1] + s0 * dU[2] + dU[3]
        dx = (m * dt + t * dm - dFa * dal - U[1] * drho - U[2] * ds0) / R
        d0 = -al * U[1] * dx + dU[0] * dal
        d1 = U[0] * dx + dU[1] * dal
        d2 = U[1] * dx + dU[2] * dal
        dR = drho * U[0] + rho * d0 + ds0 * U[1] + s0 * d1 + d2
        F, dF = 1 - U[2] / rho, -d2 / rho + U[2] * drho / (rho * rho)
        n = rho * U[1] + s0 * U[2]
        Gg, dG = n / m, (drho * U[1] + rho * d1 + ds0 * U[2] + s0 * d2) / m - n * dm / (m * m)
        Ft = -m * U[1] / (R * rho)
        dFt = -dm * U[1] / (R * rho) - m * d1 / (R * rho) + m * U[1] * dR / (R * R * rho) + m * U[1] * drho / (R * rho * rho)
        Gt, dGt = 1 - U[2] / R, -d2 / R + U[2] * dR / (R * R)
        r1 = [F * r[i] + Gg * v[i] for i in range(3)]
        v1 = [Ft * r[i] + Gt * v[i] for i in range(3)]
        t1 = [dF * r[i] + F * dr[i] + dG * v[i] + Gg * dv[i] for i in range(3)]
        t2 = [dFt * r[i] + Ft * dr[i] + dGt * v[i] + Gt * dv[i] for i in range(3)]
        return r1, v1, t1, t2, R, U

    def root(c, cls, t, mu, rho, al, A, s0):
        m = c.sqrt(mu)
        chi = m * abs(al) * t
        for k in range(25):
            U = spec_U(c, cls, chi, A)
            d = (rho * U[1] + s0 * U[2] + U[3] - m * t) / (rho * U[0] + s0 * U[1] + U[2])
            chi = chi - d
            if abs(chi) > 40:
                break
            if abs(d) < 1e-25:
                return chi
        c.assume(False)

    def mk_kep(kind, wrt, t0):
        def h(c):
            import jax
            import astrodynx as adx
            r, v, mu, rho, al, A, s0, cls = kep_state(c, kind)
            t = c.num(0) if t0 else any_time(c, cls, mu, rho, A, s0)
            z3v = lambda: c.arr(0, 0, 0)
            dt = c.var("dt", rng=(-1, 1)) if wrt == "t" else c.num(0)
            dr = c.vec("dr", rng=(-1, 1)) if wrt == "r" else z3v()
            dv = c.vec("dv", rng=(-1, 1)) if wrt == "v" else z3v()
            dmu = c.var("dmu", rng=(-1, 1)) if wrt == "mu" else c.num(0)
            if cls == "zero":
                c.hint(c.sqrt(mu))
            which = dict(t=(0, dt), r=(1, dr), v=(2, dv), mu=(3, dmu))[wrt]

            def J(t, r, v, mu, d):
                args = [t, r, v, mu]

                def g(y):
                    b = list(args)
                    b[which[0]] = y
                    return adx.prop.kepler(*b)
                return tangent(g, (args[which[0]],), (d,))
            J.__module__, J.__name__ = "adx.prop", "kepler (jvp)"
            (r1, v1), (t1, t2) = c.call(J, t, r, v, mu, which[1], _loop="havoc", _on_loop=radius_axioms(c, cls, rho, A, s0))
            if c.symbolic:
                cand = [c.num(0)] + [x for ev in c.events for x in floats(c, ev["carry"])]
                import vlib.expr as X
                m = c.sqrt(mu)
                cand.append(m * al * t if cls == "pos" else -m * al * t)
            else:
                cand = [root(c, cls, t, mu, rho, al, A, s0)]
            for x in cand:
                if c.symbolic:
                    U = spec_U(c, cls, x, A)
                    R = rho * U[0] + s0 * U[1] + U[2]
                    if not all(c.zero((1 - U[2] / rho) * r[k] + (rho * U[1] + s0 * U[2]) / c.sqrt(mu) * v[k] - r1[0][k]) for k in range(2)):
                        continue
                    if x in cand[:1] + cand[-1:]:
                        c.axiom(c.gt(R, 0))
                        c.hint(R)
                sz = lambda w: {} if c.symbolic else dict(scale=max(abs(x) for x in w))
                p1, p2, w1, w2, R, U = spec_tangent(c, cls, x, t, r, v, mu, rho, al, A, s0, dt, dr, dv, dmu)
                for k in range(3):
                    c.eq("tangent r", t1[0][k], w1[k], tol=2e-3, **sz(w1))
                    c.eq("tangent v", t2[0][k], w2[k], tol=2e-3, **sz(w2))
                return
            c.fail("tangent r", "the primal is not a Lagrange state of a loop value")
        return h

    def mk_kep_vmap(mode, n, wrap):
        def h(c):
            import jax
            import astrodynx as adx
            if mode == "t":
                ts = c.arr(*[c.var("t%d" % j, rng=(-1.2, 1.2)) for j in range(n)])
            lanes = []
            for j in range(n):
                s = "" if mode in ("t", "ts") else "_%d" % j
                m = c.var("m" + s, pos=True)
                r, v = c.vec("r" + s), c.vec("v" + s)
                c.nonzero(c.dot(r, r))
                lanes.append([c.var("t%d" % j, rng=(-1.2, 1.2)), r, v, m * m])
            f = adx.prop.kepler
            one = jax.jit(f) if wrap else f

            def pairs(call):
                if mode == "ts":
                    got = call(f, c.arr(*[l[0] for l in lanes]), *lanes[0][1:])
                elif mode == "t":
                    m = jax.vmap(f, in_axes=(0, None, None, None))
                    m.__module__, m.__name__ = "adx.prop", "kepler (vmap)"
                    got = call(m, ts, *lanes[0][1:])
                else:
                    m = jax.vmap(f)
                    m.__module__, m.__name__ = "adx.prop", "kepler (vmap)"
                    got = call(m, c.arr(*[l[0] for l in lanes]), np.stack([l[1] for l in lanes]), np.stack([l[2] for l in lanes]), c.arr(*[l[3] for l in lanes]))
                ps = []
                for j, l in enumerate(lanes):
                    want = call(one, *l)
                    for a, b in zip(got, want):
                        ps.extend(zip(G.flat(a[j]), G.flat(b)))
                return ps
            if c.same_lanes("lane", pairs):
                return
            for x, y in pairs(c.call):
                c.eq("lane", x, y, tol=1e-6)
        return h

    def mk_alpha0(n):
        """derivative with respect to alpha at alpha = 0: d U_k / d alpha = -chi^(k+2) / (k+2)!"""
        def h(c):
            import jax
            import math
            import astrodynx as adx
            x, da = c.var("chi", rng=(-2, 2)), c.var("da", rng=(-1, 1))
            D = lambda k: -x ** (k + 2) / math.factorial(k + 2)

            def run(f, *rest):
                def J(x, da, *rest):
                    return tangent(lambda a: f(x, a, *rest), (jax.numpy.zeros_like(x),), (da,))[1]
                J.__module__, J.__name__ = f.__module__, f.__name__
                return c.call(J, x, da, *rest)
            if n < 6:
                c.eq("tangent", run(getattr(adx.twobody, "ufunc%d" % n), ), D(n) * da, tol=1e-6)
                return
            r0, s0, dt, m = c.var("r0", pos=True), c.var("s0", rng=(-1.5, 1.5)), c.var("dt", rng=(-1.5, 1.5)), c.var("m", pos=True)
            if n == 6:
                c.eq("tangent", run(adx.kepler_equ_uni, r0, s0, dt, m * m), (r0 * D(1) + s0 * D(2) + D(3)) * da, tol=1e-6)
            else:
                from astrodynx.twobody._kep_equ import dchi
                c.eq("tangent", run(dchi, r0, s0), (r0 * D(0) + s0 * D(1) + D(2)) * da, tol=1e-6)
        return h

    def mk_rv2coe(k):
        """rates of the elements come back from the rates of the state"""
        def h(c):
            import jax
            import astrodynx as adx
            p, e, i, O, w, f, mu, r, v, W, P, Q = state(c)
            c.nonzero(c.sin(w))
            c.nonzero(c.sin(f))
            ds = [c.var("d" + t, rng=(-1, 1)) for t in ("p", "e", "i", "O", "w", "f", "m")]
            q, m = c.sqrt(p), c.sqrt(mu)
            dp, de, di, dO, dw, df, dm = ds
            cf, sf = c.cos(f), c.sin(f)
            den = 1 + e * cf
            rad, s = p / den, m / q
            drad = dp / den - p * (de * cf - e * sf * df) / (den * den)
            ds_ = dm / q - m * dp / (2 * p * q)
            # the frame turns: d(P,Q) = dw about W, dO about z, di about the node line
            n = c.arr(c.cos(O), c.sin(O), 0)
            z = c.arr(0, 0, 1)
            om = c.arr(*[dO * z[a] + di * n[a] + dw * W[a] for a in range(3)])
            x, y = c.arr(*[cf * P[a] + sf * Q[a] for a in range(3)]), c.arr(*[-sf * P[a] + (e + cf) * Q[a] for a in range(3)])
            dx = [(-sf * P[a] + cf * Q[a]) * df for a in range(3)]
            dy = [-cf * df * P[a] + (de - sf * df) * Q[a] for a in range(3)]
            ox, oy = c.cross(om, x), c.cross(om, y)
            dr = c.arr(*[drad * x[a] + rad * (dx[a] + ox[a]) for a in range(3)])
            dv = c.arr(*[ds_ * y[a] + s * (dy[a] + oy[a]) for a in range(3)])

            def J(r, v, mu, dr, dv, dmu):
                return tangent(lambda *t: adx.rv2coe(*t)[k], (r, v, mu), (dr, dv, dmu))[1]
            J.__module__, J.__name__ = "adx.twobody._orb_elements", "rv2coe"
            c.eq("rate", c.call(J, r, v, mu, dr, dv, 2 * m * dm), ds[k], tol=1e-5)
        return h

    def mk_apsis(k):
        """at apoapsis on the node line (true anomaly and argument of periapsis both pi) the two angles are smooth functions of the state"""
        def h(c):
            import jax
            import astrodynx as adx
            rho, a, b = c.var("rho", pos=True, rng=(1, 3)), c.var("a", rng=(-0.4, 0.4)), c.var("b", pos=True, rng=(0.1, 0.4))
            m = c.var("m", pos=True, rng=(1, 2))
            v2 = a * a + b * b
            mu = m * m
            c.assume(c.lt(rho * v2, mu))        # apoapsis
            d = c.var("d", rng=(-1, 1))
            r, v = c.arr(rho, 0, 0), c.arr(0, a, b)
            # radial velocity d: e turns by dg = h d / (mu e) in the orbit plane, the state stays on the node line
            hh = rho * c.sqrt(v2)
            e = 1 - rho * v2 / mu
            dg = hh * d / (mu * e)

            def J(r, v, mu, d):
                return tangent(lambda vr: adx.rv2coe(r, jax.numpy.stack([vr, v[1], v[2]]), mu)[k], (v[0],), (d,))[1]
            J.__module__, J.__name__ = "adx.twobody._orb_elements", "rv2coe"
            c.eq("rate", c.call(J, r, v, mu, d), dg if k == 4 else -dg, tol=1e-5)
        return h

    hs = []
    for fn in G.table():
        multi = len(fn.ins) > 1
        hs.append(("vmap_%s_all" % fn.name, mk_vmap(fn, "all", 2, True), dict(f32=False)))
        hs.append(("vmap3_%s_all" % fn.name, mk_vmap(fn, "all", 3, False), dict(f32=False)))
        for k, (nm, kind, d) in enumerate(fn.ins if multi else []):
            hs.append(("vmap_%s_%s" % (fn.name, nm), mk_vmap(fn, k, 2, False), dict(f32=False)))
        if any(k == "b" for k, d in fn.outs):
            continue
        if fn.name == "rv2coe":
            continue
        for cls in (CLS if fn.cls else (None,)):
            hs.append(("jvp_%s%s" % (fn.name, "_" + cls if cls else ""), mk_jvp(fn, cls), dict(f32=False, fork_tmo=150)))
    for n in range(8):
        hs.append(("jvp_alpha0_%s" % (("ufunc%d" % n) if n < 6 else ("kepler_equ_uni", "dchi")[n - 6]), mk_alpha0(n), dict(f32=False)))
    for k, nm in enumerate(("p", "e", "incl", "raan", "argp", "anom")):
        hs.append(("jvp_rv2coe_" + nm, mk_rv2coe(k), dict(f32=False, fork_tmo=150, budget=400)))
    for k, nm in ((4, "argp"), (5, "anom")):
        hs.append(("jvp_rv2coe_apoapsis_" + nm, mk_apsis(k), dict(f32=False)))
    for kind in CLS + ("circ",):
        for wrt in ("t", "r", "v", "mu"):
            hs.append(("jvp_kepler_%s_%s" % (kind, wrt), mk_kep(kind, wrt, False), dict(f32=False, fork_tmo=150, budget=300)))
    for wrt in ("t", "r", "v", "mu"):
        hs.append(("jvp_kepler_t0_%s" % wrt, mk_kep("pos", wrt, True), dict(f32=False, fork_tmo=150, budget=300)))
    for mode in ("ts", "t", "all"):
        for n in (2, 3):
            hs.append(("vmap%d_kepler_%s" % (n, mode), mk_kep_vmap(mode, n, n == 2), dict(f32=False)))
    if only:
        hs = [h for h in hs if h[0].startswith("jvp_")]
    return H(hs)
