"""C09 Lagrange coefficients."""
from checks.common import REAL, H, spec_U, alpha_of, CLS

EXPLANATION = ("Symbolic execution of ufunc0..3, lagrange_F/G/Ft/Gt, equ_of_orb_uvi and kepler_equ_uni with symbolic chi, alpha, r0, sigma0, mu; z3 decides F Gt - G Ft = 1, the "
               "values at chi = 0, the time-derivative relations and the radius identities.")
BOUNDS = "all real chi, sigma0; r0, mu > 0; alpha of any sign; radius nonzero; also arbitrary U values for the individual formulas"
ASSUMPTIONS = REAL


def harnesses(tier):
    def setup(c, cls):
        al, A = alpha_of(c, cls)
        return al, A, c.var("r0", pos=True), c.var("s0"), c.var("m", pos=True)

    def coef(c, chi, al, r0, s0, mu):
        import astrodynx as adx
        from astrodynx import twobody as tb
        U = [c.call(getattr(tb, "ufunc%d" % i), chi, al) for i in range(3)]
        r = c.call(adx.equ_of_orb_uvi, U[0], U[1], U[2], r0, s0)
        F = c.call(tb.lagrange_F, U[2], r0)
        G = c.call(tb.lagrange_G, U[1], U[2], s0, r0, mu)
        return U, r, F, G

    def ident(cls):
        def h(c):
            from astrodynx import twobody as tb
            al, A, r0, s0, m = setup(c, cls)
            mu = m * m
            chi = c.var("chi")
            U, r, F, G = coef(c, chi, al, r0, s0, mu)
            c.nonzero(r)
            Ft = c.call(tb.lagrange_Ft, U[1], r, r0, mu)
            Gt = c.call(tb.lagrange_Gt, U[2], r)
            c.eq("wronskian", F * Gt - G * Ft, 1)
            S = spec_U(c, cls, chi, A)
            c.eq("radius", r, r0 * S[0] + s0 * S[1] + S[2])
        return h

    def zero(cls):
        def h(c):
            from astrodynx import twobody as tb
            al, A, r0, s0, m = setup(c, cls)
            mu = m * m
            U, r, F, G = coef(c, c.num(0), al, r0, s0, mu)
            c.eq("F", F, 1)
            c.eq("G", G, 0)
            c.eq("Ft", c.call(tb.lagrange_Ft, U[1], r, r0, mu), 0)
            c.eq("Gt", c.call(tb.lagrange_Gt, U[2], r), 1)
            c.eq("r", r, r0)
        return h

    def ders(cls):
        def h(c):
            import astrodynx as adx
            from astrodynx import twobody as tb
            al, A, r0, s0, m = setup(c, cls)
            mu = m * m
            chi = c.var("chi")
            U, r, F, G = coef(c, chi, al, r0, s0, mu)
            c.nonzero(r)
            dF = c.deriv(lambda x: coef(c, x, al, r0, s0, mu)[2], chi)
            dG = c.deriv(lambda x: coef(c, x, al, r0, s0, mu)[3], chi)
            c.eq("Ft", c.call(tb.lagrange_Ft, U[1], r, r0, mu), dF * m / r, tol=1e-6)
            c.eq("Gt", c.call(tb.lagrange_Gt, U[2], r), dG * m / r, tol=1e-6)
            dk = c.deriv(lambda x: c.call(adx.kepler_equ_uni, x, al, r0, s0, c.num(0), mu), chi)
            c.eq("radius_is_derivative", r, dk, tol=1e-6)
        return h

    def formulas(c):
        """arbitrary U values and general mu"""
        import astrodynx as adx
        from astrodynx import twobody as tb
        U0, U1, U2, s0 = c.var("U0"), c.var("U1"), c.var("U2"), c.var("s0")
        r0, r, mu = c.var("r0", pos=True), c.var("r", pos=True), c.var("mu", pos=True)
        c.eq("F", c.call(tb.lagrange_F, U2, r0), 1 - U2 / r0)
        c.eq("F_default", c.call(tb.lagrange_F, U2), 1 - U2)
        c.eq("G", c.call(tb.lagrange_G, U1, U2, s0, r0, mu), (r0 * U1 + s0 * U2) / c.sqrt(mu))
        c.eq("G_default", c.call(tb.lagrange_G, U1, U2), U1)
        c.eq("Ft", c.call(tb.lagrange_Ft, U1, r, r0, mu), -c.sqrt(mu) * U1 / (r * r0))
        c.eq("Ft_default", c.call(tb.lagrange_Ft, U1, r), -U1 / r)
        c.eq("Gt", c.call(tb.lagrange_Gt, U2, r), 1 - U2 / r)
        c.eq("radius", c.call(adx.equ_of_orb_uvi, U0, U1, U2, r0, s0), r0 * U0 + s0 * U1 + U2)
    return H([("ident_" + k, ident(k)) for k in CLS] + [("zero_" + k, zero(k)) for k in CLS] + [("deriv_" + k, ders(k)) for k in CLS] + [("formulas", formulas)])
