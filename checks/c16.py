"""C16 radius event."""
from checks.common import REAL, H

EXPLANATION = "Symbolic execution of events.radius_islow; z3 decides value = |x[:3]| - rmin and sign equivalence for every time, state, rmin and extra keyword."
BOUNDS = "state length 3, 6, 7; all real states, times, rmin"
ASSUMPTIONS = REAL


def harnesses(tier):
    def mk(L, kw):
        def h(c):
            import astrodynx as adx
            x, t, rm = c.vec("x", L), c.var("t"), c.var("rmin")
            kws = {"terms": None, "solver": c.var("q")} if kw else {}
            args = {"rmin": rm, "mu": c.var("mu")}
            v = c.call(adx.events.radius_islow, t, x, args, **kws)
            r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
            c.eq("value", v, c.sqrt(r2) - rm)
            below = c.or_(c.and_(c.gt(rm, 0), c.lt(r2, rm * rm)))
            c.iff("negative_iff_below", c.lt(v, 0), below)
        return h

    def dflt(c):
        import astrodynx as adx
        x, t = c.vec("x", 6), c.var("t")
        v = c.call(adx.events.radius_islow, t, x)
        c.eq("default_rmin", v, c.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]))
    return H([("len%d" % L, mk(L, False)) for L in (3, 6, 7)] + [("kwargs", mk(6, True)), ("default", dflt)])
