"""Public functions with the kind and physical dimension (length, time exponents) of every argument and result.

kinds of arguments: s real, p positive, n nonnegative, ell eccentricity in [0,1), hyp eccentricity > 1, ecc eccentricity >= 0 (not 1),
a angle, v vector, al reciprocal semimajor axis (one conic class at a time), x state of length 6
kinds of results: s scalar, v vector, m 3x3 matrix, b predicate, a angle"""
from fractions import Fraction as F

MU, LEN, TIM, VEL, ACC, NON, SQ = (3, -2), (1, 0), (0, 1), (1, -1), (1, -2), (0, 0), (F(1, 2), 0)
HH, IL, IT = (2, -1), (-1, 0), (0, -1)


class Fn:
    def __init__(self, name, get, ins, outs, pre=None, bc=False, vec=False, cls=False, opts=None, rot=False, scale=True, dpre=None):
        self.name, self.get, self.ins, self.outs, self.pre, self.bc, self.vec, self.cls, self.opts, self.rot, self.scale, self.dpre = name, get, ins, outs, pre, bc, vec, cls, opts or {}, rot, scale, dpre


def grav(name, J):
    def get(adx):
        f = getattr(adx.gravity, name)

        def g(x, mu, *jr):
            args = {"mu": mu}
            if jr:
                args[J] = jr[0]
                args["R_eq"] = jr[1]
            return f(0.0, x, args)
        g.__module__, g.__name__ = f.__module__, f.__name__
        return g
    return get


def event(adx):
    def g(x, rmin):
        return adx.events.radius_islow(0.0, x, {"rmin": rmin})
    g.__module__, g.__name__ = "astrodynx.events.radius", "radius_islow"
    return g


def nz_r(*idx):
    def pre(c, a):
        for i in idx:
            c.nonzero(c.dot(a[i][:3], a[i][:3]))
    return pre


def noncirc(i, j, k=None):
    """state whose element formulas are regular: not circular, not equatorial, not rectilinear, apses and nodes not at the state"""
    def pre(c, a):
        r, v = a[i], a[j]
        mu = a[k] if k is not None else c.num(1)
        h = c.cross(r, v)
        c.nonzero(c.dot(r, r))
        c.nonzero(h[0] * h[0] + h[1] * h[1])
        R = c.norm(r)
        vh = c.cross(v, h)
        e = c.arr(*[vh[n] / mu - r[n] / R for n in range(3)])
        c.nonzero(c.dot(e, e))
        hn = c.norm(h)
        c.axiom(c.gt(hn, h[2]))     # sqrt(x^2 + y^2 + z^2) > |z| for (x, y) != 0
        c.axiom(c.gt(hn, -h[2]))
    return pre


def get(path):
    def f(adx):
        o = adx
        for p in path.split("."):
            o = getattr(o, p)
        return o
    return f


def dchi(adx):
    from astrodynx.twobody._kep_equ import dchi as d
    return d


def table():
    T = []

    def add(name, ins, outs, path=None, **kw):
        T.append(Fn(name, path if callable(path) else get(path or name), ins, outs, **kw))
    r, v = ("r", "v", LEN), ("v", "v", VEL)
    mu = ("mu", "p", MU)
    # orbit integrals
    add("orb_period", [("a", "p", LEN), mu], [("s", TIM)], bc=True)
    add("a_from_period", [("P", "p", TIM), mu], [("s", LEN)], bc=True)
    add("angular_momentum", [r, v], [("v", HH)], bc=True, vec=True, rot=True)
    add("semimajor_axis", [("R", "p", LEN), ("V", "n", VEL), mu], [("s", LEN)], bc=True, pre=lambda c, a: c.nonzero(2 / a[0] - a[1] * a[1] / a[2]))
    add("eccentricity_vector", [r, v, mu], [("v", NON)], bc=True, vec=True, rot=True, pre=nz_r(0))
    add("semiparameter", [("h", "s", HH), mu], [("s", LEN)], bc=True)
    add("mean_motion", [("P", "p", TIM)], [("s", IT)], bc=True)
    cpos = lambda c, a: c.nonzero(1 + a[1] * c.cos(a[2]))
    add("equ_of_orbit", [("p", "p", LEN), ("e", "n", NON), ("f", "a", NON)], [("s", LEN)], bc=True, pre=cpos)
    add("equ_of_orb_uvi", [("U0", "s", NON), ("U1", "s", SQ), ("U2", "s", LEN), ("r0", "p", LEN), ("s0", "s", SQ)], [("s", LEN)], bc=True)
    add("radius_periapsis", [("p", "p", LEN), ("e", "n", NON)], [("s", LEN)], bc=True)
    add("radius_apoapsis", [("p", "p", LEN), ("e", "ell", NON)], [("s", LEN)], bc=True)
    ne1 = lambda c, a: c.nonzero(1 - a[1] * a[1])
    add("semipara_from_ae", [("a", "s", LEN), ("e", "n", NON)], [("s", LEN)], bc=True)
    add("a_from_pe", [("p", "p", LEN), ("e", "n", NON)], [("s", LEN)], bc=True, pre=ne1)
    # elements
    add("inclination", [("h", "v", HH)], [("a", NON)], bc=True, vec=True, pre=nz_r(0), dpre=lambda c, a: c.nonzero(a[0][0] * a[0][0] + a[0][1] * a[0][1]))
    add("true_anomaly", [r, ("ev", "v", NON)], [("a", NON)], bc=True, vec=True, rot=True, pre=lambda c, a: c.nonzero(c.dot(c.cross(a[0], a[1]), c.cross(a[0], a[1]))))
    add("right_ascension", [("N", "v", HH)], [("a", NON)], bc=True, vec=True, pre=lambda c, a: c.nonzero(a[0][0] * a[0][0] + a[0][1] * a[0][1]))
    add("argument_of_periapsis", [("N", "v", HH), ("ev", "v", NON)], [("a", NON)], bc=True, vec=True, pre=lambda c, a: c.nonzero(c.dot(c.cross(a[0], a[1]), c.cross(a[0], a[1]))))
    add("rv2coe", [r, v, mu], [("s", LEN), ("s", NON), ("a", NON), ("a", NON), ("a", NON), ("a", NON)], bc=True, vec=True, pre=noncirc(0, 1, 2))
    add("coe2rv", [("p", "p", LEN), ("e", "n", NON), ("i", "a", NON), ("O", "a", NON), ("w", "a", NON), ("f", "a", NON), mu], [("v", LEN), ("v", VEL)], bc=True,
        pre=lambda c, a: c.nonzero(1 + a[1] * c.cos(a[5])))
    # Lagrange coefficients
    add("lagrange_F", [("U2", "s", LEN), ("r0", "p", LEN)], [("s", NON)], "twobody.lagrange_F", bc=True)
    add("lagrange_G", [("U1", "s", SQ), ("U2", "s", LEN), ("s0", "s", SQ), ("r0", "p", LEN), mu], [("s", TIM)], "twobody.lagrange_G", bc=True)
    add("lagrange_Ft", [("U1", "s", SQ), ("R", "p", LEN), ("r0", "p", LEN), mu], [("s", IT)], "twobody.lagrange_Ft", bc=True)
    add("lagrange_Gt", [("U2", "s", LEN), ("R", "p", LEN)], [("s", NON)], "twobody.lagrange_Gt", bc=True)
    # universal functions
    add("sigma_fn", [r, v, mu], [("s", SQ)], "twobody.sigma_fn", bc=True, vec=True, rot=True)
    for n in range(6):
        add("ufunc%d" % n, [("chi", "s", SQ), ("al", "al", IL)], [("s", (F(n, 2), 0))], "twobody.ufunc%d" % n, bc=True, cls=True)
    # Kepler equations
    add("kepler_equ_elps", [("E", "s", NON), ("e", "ell", NON), ("M", "s", NON)], [("s", NON)], bc=True)
    add("kepler_equ_hypb", [("H", "s", NON), ("e", "hyp", NON), ("N", "s", NON)], [("s", NON)], bc=True)
    add("dE", [("E", "s", NON), ("e", "ell", NON)], [("s", NON)], bc=True)
    add("dH", [("H", "s", NON), ("e", "hyp", NON)], [("s", NON)], bc=True)
    add("mean_anomaly_elps", [("a", "p", LEN), ("dt", "s", TIM), mu], [("s", NON)], bc=True)
    add("mean_anomaly_hypb", [("a", "neg", LEN), ("dt", "s", TIM), mu], [("s", NON)], bc=True)
    add("kepler_equ_uni", [("chi", "s", SQ), ("al", "al", IL), ("r0", "p", LEN), ("s0", "s", SQ), ("dt", "s", TIM), mu], [("s", (F(3, 2), 0))], bc=True, cls=True)
    add("dchi", [("chi", "s", SQ), ("al", "al", IL), ("r0", "p", LEN), ("s0", "s", SQ)], [("s", LEN)], dchi, cls=True)
    add("generalized_anomaly", [("al", "s", IL), ("s1", "s", SQ), ("s0", "s", SQ), ("dt", "s", TIM), mu], [("s", SQ)], bc=True)
    # transition matrix
    q, w = ("q", "v", LEN), ("w", "v", VEL)
    C = ("C", "s", (1, 1))
    nzs = nz_r(0, 2)
    add("C_func", [("chi", "s", SQ), ("U2", "s", LEN), ("U4", "s", (2, 0)), ("U5", "s", (F(5, 2), 0)), ("dt", "s", TIM), mu], [("s", (1, 1))], "twobody.C_func")
    add("prpr0", [r, v, q, w, ("F", "s", NON), C, mu], [("m", NON)], "twobody.prpr0", rot=True, pre=nzs)
    add("prpv0", [r, v, q, w, ("F", "s", NON), ("G", "s", TIM), C, mu], [("m", TIM)], "twobody.prpv0", rot=True, pre=nzs)
    add("pvpr0", [r, v, q, w, ("Ft", "s", IT), C, mu], [("m", IT)], "twobody.pvpr0", rot=True, pre=nzs)
    add("pvpv0", [r, v, q, w, ("F", "s", NON), ("Gt", "s", NON), C, mu], [("m", NON)], "twobody.pvpv0", rot=True, pre=nzs)
    # path checks
    add("nmax_by_periapsis", [("rp", "p", LEN), ("r1", "p", LEN), ("r2", "p", LEN), ("tof", "n", TIM), mu], [("s", NON)], "twobody.nmax_by_periapsis")
    add("is_short_way", [r, v, ("q", "v", LEN)], [("b", NON)], "twobody.is_short_way", rot=True)
    add("pass_perigee", [r, v, ("q", "v", LEN), mu], [("b", NON)], "twobody.pass_perigee", rot=True, pre=nz_r(0))
    add("rp_islower_rmin", [("rmin", "p", LEN), r, v, mu], [("b", NON)], "twobody.rp_islower_rmin", rot=True, pre=nz_r(1))
    # forces and events
    x = ("x", "x", None)
    add("point_mass_grav", [x, mu], [("v", ACC)], grav("point_mass_grav", None), rot=True, pre=nz_r(0))
    for n in (2, 3, 4):
        add("j%d_acc" % n, [x, mu, ("J", "s", NON), ("Req", "p", LEN)], [("v", ACC)], grav("j%d_acc" % n, "J%d" % n), rot="z", pre=nz_r(0))
    add("radius_islow", [x, ("rmin", "p", LEN)], [("s", LEN)], event, rot=True, dpre=nz_r(0))
    return T


def value(c, kind, name, cls=None):
    if kind == "s":
        return c.var(name, rng=(-1.6, 1.6))
    if kind == "p":
        if name.startswith("mu"):
            m = c.var("m" + name[2:], pos=True)
            c.hint(m)
            return m * m
        return c.var(name, pos=True)
    if kind == "neg":
        return -c.var(name, pos=True)
    if kind == "n":
        return c.var(name, nonneg=True, rng=(0, 2.2))
    if kind == "ell":
        return c.var(name, nonneg=True, hi=None, rng=(0, 0.95))
    if kind == "hyp":
        return 1 + c.var(name, pos=True)
    if kind == "a":
        return c.angle(name)
    if kind == "v":
        return c.vec(name)
    if kind == "x":
        return c.vec(name, 6)
    if kind == "al":
        if cls == "zero":
            return c.num(0)
        A = c.var("A" + name[2:], pos=True)
        c.hint(A)
        return A * A if cls == "pos" else -A * A
    raise KeyError(kind)


def ell_pre(c, fn, vals):
    for (n, k, d), x in zip(fn.ins, vals):
        if k == "ell":
            c.assume(c.lt(x, 1))


def flat(x):
    import numpy as np
    return list(np.asarray(x, dtype=object).reshape(-1))


def outs(fn, res):
    return list(res) if isinstance(res, (tuple, list)) else [res]
