"""C23 omitted arguments and argument names."""
from checks.common import REAL, H, CLS, kstate
from checks import registry as G

EXPLANATION = ("Every public function is executed symbolically three times on arbitrary values: arguments by position, by documented name in reversed order, and with each trailing subset of optional arguments omitted "
               "against the documented value given explicitly; the outputs are compared (identical jaxprs, else z3 on the outputs).")
BOUNDS = "all inputs; every optional argument of every public function; three conic classes where the function branches on the conic"
ASSUMPTIONS = REAL

# documented argument names in order, and documented values of the trailing optional arguments
MU = {"mu": 1}
SIG = {
    "orb_period": ("a mu", MU), "a_from_period": ("orbperiod mu", MU), "angular_momentum": ("pos_vec vel_vec", {}), "semimajor_axis": ("r_mag v_mag mu", MU),
    "eccentricity_vector": ("pos_vec vel_vec mu", MU), "semiparameter": ("h_mag mu", MU), "mean_motion": ("P", {}), "equ_of_orbit": ("p e f", {}),
    "equ_of_orb_uvi": ("U0 U1 U2 r0 sigma0", {}), "radius_periapsis": ("p e", {}), "radius_apoapsis": ("p e", {}), "semipara_from_ae": ("a e", {}), "a_from_pe": ("p e", {}),
    "inclination": ("h_vec", {}), "true_anomaly": ("pos_vec e_vec", {}), "right_ascension": ("node_vec", {}), "argument_of_periapsis": ("node_vec e_vec", {}),
    "rv2coe": ("pos_vec vel_vec mu", MU), "coe2rv": ("p e incl raan argp true_anom mu", MU),
    "lagrange_F": ("U2 r0_mag", {"r0_mag": 1}), "lagrange_G": ("U1 U2 sigma0 r0_mag mu", {"sigma0": 0, "r0_mag": 1, "mu": 1}),
    "lagrange_Ft": ("U1 r_mag r0_mag mu", {"r0_mag": 1, "mu": 1}), "lagrange_Gt": ("U2 r_mag", {}), "sigma_fn": ("pos_vec vel_vec mu", MU),
    "kepler_equ_elps": ("E e M", {"M": 0}), "kepler_equ_hypb": ("H e N", {"N": 0}), "dE": ("E e", {}), "dH": ("H e", {}),
    "mean_anomaly_elps": ("a deltat mu", MU), "mean_anomaly_hypb": ("a deltat mu", MU),
    "kepler_equ_uni": ("chi alpha r0 sigma0 deltat mu", {"alpha": 1, "r0": 1, "sigma0": 0, "deltat": 0, "mu": 1}),
    "generalized_anomaly": ("alpha sigma sigma0 deltat mu", {"deltat": 0, "mu": 1}),
    "C_func": ("chi U2 U4 U5 deltat mu", {"deltat": 3.14, "mu": 1}),
    "prpr0": ("r_vec v_vec r0_vec v0_vec F C mu", MU), "prpv0": ("r_vec v_vec r0_vec v0_vec F G C mu", MU),
    "pvpr0": ("r_vec v_vec r0_vec v0_vec Ft C mu", MU), "pvpv0": ("r_vec v_vec r0_vec v0_vec F Gt C mu", MU),
    "nmax_by_periapsis": ("rp_min r1 r2 tof mu", {"rp_min": 0.97, "r1": 1.0, "r2": 1.0, "tof": 3.141592653589793, "mu": 1}),
    "is_short_way": ("r1 v1 r2", {}), "pass_perigee": ("r1 v1 r2 mu", MU), "rp_islower_rmin": ("rmin r v mu", MU),
}
for n in range(6):
    SIG["ufunc%d" % n] = ("chi alpha", {})


def harnesses(tier):
    def mk(fn, cls, kind, k=0):
        names, dflt = SIG[fn.name]
        names = names.split()

        def h(c):
            import astrodynx as adx
            f = fn.get(adx)
            vals = [G.value(c, kd, nm, cls) for nm, kd, d in fn.ins]
            G.ell_pre(c, fn, vals)
            if fn.pre:
                fn.pre(c, vals)
            if kind == "names":
                order = list(range(len(names)))[::-1]
                c.same_trace(fn.name, lambda *a: f(*a), lambda *a: f(**{names[i]: a[i] for i in order}), tuple(vals))
                return
            m = len(names) - k
            d = [dflt[x] for x in names[m:]]
            c.same_trace(fn.name, lambda *a: f(*a[:m]), lambda *a: f(*a[:m], *d), tuple(vals[:m]))
        return h

    def solver(which, kind, k=0):
        sig = {"solve_kepler_elps": ("M e tol max_iter", {"tol": 1e-6, "max_iter": 20}), "solve_kepler_hypb": ("N e tol max_iter", {"tol": 1e-6, "max_iter": 50}),
               "solve_kepler_uni": ("deltat alpha r0 sigma0 mu tol max_iter", {"mu": 1, "tol": 1e-6, "max_iter": 50}),
               "kepler": ("ts r0_vec v0_vec mu", {"mu": 1.0}), "dxdx0": ("r_vec v_vec r0_vec v0_vec deltat mu", {"deltat": 3.14, "mu": 1})}[which]
        names, dflt = sig[0].split(), sig[1]

        def h(c):
            import astrodynx as adx
            f = getattr(adx.prop if which == "kepler" else adx.twobody if which == "dxdx0" else adx, which)
            if which == "kepler":
                vals = [c.vec("t", 2), c.vec("r"), c.vec("v"), c.var("mu", pos=True)]
            elif which == "dxdx0":
                vals = [c.vec("r"), c.vec("v"), c.vec("q"), c.vec("w"), c.var("t"), c.var("mu", pos=True)]
            elif which == "solve_kepler_uni":
                vals = [c.var("t"), c.var("alpha", pos=True), c.var("r0", pos=True), c.var("s0", rng=(-0.3, 0.3)), c.var("mu", pos=True), c.var("tol", pos=True), 3]
            else:
                vals = [c.var("M"), c.var("e", rng=(0.1, 0.9)) if which.endswith("elps") else 1 + c.var("e", pos=True), c.var("tol", pos=True), 3]
            fixed = [] if which in ("kepler", "dxdx0") else [3]
            dyn = vals[:len(vals) - len(fixed)]
            if kind == "names":
                c.same_trace(which, lambda *a: f(*a, *fixed), lambda *a: f(**dict(reversed(list(zip(names, a + tuple(fixed)))))), tuple(dyn))
                return
            m = len(names) - k
            d = [dflt[x] for x in names[m:]]
            c.same_trace(which, lambda *a: f(*a), lambda *a: f(*a, *d), tuple(vals[:m]))
        return h

    def force(which, J):
        def h(c):
            import astrodynx as adx
            f = getattr(adx.gravity, which)
            x, t = c.vec("x", 6), c.var("t")
            c.nonzero(c.dot(x[:3], x[:3]))
            d = {"mu": 1.0}
            if J:
                d.update({J: 0.0, "R_eq": 1.0})
            c.same_trace(which, lambda t, x: f(t, x), lambda t, x: f(t, x, d), (t, x))
            c.same_trace(which, lambda t, x: f(t, x, d), lambda t, x: f(args=d, x=x, t=t), (t, x))
            # parameters of other models in the same dictionary do not matter
            big = dict(d, rmin=0.3, J2=0.1, J3=0.2, J4=0.3, other=2.0)
            if J:
                big[J] = d[J]
            else:
                big["R_eq"] = 7.0
            c.same_trace(which, lambda t, x: f(t, x, d), lambda t, x: f(t, x, big), (t, x))
        return h

    def event(c):
        import astrodynx as adx
        f = adx.events.radius_islow
        x, t = c.vec("x", 6), c.var("t")
        c.same_trace("radius_islow", lambda t, x: f(t, x), lambda t, x: f(t, x, {"rmin": 0.0}), (t, x))
        c.same_trace("radius_islow", lambda t, x: f(t, x, {"rmin": 0.5}), lambda t, x: f(args={"rmin": 0.5, "mu": 3.0}, x=x, t=t, y=x, terms=None), (t, x))
    hs = []
    for fn in G.table():
        if fn.name not in SIG:
            continue
        opt = len(SIG[fn.name][1])
        for cls in (CLS if fn.cls else (None,)):
            s = "_" + cls if cls else ""
            hs.append((fn.name + s + "_names", mk(fn, cls, "names")))
            for k in range(1, opt + 1):
                hs.append(("%s%s_omit%d" % (fn.name, s, k), mk(fn, cls, "omit", k)))
    for w, k in (("solve_kepler_elps", 2), ("solve_kepler_hypb", 2), ("solve_kepler_uni", 3), ("kepler", 1), ("dxdx0", 2)):
        hs.append((w + "_names", solver(w, "names")))
        for j in range(1, k + 1):
            hs.append(("%s_omit%d" % (w, j), solver(w, "omit", j)))
    hs += [("point_mass_grav_args", force("point_mass_grav", None))] + [("j%d_acc_args" % n, force("j%d_acc" % n, "J%d" % n)) for n in (2, 3, 4)] + [("radius_islow_args", event)]
    return H([(n, h, dict(f32=False)) for n, h in hs])
