"""C17 the integrator receives the stated problem."""
import inspect

from checks.common import REAL, H

EXPLANATION = ("Symbolic execution of the propagators with diffrax.diffeqsolve replaced by a recorder (bound through its real signature): initial and final time, initial state, first step, output schedule, "
               "parameters, and the values of the recorded vector field, event condition and save function at a fresh symbolic (t, x) are compared by z3 with what the caller passed; solver, controller, "
               "step budget and save flags are facts of the trace.")
BOUNDS = "all initial states (length 6 and 7), times, steps, parameters; schedule of three requested times; with and without event, default and caller-supplied solver and controller"
ASSUMPTIONS = REAL + ["diffrax integrates the problem it is given (third-party code, not analysed)"]


class Sentinel:
    pass


def patched(rec):
    import sys
    import diffrax
    real = getattr(diffrax, "_real_diffeqsolve", diffrax.diffeqsolve)
    sig = inspect.signature(real)
    out = Sentinel()

    def fake(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        rec.append(dict(b.arguments))
        return out
    saved = []
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "diffrax" or n.startswith("astrodynx")):
            for k, v in list(vars(m).items()):
                if v is real:
                    saved.append((m, k, v))
                    setattr(m, k, fake)
    return saved, out


def restore(saved):
    for m, k, v in saved:
        setattr(m, k, v)


KW = dict(terms=None, solver=None, t0=0.0, t1=0.0, dt0=None, saveat=None, stepsize_controller=None, max_steps=None)


def same(a, b):
    return a is b or (type(a) is type(b) and repr(a) == repr(b))


def harnesses(tier):
    def mk(which, n=6, event=False, custom=False, defaults=False, dt_none=False, kw=False):
        def h(c):
            import astrodynx as adx
            import diffrax
            import jax.numpy as jnp
            x0, t1 = c.vec("x", n), c.var("t1", rng=(-3, 3))
            dt, ts = c.var("dt", rng=(-2, 2)), c.vec("ts")
            mu, k = c.var("mu", pos=True), c.var("k")
            t, y = c.var("t"), c.vec("y", n)
            facts = {}

            def vf(t, x, args):
                return jnp.stack([args["k"] * t + x[(i + 3) % n] * args["mu"] * (i + 1) for i in range(n)])

            def cond(t, x, args, **kwargs):
                return x[0] * args["mu"] + 2 * x[1] - args["k"] * t

            def cond2(t, x, args, **kwargs):
                return x[1] - args["k"]

            def run(x0, t1, dt, ts, mu, k, t, y):
                args = {"mu": mu, "k": k}
                term = diffrax.ODETerm(vf)
                rf = None
                if custom:
                    import optimistix
                    rf = optimistix.Newton(1e-7, 1e-9)
                ev = diffrax.Event([cond, cond2] if custom else cond, rf, True if custom else None) if event else None
                od = adx.prop.OrbDynx(terms=term, args=args, event=ev) if not (defaults and not event) else adx.prop.OrbDynx(term, args)
                opt = {}
                sv = diffrax.Dopri8(scan_kind="bounded")
                ctl = diffrax.PIDController(rtol=1e-5, atol=3e-7, pcoeff=0.3, icoeff=0.4, dcoeff=0.1, dtmin=1e-6, dtmax=0.25, force_dtmin=False, factormin=0.3, factormax=4.0, safety=0.8)
                if custom:
                    opt["solver"] = sv
                    if which != "fixed_steps":
                        opt["stepsize_controller"] = ctl
                    if which in ("fixed_steps", "adaptive_steps", "cowell_method"):
                        opt["max_steps"] = 777
                f = getattr(adx.prop, which)
                fn = lambda t, x, args: x * args["mu"] + t
                sa = diffrax.SaveAt(t0=True, ts=ts, **(dict(fn=fn) if custom else {}))
                rec = []
                saved, out = patched(rec)
                try:
                    if which == "fixed_steps":
                        res = f(orbdyn=od, x0=x0, t1=t1, dt=dt, **opt) if kw else f(od, x0, t1, dt, **opt)
                    elif which == "custom_steps":
                        res = f(orbdyn=od, x0=x0, t1=t1, ts=ts, **opt) if kw else f(od, x0, t1, ts, **opt)
                    elif which == "cowell_method":
                        if not dt_none:
                            opt["dt0"] = dt
                        res = f(orbdyn=od, x0=x0, t1=t1, saveat=sa, **opt) if kw else f(od, x0, t1, sa, **opt)
                    else:
                        res = f(orbdyn=od, x0=x0, t1=t1, **opt) if kw else f(od, x0, t1, **opt)
                finally:
                    restore(saved)
                import jax
                facts["calls"] = len(rec)
                facts["plain"] = all(rec[0].get(q) is None for q in ("solver_state", "controller_state", "made_jump"))
                facts["returned"] = res is out
                p = rec[0]
                facts.update(solver=p["solver"], ctl=p["stepsize_controller"], max_steps=p["max_steps"], throw=p["throw"],
                             want_solver=sv if custom else diffrax.Tsit5(), want_ctl=ctl if custom else diffrax.PIDController(rtol=1e-8, atol=1e-8))
                if which == "fixed_steps":
                    facts["want_ctl"] = diffrax.ConstantStepSize()
                import jax
                subs = [s for s in jax.tree_util.tree_leaves(p["saveat"].subs, is_leaf=lambda s: isinstance(s, diffrax.SubSaveAt))]
                facts["subs"] = len(subs)
                s = subs[0]
                facts["save"] = dict(t0=bool(s.t0), t1=bool(s.t1), steps=int(s.steps))
                facts["dense"] = bool(p["saveat"].dense)
                facts["has_dt0"] = p["dt0"] is not None
                facts["has_ts"] = s.ts is not None
                facts["has_event"] = p["event"] is not None
                r = dict(t0=jnp.asarray(p["t0"]) + 0.0 * t, t1=jnp.asarray(p["t1"]), y0=p["y0"], vf=p["terms"].vf(t, y, p["args"]), saved=s.fn(t, y, p["args"]))
                if s.ts is not None:
                    r["ts"] = jnp.asarray(s.ts)
                if p["dt0"] is not None:
                    r["dt0"] = jnp.asarray(p["dt0"])
                if p["event"] is not None:
                    cf = p["event"].cond_fn
                    two = list(cf) if isinstance(cf, (list, tuple)) else [cf]
                    facts["event"] = len(two) == (2 if custom else 1) and all(callable(q) for q in two) and same(p["event"].root_finder, rf) and set(jax.tree_util.tree_leaves(p["event"].direction, is_leaf=lambda q: q is None)) == {True if custom else None}
                    r["ev"] = two[0](t, y, p["args"], **KW)
                    if len(two) == 2:
                        r["ev2"] = two[1](t, y, p["args"], **KW)
                r["vf_want"] = vf(t, y, args)
                return r
            run.__name__ = which
            run.__module__ = "astrodynx.prop._cowell_method"
            R = c.call(run, x0, t1, dt, ts, mu, k, t, y)
            F = facts
            c.static("one integration", F["calls"] == 1, "%d calls of the integrator" % F["calls"])
            c.static("solution returned", F["returned"], "the integrator's solution is not returned")
            c.static("solver", same(F["solver"], F["want_solver"]), "solver %r" % (F["solver"],))
            c.static("controller", same(F["ctl"], F["want_ctl"]), "controller %r" % (F["ctl"],))
            c.static("start", F["plain"], "solver or controller state, or jump given")
            c.static("throw", F["throw"] is not False, "integration failures are hidden")
            if which in ("fixed_steps", "adaptive_steps", "cowell_method"):
                c.static("max_steps", F["max_steps"] == (777 if custom else 4096), "max_steps %r" % (F["max_steps"],))
            else:
                c.static("max_steps", F["max_steps"] is None or F["max_steps"] >= 4096, "max_steps %r" % (F["max_steps"],))
            want = {"fixed_steps": (True, False, 1, False), "adaptive_steps": (True, False, 1, False), "custom_steps": (False, False, 0, True),
                    "to_final": (False, True, 0, False), "cowell_method": (True, False, 0, True)}[which]
            got = (F["save"]["t0"], F["save"]["t1"], F["save"]["steps"], F["has_ts"])
            c.static("saveat", F["subs"] == 1 and got == want and not F["dense"], "saved (t0, t1, steps, ts) = %s, %d groups" % (got, F["subs"]))
            c.eq("t0", R["t0"], c.num(0))
            c.eq("t1", R["t1"], t1)
            c.eqv("x0", R["y0"], x0)
            c.eqv("dynamics", R["vf"], R["vf_want"])
            c.eqv("saved state", R["saved"], c.arr(*[q * mu + t for q in y]) if custom and which == "cowell_method" else y)
            if want[3]:
                c.eqv("ts", R["ts"], ts)
            wdt = which == "fixed_steps" or (which == "cowell_method" and not dt_none)
            if wdt:
                c.static("first step", F["has_dt0"], "no first step given")
            else:
                # chosen by the controller, or the one percent of the span the documentation mentions
                c.static("first step", not F["has_dt0"] or which != "cowell_method", "first step invented")
            if F["has_dt0"]:
                c.eq("dt0", R["dt0"], dt if wdt else t1 / 100)
            c.static("event", F["has_event"] == event and (not event or F["event"]), "event handed over: %s" % F["has_event"])
            if event and F["has_event"]:
                c.eq("event", R["ev"], y[0] * mu + 2 * y[1] - k * t)
                if "ev2" in R:
                    c.eq("event", R["ev2"], y[1] - k)
        return h

    def dynx(c):
        """documented defaults of the dynamics record"""
        import astrodynx as adx
        import diffrax
        d = adx.prop.OrbDynx(terms=diffrax.ODETerm(adx.gravity.point_mass_grav))
        c.static("default event", d.event is None, "event %r" % (d.event,))
        c.static("default args", d.args["mu"] == 1.0, "args %r" % (d.args,))
    hs = [("dynx", dynx)]
    for w in ("fixed_steps", "adaptive_steps", "custom_steps", "to_final", "cowell_method"):
        hs += [(w, mk(w, defaults=True)), (w + "_opts", mk(w, custom=True, kw=True)), (w + "_event", mk(w, n=7, event=True)), (w + "_event_opts", mk(w, event=True, custom=True))]
    hs.append(("cowell_method_dt_none", mk("cowell_method", dt_none=True)))
    return H(hs)
