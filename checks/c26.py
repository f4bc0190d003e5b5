"""C26 calls leave no trace."""
from checks.common import REAL, H, CLS
from checks import registry as G
from checks.c17 import patched, restore

EXPLANATION = ("Each public function is executed symbolically three times in one trace - on A, on B (a batch of another shape where the function broadcasts) and on A again - and z3 decides that the first and third results "
               "are equal, and that the second equals the result of a call on B alone; one program calls every function once and then every function again. In-place operations on argument arrays and changes "
               "of argument dictionaries are recorded during the symbolic execution and confirmed with NumPy arguments on the real code.")
BOUNDS = "all inputs A and B; histories of two earlier calls of the same function and of one call of every function; three conic classes; default and explicit parameter dictionaries"
ASSUMPTIONS = REAL

OPS = ("add", "sub", "mul", "truediv", "floordiv", "pow", "mod", "matmul", "and", "or", "xor")


class inplace:
    """records x += y, x -= y, ... where x is one of the traced arguments"""

    def __init__(self, vals):
        self.ids = {id(v): k for k, v in enumerate(vals)}
        self.hit = set()

    def __enter__(self):
        import operator
        from jax._src.core import Tracer
        self.T = Tracer
        self.mine = []
        for n in OPS:
            nm = "__i%s__" % n
            if hasattr(Tracer, nm):
                continue
            op = getattr(operator, n + "_" if n in ("and", "or") else n)

            def f(s, o, op=op):
                if id(s) in self.ids and getattr(s, "ndim", 0):
                    self.hit.add(self.ids[id(s)])
                return op(s, o)
            setattr(Tracer, nm, f)
            self.mine.append(nm)
        return self

    def __exit__(self, *a):
        for nm in self.mine:
            delattr(self.T, nm)


def traced(x):
    from jax._src.core import Tracer
    return isinstance(x, Tracer)


def watched(f, vals, note):
    """calls f and notes which of the argument arrays were modified"""
    import numpy as np
    if any(traced(v) for v in vals):
        with inplace(vals) as w:
            out = f(*vals)
        note.update(w.hit)
        return out
    ws = [np.array(v) if getattr(v, "ndim", 0) else v for v in vals]
    out = f(*ws)
    note.update(k for k, (a, b) in enumerate(zip(ws, vals)) if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True))
    return out


def leaves(x):
    import jax
    import numpy as np
    out = []
    for l in jax.tree_util.tree_leaves(x, is_leaf=lambda y: isinstance(y, np.ndarray)):
        out.extend(np.asarray(l, dtype=object).reshape(-1))
    return out


def agree(c, name, pairs):
    if c.same_lanes(name, pairs):
        return
    ps = pairs(c.call)
    for x, y in ps or ():
        if isinstance(x, bool) or isinstance(y, bool) or getattr(x, "op", "").startswith("b"):
            c.same_bool(name, x, y)
        else:
            c.eq(name, x, y, tol=1e-12)


def solver_fns(adx):
    return {"solve_kepler_elps": adx.solve_kepler_elps, "solve_kepler_hypb": adx.solve_kepler_hypb, "solve_kepler_uni": adx.solve_kepler_uni, "kepler": adx.prop.kepler, "dxdx0": adx.twobody.dxdx0,
            "rotmat3dx": adx.utils.rotmat3dx, "rotmat3dy": adx.utils.rotmat3dy, "rotmat3dz": adx.utils.rotmat3dz}


SOLVERS = {"solve_kepler_elps": ("s", "e"), "solve_kepler_hypb": ("s", "E"), "solve_kepler_uni": ("s", "s", "p", "s", "p"), "kepler": ("t", "v", "v", "p"), "dxdx0": ("v", "v", "v", "v", "s", "p"),
           "rotmat3dx": ("s",), "rotmat3dy": ("s",), "rotmat3dz": ("s",)}


def solver_vals(c, which, sfx):
    out = []
    for k, t in enumerate(SOLVERS[which]):
        n = "%s%d%s" % (t, k, sfx)
        out.append(c.vec(n) if t == "v" else c.vec(n, 2) if t == "t" else c.var(n, pos=True) if t == "p" else c.var(n, rng=(0.1, 0.8)) if t == "e" else 1 + c.var(n, pos=True) if t == "E"
                   else c.var(n, rng=(-1, 1)))
    return out


def harnesses(tier):
    def sequence(c, name, f, A, B):
        n, m = len(A), len(B)
        note = set()

        def g(*v):
            a, b = v[:n], v[n:]
            return watched(f, a, note), watched(f, b, note), watched(f, a, note)
        g.__name__, g.__module__ = getattr(f, "__name__", name), getattr(f, "__module__", "astrodynx")

        def pairs(call):
            x, y, z = call(g, *A, *B)
            w = call(lambda *b: f(*b), *B)
            ps = list(zip(leaves(x), leaves(z)))
            return ps + list(zip(leaves(y), leaves(w)))
        agree(c, "repeat", pairs)
        c.static("arguments untouched", not note, "the call modifies its argument array %s" % sorted(note))

    def values(c, fn, cls, sfx):
        v = [G.value(c, k, nm + sfx if not (k == "al" and cls == "zero") else nm, cls) for nm, k, d in fn.ins]
        G.ell_pre(c, fn, v)
        if fn.pre:
            fn.pre(c, v)
        return v

    def single(fn, cls):
        def h(c):
            import numpy as np
            import astrodynx as adx
            A = values(c, fn, cls, "")
            B = values(c, fn, cls, "_")
            if fn.bc and not fn.cls:
                C = values(c, fn, cls, "__")
                B = [np.stack([x, y]) if k == "v" else (c.arr(x, y).reshape((2, 1)) if fn.vec else c.arr(x, y)) for x, y, (nm, k, d) in zip(B, C, fn.ins)]
            sequence(c, fn.name, fn.get(adx), A, B)
        return h

    def solver(which):
        def h(c):
            import astrodynx as adx
            f = solver_fns(adx)[which]
            A, B = solver_vals(c, which, ""), solver_vals(c, which, "_")
            if which == "kepler":
                B[0] = c.vec("t_", 3)
            if which.startswith("rotmat"):
                B[0] = c.vec("t_", 3, rng=(-9, 9))
            sequence(c, which, f, A, B)
        return h

    def program(c):
        """every function once, then every function again"""
        import astrodynx as adx
        fs = [(fn, fn.get(adx)) for fn in G.table() if fn.name not in ("orb_period_",)]
        fs += [(k, f) for k, f in solver_fns(adx).items()]
        vals, cut = [], []
        for fn, f in fs:
            v = solver_vals(c, fn, "_" + fn) if isinstance(fn, str) else [G.value(c, k, (nm + "_" + fn.name), "pos") for nm, k, d in fn.ins]
            cut.append((len(vals), len(vals) + len(v)))
            vals += v

        def once(v):
            return [f(*v[a:b]) for (fn, f), (a, b) in zip(fs, cut)]

        def prog(*v):
            return once(v), once(v)

        def pairs(call):
            x, y = call(prog, *vals)
            return list(zip(leaves(x), leaves(y)))
        agree(c, "program", pairs)

    def dicts(which, keys):
        """the caller's parameter dictionary and the default one"""
        def h(c):
            import astrodynx as adx
            f = getattr(adx.events if which == "radius_islow" else adx.gravity, which)
            x, t = c.vec("x", 6), c.var("t")
            c.nonzero(c.dot(x[:3], x[:3]))
            ps = [c.var(k, pos=True) for k in keys]
            bad = []

            def g(t, x, *p):
                d0 = f(t, x)
                d = dict(zip(keys, p), other=3.0)
                keep = dict(d)
                first = f(t, x, d)
                if list(d) != list(keep) or any(d[k] is not keep[k] for k in keep):
                    bad.append(sorted(set(map(str, d.items())) ^ set(map(str, keep.items()))))
                return d0, f(t, x), first, f(t, x, dict(zip(keys, p)))
            g.__name__, g.__module__ = which, f.__module__

            def pairs(call):
                o = call(g, t, x, *ps)
                return [q for k in (0, 2) for q in zip(leaves(o[k]), leaves(o[k + 1]))]
            agree(c, "repeat", pairs)
            c.static("dictionary untouched", not bad, "the call changes the caller's dictionary: %s" % bad[:1])
        return h

    def cowell(which):
        """the dynamics record, its parameters and the requested times survive a propagation; a second one hands over the same problem"""
        def h(c):
            import astrodynx as adx
            import diffrax
            import jax.numpy as jnp
            x0, t1, dt, ts = c.vec("x", 6), c.var("t1"), c.var("dt"), c.vec("ts")
            y1, s1, ds, tz = c.vec("y", 6), c.var("s1"), c.var("ds"), c.vec("tz", 4)
            mu = c.var("mu", pos=True)
            note, bad = set(), []

            def run(x0, t1, dt, ts, y1, s1, ds, tz, mu):
                args = {"mu": mu, "k": 2.0}
                od = adx.prop.OrbDynx(terms=diffrax.ODETerm(adx.gravity.point_mass_grav), args=args)
                f = getattr(adx.prop, which)
                rec = []
                saved, _ = patched(rec)

                def one(x, t, d, s):
                    if which == "fixed_steps":
                        watched(lambda x, t, d: f(od, x, t, d), (x, t, d), note)
                    elif which == "custom_steps":
                        watched(lambda x, t, s: f(od, x, t, s), (x, t, s), note)
                    elif which == "cowell_method":
                        sa = diffrax.SaveAt(ts=s)
                        watched(lambda x, t, d: f(od, x, t, sa, dt0=d), (x, t, d), note)
                    else:
                        watched(lambda x, t: f(od, x, t), (x, t), note)
                try:
                    one(x0, t1, dt, ts)
                    one(y1, s1, ds, tz)
                    one(x0, t1, dt, ts)
                finally:
                    restore(saved)
                if set(args) != {"mu", "k"} or args["mu"] is not mu or od.args is not args:
                    bad.append(sorted(args))
                out = []
                for p in (rec[0], rec[2]):
                    out.append([jnp.asarray(p["t0"]) + 0.0 * t1, jnp.asarray(p["t1"]), jnp.asarray(p["y0"]), jnp.asarray(p["dt0"] if p["dt0"] is not None else 0.0) + 0.0 * t1]
                               + [jnp.asarray(s.ts) for s in [p["saveat"].subs] if getattr(s, "ts", None) is not None] + [p["args"]["mu"]])
                return out
            run.__name__, run.__module__ = which, "astrodynx.prop._cowell_method"

            def pairs(call):
                a, b = call(run, x0, t1, dt, ts, y1, s1, ds, tz, mu)
                return list(zip(leaves(a), leaves(b)))
            agree(c, "repeat", pairs)
            c.static("arguments untouched", not note and not bad, "modified: argument %s, parameters %s" % (sorted(note), bad))
        return h
    hs = []
    for fn in G.table():
        for cls in (CLS if fn.cls else (None,)):
            hs.append((fn.name + ("_" + cls if cls else ""), single(fn, cls)))
    hs += [(w, solver(w)) for w in SOLVERS]
    hs.append(("program", program))
    hs += [("point_mass_grav_dict", dicts("point_mass_grav", ["mu"])), ("radius_islow_dict", dicts("radius_islow", ["rmin"]))]
    hs += [("j%d_acc_dict" % n, dicts("j%d_acc" % n, ["mu", "J%d" % n, "R_eq"])) for n in (2, 3, 4)]
    hs += [(w + "_record", cowell(w)) for w in ("fixed_steps", "adaptive_steps", "custom_steps", "to_final", "cowell_method")]
    return H([(n, h, dict(f32=False)) for n, h in hs])
