"""C24 integer arguments."""
from checks.common import REAL, H, CLS
from checks import registry as G

EXPLANATION = ("Every public function is traced with integer-typed arguments (all of them, or one with the others arbitrary reals) and with floating-point arguments of the same values; both traces are executed symbolically and z3 decides that all "
               "outputs agree (QF_UF with every operation uninterpreted, else real arithmetic path by path). A truncation to integers inside the code is floor/ceil of the symbolic value.")
BOUNDS = "all integer values in the documented ranges (decided for the real values in between as well); all arguments integer, or exactly one, as scalars and as arrays of two; loops: 4 iterations in lockstep"
ASSUMPTIONS = REAL + ["integer overflow (|value| beyond 2^53) is outside the claim"]


def ival(c, kind, nm, cls):
    I = c.integer
    if kind == "p":
        return I(nm, lo=1)
    if kind == "neg":
        return -I(nm, lo=1)
    if kind == "n":
        return I(nm, lo=0)
    if kind == "ell":
        return I(nm, lo=0, hi=0)
    if kind == "hyp":
        return I(nm, lo=2)
    if kind == "v":
        return c.arr(*[I(nm + a) for a in "xyz"])
    if kind == "x":
        return c.arr(*[I(nm + a) for a in ("x", "y", "z", "u", "v", "w")])
    if kind == "al":
        return {"pos": lambda: I(nm, lo=1), "neg": lambda: -I(nm, lo=1), "zero": lambda: I(nm, lo=0, hi=0)}[cls]()
    return I(nm)


def harnesses(tier):
    def compare(c, f, vals, ints, kinds=None):
        def pairs(call):
            import jax
            leaf = lambda x: not isinstance(x, (tuple, list))
            a = jax.tree_util.tree_leaves(call(f, *vals, _ints=ints), is_leaf=leaf)
            b = jax.tree_util.tree_leaves(call(f, *vals), is_leaf=leaf)
            ps = []
            for x, y in zip(a, b):
                ps.extend(zip(G.flat(x), G.flat(y)))
            return ps
        if c.same_lanes("integer", pairs):
            return
        for x, y in pairs(c.call):
            c.eq("integer", x, y, tol=1e-9)

    def mk(fn, cls, ints):
        def h(c):
            import astrodynx as adx
            f = fn.get(adx)
            vals = [ival(c, kind, nm, cls) if ints is True or k in ints else G.value(c, kind, nm, cls) for k, (nm, kind, d) in enumerate(fn.ins)]
            G.ell_pre(c, fn, vals)
            if fn.pre:
                fn.pre(c, vals)
            compare(c, f, vals, ints)
        return h

    def arr(fn, cls, ints):
        """the integer arguments are arrays of two entries"""
        def h(c):
            import numpy as np
            import astrodynx as adx
            lanes = []
            for j in range(2):
                vals = [ival(c, kind, nm + "_%d" % j, cls) if (ints is True or k in ints) and kind != "al" else G.value(c, kind, nm, cls) for k, (nm, kind, d) in enumerate(fn.ins)]
                G.ell_pre(c, fn, vals)
                if fn.pre:
                    fn.pre(c, vals)
                lanes.append(vals)
            args = []
            for k, (nm, kind, d) in enumerate(fn.ins):
                if kind == "al" or ints is not True and k not in ints:
                    args.append(lanes[0][k])
                elif kind == "v":
                    args.append(np.stack([l[k] for l in lanes]))
                else:
                    a = c.arr(*[l[k] for l in lanes])
                    args.append(a.reshape((2, 1)) if fn.vec else a)
            compare(c, fn.get(adx), args, tuple(k for k, (nm, kind, d) in enumerate(fn.ins) if kind != "al" and (ints is True or k in ints)))
        return h

    def other(which, ints):
        def h(c):
            import astrodynx as adx
            I = c.integer
            if which == "kepler":
                f, vals = adx.prop.kepler, [c.arr(I("t0"), I("t1")), c.arr(I("rx"), I("ry"), I("rz", lo=1)), c.arr(I("vx"), I("vy", lo=1), I("vz")), I("mu", lo=1)]
            elif which == "kepler1":
                f, vals = adx.prop.kepler, [I("t0"), c.arr(I("rx"), I("ry"), I("rz", lo=1)), c.arr(I("vx"), I("vy", lo=1), I("vz")), I("mu", lo=1)]
            elif which == "dxdx0":
                f, vals = adx.twobody.dxdx0, [c.arr(*[I(n + a) for a in "xy"], I(n + "z", lo=1)) for n in "rvqw"] + [I("t"), I("mu", lo=1)]
            elif which == "solve_kepler_uni":
                f, vals = adx.solve_kepler_uni, [I("t"), I("al"), I("r0", lo=1), I("s0"), I("mu", lo=1)]
            elif which == "solve_kepler_elps":
                f, vals = adx.solve_kepler_elps, [I("M"), I("e", lo=0, hi=0)]
            elif which == "solve_kepler_hypb":
                f, vals = adx.solve_kepler_hypb, [I("N"), I("e", lo=2)]
            else:
                f, vals = getattr(adx.utils, which), [I("a")]
            compare(c, f, vals, ints)
        return h
    hs = []
    for fn in G.table():
        for cls in (CLS if fn.cls else (None,)):
            s = "_" + cls if cls else ""
            hs.append((fn.name + s + "_all", mk(fn, cls, True)))
            if len(fn.ins) > 1:
                hs += [("%s%s_%s" % (fn.name, s, fn.ins[k][0]), mk(fn, cls, (k,))) for k in range(len(fn.ins))]
            if fn.bc:
                hs.append((fn.name + s + "_array", arr(fn, cls, True)))
                if len(fn.ins) > 1:
                    hs += [("%s%s_%s_array" % (fn.name, s, fn.ins[k][0]), arr(fn, cls, (k,))) for k in range(len(fn.ins)) if fn.ins[k][1] != "al"]
    for w, n in (("kepler", 4), ("kepler1", 4), ("dxdx0", 6), ("solve_kepler_uni", 5), ("solve_kepler_elps", 2), ("solve_kepler_hypb", 2), ("rotmat3dx", 0), ("rotmat3dy", 0), ("rotmat3dz", 0)):
        hs.append((w + "_all", other(w, True)))
        hs += [("%s_%d" % (w, k), other(w, (k,))) for k in range(n)]
    return H([(n, h, dict(f32=False, fork_tmo=150)) for n, h in hs])
