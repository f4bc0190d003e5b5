"""C18 broadcasting."""
from checks.common import REAL, H, CLS
from checks import registry as G

EXPLANATION = ("Symbolic execution of every broadcasting function on a batch (all arguments batched, exactly one, or two batch axes crossed) and on the corresponding single arguments. z3 (QF_UF, every "
               "floating-point operation uninterpreted, choices as if-then-else) decides that each entry of the batched result equals the single result for that entry; where that is not enough, the entries are "
               "compared path by path in real arithmetic.")
BOUNDS = "batch shapes 1, 2, 3, 2x2 and the crossed shape 2x3 (thorough: also 2x3, 3x2); all values of every entry; reciprocal semimajor axis scalar (declared scalar); prop.kepler over several times is decided in C07"
ASSUMPTIONS = REAL


def harnesses(tier):
    import numpy as np

    def mk(fn, mode, shape, cls):
        def h(c):
            import astrodynx as adx
            f = fn.get(adx)
            n = int(np.prod(shape))
            outer = mode == "outer"
            bat = [k for k, (nm, kind, d) in enumerate(fn.ins) if kind != "al"] if mode in ("all", "outer") else [mode]
            lanes = []
            # outer: even-numbered batched arguments vary along the first axis, odd-numbered along the last
            row = {k: i % 2 for i, k in enumerate(bat)}
            idx = lambda k, j: "" if k not in bat else "_%d" % (j if not outer else j // shape[1] if row[k] == 0 else j % shape[1])
            for j in range(n):
                vals = [G.value(c, kind, nm + idx(k, j), cls) for k, (nm, kind, d) in enumerate(fn.ins)]
                G.ell_pre(c, fn, vals)
                if fn.pre:
                    fn.pre(c, vals)
                lanes.append(vals)
            args = []
            for k, (nm, kind, d) in enumerate(fn.ins):
                if k not in bat:
                    args.append(lanes[0][k])
                elif outer:
                    ls = [lanes[j * shape[1]][k] for j in range(shape[0])] if row[k] == 0 else [lanes[j][k] for j in range(shape[1])]
                    sh = (shape[0], 1) if row[k] == 0 else (shape[1],)
                    a = np.stack(ls) if kind == "v" else c.arr(*ls)
                    args.append(a.reshape(sh + (3,)) if kind == "v" else a.reshape(sh + (1,)) if fn.vec else a.reshape(sh))
                elif kind == "v":
                    args.append(np.stack([l[k] for l in lanes]).reshape(shape + (3,)))
                else:
                    a = c.arr(*[l[k] for l in lanes]).reshape(shape)
                    args.append(a.reshape(shape + (1,)) if fn.vec else a)
            bad = []

            def pairs(call):
                got = G.outs(fn, call(f, *args))
                ps = []
                for j, l in enumerate(lanes):
                    want = G.outs(fn, call(f, *l))
                    for a, b in zip(got, want):
                        b = np.asarray(b, dtype=object)
                        a = np.asarray(a, dtype=object)
                        try:    # a result that does not depend on the batched argument may stay single
                            if shape == (1,) and a.shape == b.shape:
                                raise ValueError
                            a = np.broadcast_to(a, shape + b.shape)
                        except ValueError:
                            bad.append("batched result has shape %s, entries have shape %s" % (a.shape, b.shape))
                            return None
                        ps.extend(zip(G.flat(a.reshape((n,) + b.shape)[j]), G.flat(b)))
                return ps
            if c.same_lanes("entry", pairs):
                return
            for x, y in pairs(c.call) or ():
                c.eq("entry", x, y, tol=1e-9)
            if bad:
                c.static("shape", False, bad[0])
        return h
    hs = []
    for fn in G.table():
        if not fn.bc:
            continue
        for cls in (CLS if fn.cls else (None,)):
            idx = [k for k, (nm, kind, d) in enumerate(fn.ins) if kind != "al"]
            for mode in ["all"] + (idx + ["outer"] if len(idx) > 1 else []):
                shapes = [(2,)]
                if mode == "all":
                    shapes = [(1,), (2,), (3,), (2, 2)]
                elif mode == "outer":
                    shapes = [(2, 3)]
                if tier == "thorough":
                    shapes.append((3, 2) if mode == "outer" else (2, 3))
                for s in shapes:
                    nm = "%s%s_%s_%s" % (fn.name, "_" + cls if cls else "", mode if isinstance(mode, str) else fn.ins[mode][0], "x".join(map(str, s)))
                    hs.append((nm, mk(fn, mode, s, cls), dict(f32=False, fork_tmo=150)))
    return H(hs)
