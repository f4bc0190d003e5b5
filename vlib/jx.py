"""Symbolic execution of jaxprs.  Values are numpy object arrays of Expr (numbers) or B (booleans)."""
import itertools
import numpy as np
from fractions import Fraction
from . import expr as X
from .expr import Expr, B, TRUE, FALSE
from .nf import Unsupported
from .lit import lit_float


class LoopBound(Exception):
    """unrolling bound reached"""


def is_bool_arr(a):
    return a.dtype == object and a.size > 0 and isinstance(a.flat[0], B)


def lift_array(v):
    """concrete array/scalar -> object array of Expr / B"""
    a = np.asarray(v)
    out = np.empty(a.shape, dtype=object)
    if a.dtype == object:
        out[...] = a
        return out
    bits = 32 if a.dtype == np.float32 else 64
    for i in np.ndindex(a.shape):
        x = a[i]
        if a.dtype == bool:
            out[i] = X.b_const(bool(x))
        elif np.issubdtype(a.dtype, np.integer):
            out[i] = X.const(int(x))
        elif np.issubdtype(a.dtype, np.floating) or "float" in str(a.dtype):
            out[i] = lit_float(float(x), bits)
        else:
            raise Unsupported("literal dtype %s" % a.dtype)
    return out


def emap(f, *arrs):
    shp = arrs[0].shape
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        out[i] = f(*[a[i] for a in arrs])
    return out


class Interp:
    def __init__(self, st, loop="unroll", bound=60, hooks=None):
        self.S = st
        self.loop = loop
        self.bound = bound
        self.prims = set()
        self.fresh = 0
        self.events = []      # loop exits: dicts
        self.loop_vars = {}
        self.on_loop = None
        self.count_bound = None   # integer loop counters stay this close to their start
        self.opaque_calls = {}

    # ---------------------------------------------------- scalar ops with IEEE-like specials
    def sgn(self, e):
        """sign of a finite Expr by path decision"""
        if e.op == "c":
            v = e.a[0]
            return (v > 0) - (v < 0)
        if self.S.decide(X.b_eq(e, X.ZERO)):
            return 0
        return 1 if self.S.decide(X.b_gt(e, X.ZERO)) else -1

    def add(self, a, b):
        return X.add(a, b)

    def sub(self, a, b):
        return X.add(a, X.neg(b))

    def mul(self, a, b):
        if X.issp(a) or X.issp(b):
            if a is X.NAN or b is X.NAN:
                return X.NAN
            for x, y in ((a, b), (b, a)):
                if X.issp(y) and not X.issp(x):
                    s = self.sgn(x)
                    return X.NAN if s == 0 else (y if s > 0 else X.neg(y))
        return X.mul(a, b)

    def nonzero(self, b):
        if b.op == "c":
            return b.a[0] != 0
        return not self.S.decide(X.b_eq(b, X.ZERO))

    def div(self, a, b):
        if a is X.NAN or b is X.NAN:
            return X.NAN
        if X.issp(b):
            return X.NAN if X.issp(a) else X.ZERO
        if X.issp(a):
            s = self.sgn(b)
            return a if s >= 0 else X.neg(a)
        if not self.nonzero(b):
            s = self.sgn(a)
            return X.NAN if s == 0 else X.INF if s > 0 else X.NINF
        return X.div(a, b)

    def ipow(self, a, n):
        if n < 0:
            return self.div(X.ONE, self.ipow(a, -n))
        return X.ipow(a, n)

    def sqrt(self, a):
        if X.issp(a):
            return X.fn("sqrt", a)
        if not X.sos(a) and self.S.decide(X.b_gt(X.ZERO, a)):
            return X.NAN
        return X.fn("sqrt", a)

    def log(self, a):
        if X.issp(a):
            return X.fn("log", a)
        if self.S.decide(X.b_gt(a, X.ZERO)):
            return X.fn("log", a)
        return X.NINF if self.S.decide(X.b_eq(a, X.ZERO)) else X.NAN

    def powr(self, a, b):
        """a ** b, b an Expr"""
        if b.op == "c":
            q = b.a[0]
            if q.denominator == 1:
                return self.ipow(a, int(q))
            if q.denominator == 2:
                s = self.sqrt(a)
                return self.ipow(s, int(q * 2))
            if a.op != "c" and not X.issp(a) and q.denominator in (3, 6) or q.denominator % 3 == 0 and abs(q.denominator) < 100:
                if q.denominator == 3:
                    if self.S.decide(X.b_gt(X.ZERO, a)):
                        return X.NAN
                    return self.ipow(X.fn("cbrt", a), int(q * 3))
            # decimal approximations of 1/3, 2/3 produced by python arithmetic
        if X.issp(a) or X.issp(b):
            return X.NAN
        return self.exp(self.mul(b, self.log(a)))

    def exp(self, a):
        return X.fn("exp", a)

    def acos(self, a, name="acos"):
        if X.issp(a):
            return X.NAN
        if self.S.decide(X.b_gt(a, X.ONE)) or self.S.decide(X.b_gt(X.const(-1), a)):
            return X.NAN
        return X.fn(name, a)

    def atan2(self, y, x):
        if X.issp(y) or X.issp(x):
            if y is X.NAN or x is X.NAN or (X.issp(x) and X.issp(y)):
                return X.NAN
            raise Unsupported("atan2 at infinity")
        if y is X.ZERO or (y.op != "c" and self.S.rf_zero(self.S.nf(y))):
            if self.S.decide(X.b_ge(x, X.ZERO)):
                return X.ZERO
            return X.PI
        if not self.nonzero(y):
            return X.ZERO if self.S.decide(X.b_ge(x, X.ZERO)) else X.PI
        return X.fn("atan2", y, x)

    def abs(self, a):
        if X.issp(a):
            return X.NAN if a is X.NAN else X.INF
        return a if self.S.decide(X.b_ge(a, X.ZERO)) else X.neg(a)

    def sinh(self, a):
        if X.issp(a):
            return a
        e = self.exp(a)
        return X.mul(X.const(Fraction(1, 2)), X.add(e, X.neg(self.exp(X.neg(a)))))

    def cosh(self, a):
        if X.issp(a):
            return X.NAN if a is X.NAN else X.INF
        return X.mul(X.const(Fraction(1, 2)), X.add(self.exp(a), self.exp(X.neg(a))))

    def sin(self, a):
        return X.fn("sin", a)

    def cos(self, a):
        return X.fn("cos", a)

    def cmp(self, k, a, b):
        if isinstance(a, B):
            a = X.ONE if self.S.decide(a) else X.ZERO
            b = X.ONE if self.S.decide(b) else X.ZERO
        if a is X.NAN or b is X.NAN:
            return TRUE if k == "ne" else FALSE
        return {"gt": lambda: X.b_gt(a, b), "ge": lambda: X.b_ge(a, b), "lt": lambda: X.b_gt(b, a),
                "le": lambda: X.b_ge(b, a), "eq": lambda: X.b_eq(a, b), "ne": lambda: X.b_not(X.b_eq(a, b))}[k]()

    def num(self, x):
        """bool -> number when needed"""
        if isinstance(x, B):
            return X.ONE if self.S.decide(x) else X.ZERO
        return x

    def maxmin(self, a, b, mx):
        if isinstance(a, B):
            return X.b_or(a, b) if mx else X.b_and(a, b)
        if a is X.NAN or b is X.NAN:
            return X.NAN
        ge = self.S.decide(X.b_ge(a, b))
        return a if ge == mx else b

    # ---------------------------------------------------- jaxpr
    lit = staticmethod(lift_array)

    def run_closed(self, cj, args):
        return self.run(cj.jaxpr, [lift_array(c) for c in cj.consts], args)

    def run(self, jaxpr, consts, args):
        env = {}

        def rd(v):
            if hasattr(v, "val"):
                return self.lit(v.val)
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [rd(v) for v in eqn.invars]
            name = eqn.primitive.name
            self.prims.add(name)
            outs = self.eqn(name, eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if not isinstance(o, np.ndarray) or o.dtype != object:
                    t = np.empty((), dtype=object)
                    t[()] = o
                    o = t
                want = tuple(v.aval.shape) if hasattr(v, "aval") else None
                if want is not None and o.shape != want:
                    raise Unsupported("shape %s: %s != %s" % (name, o.shape, want))
                env[v] = o
        return [rd(v) for v in jaxpr.outvars]

    def eqn(self, name, eqn, ins):
        p = eqn.params
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if h is not None:
            r = h(ins, p, eqn)
            return r if isinstance(r, list) else [r]
        u = UNARY.get(name)
        if u is not None:
            return [emap(lambda a: u(self, self.num(a)), ins[0])]
        if name == "div" and np.issubdtype(eqn.outvars[0].aval.dtype, np.integer):
            x, y = np.broadcast_arrays(ins[0], ins[1])
            def idiv(a, b):
                if a.op != "c" or b.op != "c" or b.a[0] == 0:
                    raise Unsupported("symbolic integer division")
                q = a.a[0] / b.a[0]
                return X.const(int(q))
            return [emap(idiv, x, y)]
        b = BINARY.get(name)
        if b is not None:
            x, y = np.broadcast_arrays(ins[0], ins[1])
            return [emap(lambda s, t: b(self, self.num(s), self.num(t)), x, y)]
        if name in ("gt", "ge", "lt", "le", "eq", "ne"):
            x, y = np.broadcast_arrays(ins[0], ins[1])
            return [emap(lambda s, t: self.cmp(name, s, t), x, y)]
        for k in ("jaxpr", "call_jaxpr", "fun_jaxpr"):
            if k in p:
                cj = p[k]
                if hasattr(cj, "jaxpr"):
                    return self.run_closed(cj, ins)
                return self.run(cj, [], ins)
        raise Unsupported("primitive " + name)

    # structural ------------------------------------------------------------
    def p_and(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        return emap(lambda a, b: self._band(a, b), x, y)

    def _band(self, a, b):
        if isinstance(a, B):
            return X.b_and(a, b)
        if a.op == "c" and b.op == "c":
            return X.const(int(a.a[0]) & int(b.a[0]))
        raise Unsupported("bitwise and")

    def p_or(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        def f(a, b):
            if isinstance(a, B):
                return X.b_or(a, b)
            if a.op == "c" and b.op == "c":
                return X.const(int(a.a[0]) | int(b.a[0]))
            raise Unsupported("bitwise or")
        return emap(f, x, y)

    def p_xor(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        def f(a, b):
            if isinstance(a, B):
                return X.b_not(a) if self.S.decide(b) else a
            if a.op == "c" and b.op == "c":
                return X.const(int(a.a[0]) ^ int(b.a[0]))
            raise Unsupported("bitwise xor")
        return emap(f, x, y)

    def p_not(self, ins, p, eqn):
        def f(a):
            if isinstance(a, B):
                return X.b_not(a)
            if a.op == "c":
                return X.const(~int(a.a[0]))
            raise Unsupported("bitwise not")
        return emap(f, ins[0])

    def p_eq(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        def f(a, b):
            if isinstance(a, B):
                return b if self.S.decide(a) else X.b_not(b)
            return self.cmp("eq", a, b)
        return emap(f, x, y)

    def p_ne(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        def f(a, b):
            if isinstance(a, B):
                return X.b_not(b) if self.S.decide(a) else b
            return self.cmp("ne", a, b)
        return emap(f, x, y)

    def p_is_finite(self, ins, p, eqn):
        return emap(lambda a: X.b_const(not X.issp(a)), ins[0])

    def p_select_n(self, ins, p, eqn):
        w, *cs = ins
        if w.shape == ():
            w = np.broadcast_to(w, cs[0].shape)
        def f(c, *xs):
            # identical alternatives need no decision
            if all(x is xs[0] for x in xs):
                return xs[0]
            if isinstance(c, B):
                return xs[1] if self.S.decide(c) else xs[0]
            return xs[self.index(c, len(xs))]
        return emap(f, w, *cs)

    def index(self, c, n):
        if c.op == "c":
            return min(max(int(c.a[0]), 0), n - 1)
        for k in range(n - 1):
            if self.S.decide(X.b_ge(X.const(k), c)):
                return k
        return n - 1

    def p_clamp(self, ins, p, eqn):
        lo, x, hi = ins
        lo = np.broadcast_to(lo, x.shape)
        hi = np.broadcast_to(hi, x.shape)
        return emap(lambda l, v, h: self.maxmin(self.maxmin(l, v, True), h, False), lo, x, hi)

    def p_broadcast_in_dim(self, ins, p, eqn):
        x = ins[0]
        shape, bd = p["shape"], p["broadcast_dimensions"]
        r = [1] * len(shape)
        for i, d in enumerate(bd):
            r[d] = x.shape[i]
        return np.broadcast_to(x.reshape(r), shape).copy()

    def p_reshape(self, ins, p, eqn):
        return ins[0].reshape(p["new_sizes"])

    def p_squeeze(self, ins, p, eqn):
        return np.squeeze(ins[0], axis=tuple(p["dimensions"]))

    def p_expand_dims(self, ins, p, eqn):
        return np.expand_dims(ins[0], tuple(p["dimensions"]))

    def p_transpose(self, ins, p, eqn):
        return np.transpose(ins[0], p["permutation"])

    def p_rev(self, ins, p, eqn):
        return np.flip(ins[0], tuple(p["dimensions"]))

    def p_slice(self, ins, p, eqn):
        st = p["strides"] or [1] * len(p["start_indices"])
        return ins[0][tuple(slice(a, b, c) for a, b, c in zip(p["start_indices"], p["limit_indices"], st))]

    def p_concatenate(self, ins, p, eqn):
        return np.concatenate(ins, axis=p["dimension"])

    def p_stack(self, ins, p, eqn):
        return np.stack(ins, axis=p.get("axis", p.get("dimension", 0)))

    def p_unstack(self, ins, p, eqn):
        ax = p.get("axis", 0)
        return [np.take(ins[0], i, axis=ax) for i in range(ins[0].shape[ax])]

    def p_split(self, ins, p, eqn):
        sizes = p["sizes"]
        idx = np.cumsum(sizes)[:-1]
        return list(np.split(ins[0], idx, axis=p["axis"]))

    def p_pad(self, ins, p, eqn):
        x, v = ins
        for ax, (lo, hi, inter) in enumerate(p["padding_config"]):
            n = x.shape[ax]
            m = n + max(n - 1, 0) * inter
            shp = list(x.shape)
            shp[ax] = m + lo + hi
            if min(lo, hi) < 0:
                raise Unsupported("negative pad")
            y = np.empty(shp, dtype=object)
            y[...] = v[()]
            sl = [slice(None)] * x.ndim
            sl[ax] = slice(lo, lo + m, inter + 1)
            y[tuple(sl)] = x
            x = y
        return x

    def p_iota(self, ins, p, eqn):
        sh = p["shape"]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = X.const(i[p["dimension"]])
        return out

    def p_convert_element_type(self, ins, p, eqn):
        nd = np.dtype(p["new_dtype"]) if not str(p["new_dtype"]).startswith("float0") else None
        od = eqn.invars[0].aval.dtype
        x = ins[0]
        if nd == bool:
            return emap(lambda a: a if isinstance(a, B) else X.b_not(X.b_eq(a, X.ZERO)), x)
        if od == bool:
            return emap(self.num, x)
        fi = lambda d: np.issubdtype(d, np.floating) or "float" in str(d)
        if fi(od) and np.issubdtype(nd, np.integer):
            def tr(a):
                if a.op == "floor" or a.op == "c" and a.a[0].denominator == 1:
                    return a
                if a.op == "c":
                    v = a.a[0]
                    return X.const(int(v))
                if X.issp(a):
                    raise Unsupported("int of special")
                if self.S.decide(X.b_ge(a, X.ZERO)):
                    return X.fn("floor", a)
                return X.neg(X.fn("floor", X.neg(a)))
            return emap(tr, x)
        if fi(nd) and nd.itemsize < np.dtype(od).itemsize:
            def nr(a):
                if X.issp(a):
                    return a
                if a.op == "c" and (a.a[0].denominator == 1 and abs(a.a[0]) < 2 ** 24):
                    return a
                return X.fn("round32", a)
            return emap(nr, x)
        return x

    def p_reduce_precision(self, ins, p, eqn):
        if p["mantissa_bits"] >= 52:
            return ins[0]
        return emap(lambda a: a if X.issp(a) else X.fn("round32", a), ins[0])

    def _red(self, x, axes, f, init):
        axes = tuple(a % x.ndim for a in axes)
        keep = [i for i in range(x.ndim) if i not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[i] for i in keep] + [-1])
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            acc = init
            for v in y[i]:
                acc = v if acc is None else f(acc, v)
            out[i] = acc
        return out

    def p_reduce_sum(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], lambda a, b: self.add(a, self.num(b)), X.ZERO)

    def p_reduce_prod(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], self.mul, X.ONE)

    def p_reduce_max(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], lambda a, b: self.maxmin(a, b, True), None)

    def p_reduce_min(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], lambda a, b: self.maxmin(a, b, False), None)

    def p_reduce_and(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], X.b_and, TRUE)

    def p_reduce_or(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], X.b_or, FALSE)

    def p_argmax(self, ins, p, eqn):
        return self._arg(ins, p, True)

    def p_argmin(self, ins, p, eqn):
        return self._arg(ins, p, False)

    def _arg(self, ins, p, mx):
        ax, = p["axes"]
        x = np.moveaxis(ins[0], ax, -1)
        out = np.empty(x.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            best = 0
            for k in range(1, x.shape[-1]):
                a, b = x[i][k], x[i][best]
                if isinstance(a, B):
                    a, b = self.num(a), self.num(b)
                if self.S.decide(X.b_gt(a, b) if mx else X.b_gt(b, a)):
                    best = k
            out[i] = X.const(best)
        return out

    def p_cumsum(self, ins, p, eqn):
        return self._cum(ins[0], p, self.add)

    def p_cumprod(self, ins, p, eqn):
        return self._cum(ins[0], p, self.mul)

    def _cum(self, x, p, f):
        y = np.moveaxis(x.copy(), p["axis"], 0)
        rng = range(1, len(y))
        if p.get("reverse"):
            for i in range(len(y) - 2, -1, -1):
                y[i] = emap(f, y[i + 1], y[i])
        else:
            for i in rng:
                t = emap(f, np.atleast_1d(y[i - 1]), np.atleast_1d(y[i]))
                y[i] = t if y.ndim > 1 else t[0]
        return np.moveaxis(y, 0, p["axis"])

    def p_dot_general(self, ins, p, eqn):
        (lc, rc), (lb, rb) = p["dimension_numbers"]
        a, b = ins
        lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
        rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
        A = np.transpose(a, list(lb) + lf + list(lc))
        Bm = np.transpose(b, list(rb) + rf + list(rc))
        bs = [a.shape[i] for i in lb]
        ls = [a.shape[i] for i in lf]
        rs = [b.shape[i] for i in rf]
        nb = len(bs)
        k = 1
        for i in lc:
            k *= a.shape[i]
        A = A.reshape(bs + ls + [k])
        Bm = Bm.reshape(bs + rs + [k])
        out = np.empty(bs + ls + rs, dtype=object)
        for i in np.ndindex(*out.shape):
            bi, li, ri = i[:nb], i[nb:nb + len(ls)], i[nb + len(ls):]
            acc = X.ZERO
            for j in range(k):
                acc = self.add(acc, self.mul(self.num(A[bi + li + (j,)]), self.num(Bm[bi + ri + (j,)])))
            out[i] = acc
        return out

    def p_gather(self, ins, p, eqn):
        x, idx = ins
        ii = np.empty(idx.shape, dtype=object)
        for t in np.ndindex(idx.shape):
            if idx[t].op != "c":
                raise Unsupported("symbolic gather")
            ii[t] = int(idx[t].a[0])
        # run the real gather on an index map
        import jax
        lin = np.arange(x.size, dtype=np.int64).reshape(x.shape)
        import jax.numpy as jnp
        prm = dict(p)
        try:
            r = np.asarray(eqn.primitive.bind(jnp.asarray(lin), jnp.asarray(ii.astype(np.int64)), **prm))
        except Exception as e:
            raise Unsupported("gather: %s" % e)
        fl = x.reshape(-1)
        out = np.empty(r.shape, dtype=object)
        for t in np.ndindex(r.shape):
            if not (0 <= r[t] < x.size):
                raise Unsupported("gather out of range")
            out[t] = fl[int(r[t])]
        return out

    def p_dynamic_slice(self, ins, p, eqn):
        x, *st = ins
        sl = []
        for d, (s, n) in enumerate(zip(st, p["slice_sizes"])):
            s = s[()]
            if s.op != "c":
                raise Unsupported("symbolic dynamic_slice")
            k = min(max(int(s.a[0]), 0), x.shape[d] - n)
            sl.append(slice(k, k + n))
        return x[tuple(sl)]

    def p_dynamic_update_slice(self, ins, p, eqn):
        x, u, *st = ins
        x = x.copy()
        sl = []
        for d, s in enumerate(st):
            s = s[()]
            if s.op != "c":
                raise Unsupported("symbolic dynamic_update_slice")
            k = min(max(int(s.a[0]), 0), x.shape[d] - u.shape[d])
            sl.append(slice(k, k + u.shape[d]))
        x[tuple(sl)] = u
        return x

    def p_scatter(self, ins, p, eqn):
        return self._scatter(ins, p, eqn, None)

    def p_scatter_add(self, ins, p, eqn):
        return self._scatter(ins, p, eqn, self.add)

    def p_scatter_mul(self, ins, p, eqn):
        return self._scatter(ins, p, eqn, self.mul)

    def _scatter(self, ins, p, eqn, comb):
        x, idx, u = ins
        ii = np.zeros(idx.shape, dtype=np.int64)
        for t in np.ndindex(idx.shape):
            if idx[t].op != "c":
                raise Unsupported("symbolic scatter")
            ii[t] = int(idx[t].a[0])
        import jax
        import jax.numpy as jnp
        # where does update k land: scatter k+1 into zeros
        if u.size > 4096:
            raise Unsupported("scatter size")
        x = x.copy()
        fx = x.reshape(-1)
        fu = u.reshape(-1)
        for k in range(u.size):
            e = np.zeros(u.size)
            e[k] = 1
            r = np.asarray(jax.lax.scatter_add(jnp.zeros(x.shape), jnp.asarray(ii), jnp.asarray(e.reshape(u.shape)), p["dimension_numbers"], mode=p.get("mode")))
            for j in np.nonzero(r.reshape(-1))[0]:
                fx[j] = fu[k] if comb is None else comb(fx[j], fu[k])
        return fx.reshape(x.shape)

    def p_sort(self, ins, p, eqn):
        if p.get("num_keys", 1) != 1 or len(ins) != 1 or ins[0].ndim != 1:
            raise Unsupported("sort")
        l = list(ins[0])
        for i in range(len(l)):
            for j in range(len(l) - 1 - i):
                if self.S.decide(X.b_gt(l[j], l[j + 1])):
                    l[j], l[j + 1] = l[j + 1], l[j]
        out = np.empty(len(l), dtype=object)
        out[:] = l
        return out

    def p_copy(self, ins, p, eqn):
        return ins[0]

    def p_integer_pow(self, ins, p, eqn):
        return emap(lambda a: self.ipow(self.num(a), p["y"]), ins[0])

    def p_custom_jvp_call(self, ins, p, eqn):
        return self.run_closed(p["call_jaxpr"], ins)

    def p_custom_vjp_call(self, ins, p, eqn):
        k = "call_jaxpr" if "call_jaxpr" in p else "fun_jaxpr"
        return self.run_closed(p[k], ins)

    def p_custom_vjp_call_jaxpr(self, ins, p, eqn):
        return self.run_closed(p["fun_jaxpr"], ins)

    def p_empty2(self, ins, p, eqn):
        """uninitialised residual of a branch not taken: an arbitrary value"""
        out = np.empty((), dtype=object)
        out[()] = self.new_var("undef")
        return out

    def p_custom_root(self, ins, p, eqn):
        cl, js = p["const_lengths"], p["jaxprs"]
        i = cl.f
        sc = ins[i:i + cl.solve]
        i += cl.solve + cl.l_and_s
        return self.run_closed(js.solve, sc + ins[i:])

    def p_call_hi_primitive(self, ins, p, eqn):
        """a primitive defined by its expansion (custom_root and the like)"""
        import jax
        pr = p["_prim"]

        def f(*xs):
            return jax.tree_util.tree_leaves(pr.expand(*jax.tree_util.tree_unflatten(pr.in_tree, xs)))
        avs = [jax.ShapeDtypeStruct(v.aval.shape, v.aval.dtype, weak_type=getattr(v.aval, "weak_type", False)) for v in eqn.invars]
        return self.run_closed(jax.make_jaxpr(f)(*avs), ins)

    def p_cond(self, ins, p, eqn):
        br = p["branches"]
        c = ins[0][()]
        if isinstance(c, B):
            k = 1 if self.S.decide(c) else 0
        else:
            k = self.index(c, len(br))
        return self.run_closed(br[k], ins[1:])

    # loops ------------------------------------------------------------------
    def new_var(self, tag, isint=False):
        self.fresh += 1
        n = "%s!%d" % (tag, self.fresh)
        if isint:
            i = self.S.var_atom(n)
            self.S.isint[i] = True
            self.S.has_floor = True
            self.S.z3v.pop(i, None)
        return X.var(n)

    def havoc_like(self, arr, aval, tag):
        isint = np.issubdtype(aval.dtype, np.integer)
        if aval.dtype == bool:
            out = np.empty(arr.shape, dtype=object)
            for i in np.ndindex(arr.shape):
                out[i] = X.b_gt(self.new_var(tag + "b"), X.ZERO)
            return out
        out = np.empty(arr.shape, dtype=object)
        for i in np.ndindex(arr.shape):
            out[i] = self.new_var(tag, isint)
        return out

    def truth(self, bs):
        return self.S.decide(bs[0][()])

    def p_while(self, ins, p, eqn):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, init = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        cond = lambda c: self.run_closed(cj, cc + c)
        body = lambda c: self.run_closed(bj, bc + c)
        avals = [v.aval for v in bj.jaxpr.invars[bn:]]
        const_c = [bj.jaxpr.outvars[i] is bj.jaxpr.invars[bn + i] for i in range(len(init))]
        mode = self.loop(p, eqn) if callable(self.loop) else self.loop
        bshape = tuple(cj.out_avals[0].shape)     # batched predicate (vmap of while_loop): lanes stop independently
        lanes = list(np.ndindex(bshape))
        if mode == "unroll":
            c = list(init)
            act = {l: True for l in lanes}
            for k in range(self.bound + 1):
                pr = cond(c)[0]
                act = {l: act[l] and self.S.decide(pr[l]) for l in lanes}
                if not any(act.values()):
                    self.events.append({"loop": "exit", "iters": k, "carry": c})
                    return c
                if k == self.bound:
                    raise LoopBound()
                c = self.lane_select(act, body(c), c)
        hav = lambda tag: [init[i] if const_c[i] else self.havoc_like(init[i], avals[i], tag) for i in range(len(init))]
        if mode == "havoc":
            c = hav("L")
            if self.on_loop:
                c = self.on_loop(c) or c
            self.events.append({"loop": "havoc", "carry": c, "init": init})
            return c
        if mode == "exit":
            # each lane: zero iterations, or an arbitrary last iteration
            from .nf import Infeasible
            zero = {}
            for l in lanes:
                zero[l] = self.S.decide(X.b_gt(self.new_var("path"), X.ZERO))
            if any(zero.values()):
                pr = cond(list(init))[0]
                for l in lanes:
                    if zero[l] and self.S.decide(pr[l]):
                        raise Infeasible()
            if all(zero.values()):
                self.events.append({"loop": "exit0", "carry": list(init), "init": init})
                if self.on_loop:
                    self.on_loop(list(init))
                return list(init)
            c = hav("L")
            self.havoc_facts(c, avals, init, bj, bn)
            if self.on_loop:
                self.on_loop(c)
            pr = cond(c)[0]
            for l in lanes:
                if not zero[l] and not self.S.decide(pr[l]):
                    raise Infeasible()
            n = body(c)
            if self.on_loop:
                self.on_loop(n)
            pr = cond(n)[0]
            for l in lanes:
                if not zero[l] and self.S.decide(pr[l]):
                    raise Infeasible()
            out = self.lane_select({l: not z for l, z in zero.items()}, n, list(init))
            self.events.append({"loop": "exitN", "carry": out, "prev": c, "init": init})
            return out
        raise Unsupported("loop mode")

    def lane_select(self, act, new, old):
        if len(act) == 1 and () in act:
            return new if act[()] else old
        out = []
        nb = len(next(iter(act)))
        for a, b in zip(new, old):
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                o[i] = a[i] if act[i[:nb]] else b[i]
            out.append(o)
        return out

    def havoc_facts(self, c, avals, init, bj, bn):
        """integer carries that only ever increase from their initial value stay >= it"""
        for i, a in enumerate(avals):
            if np.issubdtype(a.dtype, np.integer) and self.count_bound is not None:
                for k in np.ndindex(a.shape):
                    v0 = init[i][k]
                    if v0.op == "c":
                        self.S.assume(X.b_ge(c[i][k], X.add(v0, X.lift(-self.count_bound))))
                        self.S.assume(X.b_ge(X.add(v0, X.lift(self.count_bound)), c[i][k]))

    def p_scan(self, ins, p, eqn):
        nc, nk = scan_split(p)
        L, rev = p["length"], p["reverse"]
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        bj = p["jaxpr"]
        avals = [v.aval for v in bj.jaxpr.invars[nc:nc + nk]]
        mode = self.loop(p, eqn) if callable(self.loop) else self.loop
        nys = len(bj.jaxpr.outvars) - nk
        if mode != "unroll" and L > 6 and nys == 0:
            const_c = [bj.jaxpr.outvars[i] is bj.jaxpr.invars[nc + i] for i in range(nk)]
            c = [carry[i] if const_c[i] else self.havoc_like(carry[i], avals[i], "L") for i in range(nk)]
            self.events.append({"loop": "havoc", "carry": c, "init": carry})
            return c
        ys = [[] for _ in range(nys)]
        order = range(L - 1, -1, -1) if rev else range(L)
        for t in order:
            outs = self.run_closed(bj, consts + carry + [np.asarray(x[t], dtype=object) if x[t].__class__ is not np.ndarray else x[t] for x in xs])
            carry = outs[:nk]
            for k in range(nys):
                ys[k].append(outs[nk + k])
        res = []
        for k in range(nys):
            l = ys[k][::-1] if rev else ys[k]
            res.append(np.stack(l) if l else np.empty((0,), dtype=object))
        return carry + res


def scan_split(p):
    """numbers of constants and of carried values of a scan"""
    if "num_consts" in p:
        return p["num_consts"], p["num_carry"]
    consts, carry, _ = p["ft_in"].unpack()
    return len(consts), len(carry)


def _f(name):
    return lambda I, a: getattr(I, name)(a)


def _half(I, a):
    return a


UNARY = {
    "neg": lambda I, a: X.neg(a),
    "sqrt": _f("sqrt"), "sin": _f("sin"), "cos": _f("cos"), "sinh": _f("sinh"), "cosh": _f("cosh"),
    "rsqrt": lambda I, a: I.div(X.ONE, I.sqrt(a)),
    "cbrt": lambda I, a: X.fn("cbrt", a),
    "exp": _f("exp"), "exp2": lambda I, a: I.powr(X.TWO, a), "log": _f("log"), "abs": _f("abs"),
    "expm1": lambda I, a: I.sub(I.exp(a), X.ONE),
    "log1p": lambda I, a: I.log(I.add(a, X.ONE)),
    "tan": lambda I, a: I.div(I.sin(a), I.cos(a)),
    "tanh": lambda I, a: I.div(I.sinh(a), I.cosh(a)),
    "acos": lambda I, a: I.acos(a), "asin": lambda I, a: I.acos(a, "asin"),
    "atan": lambda I, a: X.fn("atan", a),
    "asinh": lambda I, a: a if X.issp(a) else I.log(I.add(a, I.sqrt(I.add(I.mul(a, a), X.ONE)))),
    "acosh": lambda I, a: a if X.issp(a) else I.log(I.add(a, I.sqrt(I.sub(I.mul(a, a), X.ONE)))),
    "atanh": lambda I, a: I.mul(X.const(Fraction(1, 2)), I.log(I.div(I.add(X.ONE, a), I.sub(X.ONE, a)))),
    "floor": lambda I, a: a if X.issp(a) else X.fn("floor", a),
    "ceil": lambda I, a: a if X.issp(a) else X.neg(X.fn("floor", X.neg(a))),
    "round": lambda I, a: a if X.issp(a) else X.fn("floor", X.add(a, X.const(Fraction(1, 2)))),
    "sign": lambda I, a: a if X.issp(a) and a is X.NAN else (X.ONE if a is X.INF else X.const(-1) if a is X.NINF else X.const(I.sgn(a))),
    "square": lambda I, a: I.mul(a, a), "one_minus_square": lambda I, a: I.sub(X.ONE, I.mul(a, a)),
    "real": lambda I, a: a, "stop_gradient": lambda I, a: a, "optimization_barrier": lambda I, a: a,
    "device_put": lambda I, a: a, "copy_p": lambda I, a: a,
}


def _rem(I, a, b):
    """C-style remainder a - b*trunc(a/b)"""
    if a.op == "c" and b.op == "c":
        import math
        q = a.a[0] / b.a[0]
        t = int(q) if q >= 0 else -int(-q)
        return X.const(a.a[0] - b.a[0] * t)
    q = I.div(a, b)
    if X.issp(q):
        return X.NAN
    t = X.fn("floor", q) if I.S.decide(X.b_ge(q, X.ZERO)) else X.neg(X.fn("floor", X.neg(q)))
    return I.sub(a, I.mul(b, t))


BINARY = {
    "add": lambda I, a, b: I.add(a, b), "add_any": lambda I, a, b: I.add(a, b), "sub": lambda I, a, b: I.sub(a, b),
    "mul": lambda I, a, b: I.mul(a, b), "div": lambda I, a, b: I.div(a, b),
    "max": lambda I, a, b: I.maxmin(a, b, True), "min": lambda I, a, b: I.maxmin(a, b, False),
    "pow": lambda I, a, b: I.powr(a, b), "atan2": lambda I, a, b: I.atan2(a, b), "rem": _rem,
    "nextafter": lambda I, a, b: a,
}
