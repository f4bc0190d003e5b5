"""Comparison of two computations of the real code with every floating-point operation left uninterpreted.

Values are Expr terms; data-dependent choices become if-then-else terms, so there are no paths.  Two outputs are equal in QF_UF means: the code
performs the same operations on the same entries, for all values of the inputs (NaN and infinities included) and whatever the operations compute.
Only facts that hold for every IEEE number are built in: + and * commute, x*1 = x, x+0 = x, x/1 = x, operations on literals."""
import numpy as np
import time
from . import expr as X
from .expr import Expr, B, mk
from .jx import Interp, emap, lift_array, UNARY, BINARY
from .nf import Unsupported

T, F = mk("bT"), mk("bF")


def bnot(a):
    return F if a is T else T if a is F else a.a[0] if a.op == "bnot" else mk("bnot", a)


def band(a, b):
    if a is F or b is F:
        return F
    if a is T:
        return b
    if b is T or a is b:
        return a
    return mk("band", a, b) if a.id <= b.id else mk("band", b, a)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def ite(c, a, b):
    if a is b or c is T:
        return a
    if c is F:
        return b
    if a is T and b is F:
        return c
    if a is F and b is T:
        return bnot(c)
    if c.op == "bnot":
        return mk("ite", c.a[0], b, a)
    return mk("ite", c, a, b)


def comm(op, a, b):
    return mk(op, a, b) if a.id <= b.id else mk(op, b, a)


def uadd(a, b):
    if a.op == "c" and b.op == "c":
        return X.const(a.a[0] + b.a[0])
    if a is X.ZERO:
        return b
    if b is X.ZERO:
        return a
    return comm("add", a, b)


def uneg(a):
    if a.op in ("c", "sp"):
        return X.neg(a)
    return a.a[0] if a.op == "neg" else mk("neg", a)


def umul(a, b):
    if a.op == "c" and b.op == "c":
        return X.const(a.a[0] * b.a[0])
    if a is X.ONE:
        return b
    if b is X.ONE:
        return a
    return comm("mul", a, b)


def udiv(a, b):
    if a.op == "c" and b.op == "c" and b.a[0] != 0:
        return X.const(a.a[0] / b.a[0])
    if b is X.ONE:
        return a
    return mk("div", a, b)


def cmp(k, a, b):
    if k in ("lt", "le"):
        return cmp({"lt": "gt", "le": "ge"}[k], b, a)
    if k == "ne":
        return bnot(cmp("eq", a, b))
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        return T if {"gt": x > y, "ge": x >= y, "eq": x == y}[k] else F
    if k == "eq" and b.id < a.id:
        a, b = b, a
    return mk("b" + k, a, b)


def isb(e):
    return e.op in ("bT", "bF", "bnot", "band", "bgt", "bge", "beq", "bfin")or e.op == "ite" and isb(e.a[1])


class Euf(Interp):
    def __init__(self, steps=4):
        Interp.__init__(self, None)
        self.steps = steps

    def lift(self, v):
        return emap(lambda x: (T if x.k == "T" else F) if isinstance(x, B) else x, lift_array(v))

    def run_closed(self, cj, args):
        return self.run(cj.jaxpr, [self.lift(c) for c in cj.consts], args)

    def lit(self, v):
        return self.lift(v)

    add = staticmethod(uadd)
    mul = staticmethod(umul)
    div = staticmethod(udiv)

    def sub(self, a, b):
        return uadd(a, uneg(b))

    def num(self, x):
        return ite(x, X.ONE, X.ZERO) if isb(x) else x

    def cmp(self, k, a, b):
        return cmp(k, a, b)

    def maxmin(self, a, b, mx):
        if isb(a):
            return bor(a, b) if mx else band(a, b)
        if a.op == "c" and b.op == "c":
            return a if (a.a[0] >= b.a[0]) == mx else b
        return comm("max" if mx else "min", a, b)

    def ipow(self, a, n):
        if n == 1:
            return a
        if n == 2:
            return umul(a, a)
        if a.op == "c" and n >= 0:
            return X.const(a.a[0] ** n)
        if n == 0:
            return X.ONE
        return mk("ipow", a, n)

    def uf(self, name, *a):
        if all(x.op == "c" for x in a):
            r = X.fn(name, *a) if name in ("sqrt", "sin", "cos", "exp", "log", "floor") else None
            if r is not None and r.op == "c":
                return r
        return mk(name, *a)

    def eqn(self, name, eqn, ins):
        isint = lambda: np.issubdtype(eqn.outvars[0].aval.dtype, np.integer)
        if not hasattr(self, "p_" + name):
            if name in ("stop_gradient", "optimization_barrier", "device_put", "real"):
                return [ins[0]]
            if name == "neg":
                return [emap(uneg, ins[0])]
            if name == "square":
                return [emap(lambda a: umul(a, a), ins[0])]
            if name in UNARY:
                return [emap(lambda a: self.uf(name, self.num(a)), ins[0])]
            if name in ("add", "add_any", "sub", "mul", "div", "max", "min", "pow", "atan2", "rem", "nextafter"):
                x, y = np.broadcast_arrays(ins[0], ins[1])
                if name == "div" and isint():
                    return Interp.eqn(self, name, eqn, ins)
                f = {"add": uadd, "add_any": uadd, "sub": self.sub, "mul": umul, "div": udiv, "max": lambda a, b: self.maxmin(a, b, True),
                     "min": lambda a, b: self.maxmin(a, b, False)}.get(name) or (lambda a, b: self.uf(name, a, b))
                return [emap(f, x, y)]
        return Interp.eqn(self, name, eqn, ins)

    def _bit(self, ins, fb, fi):
        x, y = np.broadcast_arrays(*ins)

        def f(a, b):
            if isb(a):
                return fb(a, b)
            if a.op == "c" and b.op == "c":
                return X.const(fi(int(a.a[0]), int(b.a[0])))
            raise Unsupported("bitwise")
        return emap(f, x, y)

    def p_and(self, ins, p, eqn):
        return self._bit(ins, band, lambda a, b: a & b)

    def p_or(self, ins, p, eqn):
        return self._bit(ins, bor, lambda a, b: a | b)

    def p_xor(self, ins, p, eqn):
        return self._bit(ins, lambda a, b: ite(a, bnot(b), b), lambda a, b: a ^ b)

    def p_not(self, ins, p, eqn):
        return emap(lambda a: bnot(a) if isb(a) else X.const(~int(a.a[0])), ins[0])

    def p_eq(self, ins, p, eqn):
        x, y = np.broadcast_arrays(*ins)
        return emap(lambda a, b: ite(a, b, bnot(b)) if isb(a) else cmp("eq", a, b), x, y)

    def p_ne(self, ins, p, eqn):
        return emap(bnot, self.p_eq(ins, p, eqn))

    def p_is_finite(self, ins, p, eqn):
        return emap(lambda a: T if a.op == "c" else F if a.op == "sp" else mk("bfin", a), ins[0])

    def p_select_n(self, ins, p, eqn):
        w, *cs = ins
        if w.shape == ():
            w = np.broadcast_to(w, cs[0].shape)
        return emap(lambda c, *xs: self.pick(c, xs), w, *cs)

    def pick(self, c, xs):
        if isb(c):
            return ite(c, xs[1], xs[0])
        if c.op == "c":
            return xs[min(max(int(c.a[0]), 0), len(xs) - 1)]
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = ite(cmp("ge", X.const(k), c), xs[k], r)
        return r

    def p_cond(self, ins, p, eqn):
        c = ins[0][()]
        if c in (T, F) or c.op == "c":
            k = (1 if c is T else 0) if isb(c) else min(max(int(c.a[0]), 0), len(p["branches"]) - 1)
            return self.run_closed(p["branches"][k], ins[1:])
        outs = [self.run_closed(b, ins[1:]) for b in p["branches"]]
        return [emap(lambda *xs: self.pick(c, xs), *os) for os in zip(*outs)]

    def p_convert_element_type(self, ins, p, eqn):
        nd = np.dtype(p["new_dtype"]) if not str(p["new_dtype"]).startswith("float0") else None
        od = eqn.invars[0].aval.dtype
        x = ins[0]
        fl = lambda d: np.issubdtype(d, np.floating) or "float" in str(d)
        if nd == bool:
            return emap(lambda a: a if isb(a) else bnot(cmp("eq", a, X.ZERO)), x)
        if od == bool:
            return emap(self.num, x)
        if fl(od) and np.issubdtype(nd, np.integer):
            return emap(lambda a: X.const(int(a.a[0])) if a.op == "c" else mk("toint", a), x)
        if fl(nd) and nd.itemsize < np.dtype(od).itemsize:
            return emap(lambda a: a if a.op == "c" and a.a[0].denominator == 1 and abs(a.a[0]) < 2 ** 24 else mk("round32", a), x)
        return x

    def p_reduce_precision(self, ins, p, eqn):
        return ins[0] if p["mantissa_bits"] >= 52 else emap(lambda a: mk("round32", a), ins[0])

    def p_reduce_and(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], band, T)

    def p_reduce_or(self, ins, p, eqn):
        return self._red(ins[0], p["axes"], bor, F)

    def _arg(self, ins, p, mx):
        raise Unsupported("argmax")

    def p_sort(self, ins, p, eqn):
        raise Unsupported("sort")

    def p_clamp(self, ins, p, eqn):
        lo, x, hi = ins
        return emap(lambda l, v, h: self.maxmin(self.maxmin(l, v, True), h, False), np.broadcast_to(lo, x.shape), x, np.broadcast_to(hi, x.shape))

    def p_while(self, ins, p, eqn):
        """bounded: the first `steps` iterations of every lane"""
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, c = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        for _ in range(self.steps):
            pr = self.run_closed(p["cond_jaxpr"], cc + c)[0]
            n = self.run_closed(p["body_jaxpr"], bc + c)
            out = []
            for a, b in zip(n, c):
                o = np.empty(a.shape, dtype=object)
                for i in np.ndindex(a.shape):
                    o[i] = ite(pr[i[:pr.ndim]], a[i], b[i])
                out.append(o)
            c = out
        self.cut = True
        return c


def decide_equal(pairs, tmo=20000):
    """z3, QF_UF: all pairs equal for every interpretation; returns (answer, nterms, seconds)"""
    import z3
    t0 = time.time()
    V = z3.DeclareSort("V")
    BO = z3.BoolSort()
    z, fs = {}, {}
    sv = z3.Solver()
    sv.set("timeout", tmo)
    lits = []
    roots = [e for p in pairs for e in p]
    boolish = {}
    for e in X.topo(roots):
        o = e.op
        a = [z[x.id] for x in e.a if isinstance(x, Expr)]
        extra = [x for x in e.a if not isinstance(x, Expr)]
        if o == "bT":
            v = z3.BoolVal(True)
        elif o == "bF":
            v = z3.BoolVal(False)
        elif o == "bnot":
            v = z3.Not(a[0])
        elif o == "band":
            v = z3.And(*a)
        elif o == "ite":
            v = z3.If(*a)
        elif o in ("v", "c", "sp", "pi"):
            v = z3.Const("%s_%d" % (o, e.id), V)
            if o == "c":
                lits.append(v)
        else:
            k = (o, tuple(extra), len(a))
            if k not in fs:
                fs[k] = z3.Function("%s_%s" % (o, "_".join(map(str, extra))), *([x.sort() for x in a] + [BO if o in ("bgt", "bge", "beq", "bfin") else V]))
            v = fs[k](*a)
        z[e.id] = v
    if len(lits) > 1:
        sv.add(z3.Distinct(*lits))
    sv.add(z3.Or(*[z[a.id] != z[b.id] for a, b in pairs]) if pairs else z3.BoolVal(False))
    r = sv.check()
    return str(r), len(z), time.time() - t0


def evaluate(roots, env):
    """double precision value of an EUF term"""
    import math
    vals = {}
    for e in X.topo(roots):
        o = e.op
        a = [vals[x.id] if isinstance(x, Expr) else x for x in e.a]
        try:
            with np.errstate(all="ignore"):
                f64 = np.float64
                if o == "c":
                    v = f64(float(e.a[0]))
                elif o == "v":
                    v = f64(env[e.a[0]])
                elif o == "pi":
                    v = f64(math.pi)
                elif o == "sp":
                    v = f64(float(e.a[0]))
                elif o == "bT" or o == "bF":
                    v = o == "bT"
                elif o == "bnot":
                    v = not a[0]
                elif o == "band":
                    v = a[0] and a[1]
                elif o == "ite":
                    v = a[1] if a[0] else a[2]
                elif o in ("bgt", "bge", "beq"):
                    v = bool({"bgt": a[0] > a[1], "bge": a[0] >= a[1], "beq": a[0] == a[1]}[o])
                elif o == "bfin":
                    v = bool(np.isfinite(a[0]))
                elif o == "add":
                    v = a[0] + a[1]
                elif o == "neg":
                    v = -a[0]
                elif o == "mul":
                    v = a[0] * a[1]
                elif o == "div":
                    v = f64(a[0]) / a[1]
                elif o == "ipow":
                    v = f64(a[0]) ** a[1]
                elif o == "pow":
                    v = f64(a[0]) ** a[1]
                elif o == "rsqrt":
                    v = 1 / np.sqrt(a[0])
                elif o in ("max", "min"):
                    v = np.maximum(*a) if o == "max" else np.minimum(*a)
                elif o == "toint":
                    v = f64(np.trunc(a[0]))
                elif o == "round32":
                    v = f64(np.float32(a[0]))
                elif o == "rem":
                    v = np.fmod(*a)
                elif o == "round":
                    v = np.round(a[0])
                else:
                    nm = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2", "asinh": "arcsinh", "acosh": "arccosh", "atanh": "arctanh"}.get(o, o)
                    v = getattr(np, nm)(*a)
        except AttributeError:
            raise X.EvalError(o)
        vals[e.id] = v
    return [vals[r.id] for r in roots]


def udir(roots, seed):
    """directional derivative of EUF terms; seed: id of variable term -> derivative term.  Choices are differentiated branch by branch."""
    memo = {}
    mul, add, neg, div, c = umul, uadd, uneg, udiv, X.const
    Z = X.ZERO

    def times(a, b):
        return Z if a is Z or b is Z else mul(a, b)
    u = lambda n, *a: mk(n, *a)
    for x in X.topo(roots):
        o, a = x.op, x.a
        d = [memo[y.id] if isinstance(y, Expr) else None for y in a]
        if x.id in seed:
            r = seed[x.id]
        elif o in ("c", "v", "pi", "sp") or isb(x):
            r = Z
        elif o == "ite":
            r = ite(a[0], d[1], d[2])
        elif all(y is Z or y is None for y in d):
            r = Z
        elif o == "add":
            r = add(d[0], d[1])
        elif o == "neg":
            r = neg(d[0])
        elif o == "mul":
            r = add(times(d[0], a[1]), times(a[0], d[1]))
        elif o == "div":
            r = div(d[0], a[1]) if d[0] is not Z else Z
            if d[1] is not Z:
                r = add(r, neg(div(mul(x, d[1]), a[1])))
        elif o == "ipow":
            n = a[1]
            r = times(mul(c(n), mk("ipow", a[0], n - 1) if n != 2 else a[0]), d[0])
        elif o == "pow":
            if d[1] is Z:
                r = times(mul(a[1], u("pow", a[0], add(a[1], c(-1)))), d[0])
            else:
                r = add(times(mul(a[1], u("pow", a[0], add(a[1], c(-1)))), d[0]), times(mul(x, u("log", a[0])), d[1]))
        elif o == "atan2":
            r = div(add(times(d[0], a[1]), neg(times(a[0], d[1]))), add(mul(a[0], a[0]), mul(a[1], a[1])))
        elif o in ("max", "min"):
            g = cmp("ge", a[0], a[1])
            r = ite(g, d[0], d[1]) if o == "max" else ite(g, d[1], d[0])
        elif o in ("floor", "ceil", "round", "sign", "toint"):
            r = Z
        else:
            y = a[0]
            k = {"sqrt": lambda: div(c(1), mul(c(2), x)), "rsqrt": lambda: div(x, mul(c(-2), y)), "cbrt": lambda: div(c(1), mul(c(3), mul(x, x))),
                 "sin": lambda: u("cos", y), "cos": lambda: neg(u("sin", y)), "tan": lambda: add(c(1), mul(x, x)), "sinh": lambda: u("cosh", y), "cosh": lambda: u("sinh", y),
                 "tanh": lambda: add(c(1), neg(mul(x, x))), "exp": lambda: x, "expm1": lambda: u("exp", y), "log": lambda: div(c(1), y), "log1p": lambda: div(c(1), add(c(1), y)),
                 "acos": lambda: neg(div(c(1), u("sqrt", add(c(1), neg(mul(y, y)))))), "asin": lambda: div(c(1), u("sqrt", add(c(1), neg(mul(y, y))))),
                 "atan": lambda: div(c(1), add(c(1), mul(y, y))), "asinh": lambda: div(c(1), u("sqrt", add(c(1), mul(y, y)))),
                 "acosh": lambda: div(c(1), u("sqrt", add(mul(y, y), c(-1)))), "atanh": lambda: div(c(1), add(c(1), neg(mul(y, y)))),
                 "abs": lambda: ite(cmp("ge", y, Z), c(1), c(-1)), "round32": lambda: c(1), "one_minus_square": lambda: mul(c(-2), y)}.get(o)
            if k is None:
                raise Unsupported("derivative of " + o)
            r = mul(k(), d[0])
        memo[x.id] = r
    return [memo[r.id] for r in roots]


def lower(I, roots, env):
    """EUF terms as path-wise real expressions, choices decided on the current path.  I: vlib.jx.Interp; env: id of variable term -> expression"""
    memo = {}

    def val(e):
        # explicit stack; the untaken branch of a choice is never visited
        st = [e]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            o, a = x.op, x.a
            if x.id in env:
                memo[x.id] = env[x.id]
                continue
            if o in ("c", "v", "pi", "sp"):
                memo[x.id] = x
                continue
            if o == "bT" or o == "bF":
                memo[x.id] = X.TRUE if o == "bT" else X.FALSE
                continue
            if o == "ite":
                if a[0].id not in memo:
                    st.append(a[0])
                    continue
                w = memo[a[0].id]
                if not isinstance(w, bool):
                    w = memo[a[0].id] = I.S.decide(w)
                t = a[1] if w else a[2]
                if t.id not in memo:
                    st.append(t)
                    continue
                memo[x.id] = memo[t.id]
                continue
            miss = [y for y in a if isinstance(y, Expr) and y.id not in memo]
            if miss:
                st.extend(miss)
                continue
            v = [memo[y.id] if isinstance(y, Expr) else y for y in a]
            v = [(X.TRUE if y else X.FALSE) if isinstance(y, bool) else y for y in v]
            if o == "bnot":
                r = X.b_not(v[0])
            elif o == "band":
                r = X.b_and(*v)
            elif o in ("bgt", "bge", "beq"):
                r = I.cmp(o[1:], *v)
            elif o == "bfin":
                r = X.b_const(not X.issp(v[0]))
            elif o == "neg":
                r = X.neg(v[0])
            elif o == "ipow":
                r = I.ipow(v[0], v[1])
            elif o in UNARY:
                r = UNARY[o](I, v[0])
            elif o in BINARY:
                r = BINARY[o](I, v[0], v[1])
            else:
                raise Unsupported("lower " + o)
            memo[x.id] = r
        return memo[e.id]
    return [val(r) for r in roots]
