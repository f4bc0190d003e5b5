"""Magnitude of every intermediate value of a computation, as linear constraints over the logarithms of its inputs.

The real code is traced to an EUF term DAG; each node gets an upper bound and, where its magnitude is certain, a lower bound of log2 |value|, both piecewise linear
terms over z3 real variables (the base-2 logarithms of the inputs)."""
import math
import numpy as np
import z3
from fractions import Fraction
from . import expr as X
from .expr import Expr
from .euf import isb

FAR = 4000


def rv(x):
    return z3.RealVal(str(Fraction(x).limit_denominator(10 ** 9)))


def zmax(a, b):
    return a if a is b else z3.If(a >= b, a, b)


def zmin(a, b):
    return a if a is b else z3.If(a <= b, a, b)


class Mag:
    def __init__(self):
        self.var = {}       # variable name -> (lower or None, upper, sign)
        self.norms = []     # (component names, log of the norm)

    def scalar(self, name, lo, hi, sign=None):
        self.var[name] = (lo, hi, sign)

    def vector(self, names, log):
        for n in names:
            self.var[n] = (None, log, None)
        self.norms.append((frozenset(names), log))

    def poly(self, e, P):
        """polynomials of degree <= 2 in vector components, else None"""
        a = e.a
        if e.op == "c":
            return {(): a[0]}
        if e.op == "v":
            return {(a[0],): Fraction(1)}
        p = [P.get(x.id) if isinstance(x, Expr) else None for x in a]
        if e.op == "neg":
            return p[0] and {k: -v for k, v in p[0].items()}
        if e.op == "add":
            if p[0] is None or p[1] is None:
                return None
            r = dict(p[0])
            for k, v in p[1].items():
                r[k] = r.get(k, 0) + v
            return {k: v for k, v in r.items() if v} or {(): Fraction(0)}
        if e.op == "mul":
            if p[0] is None or p[1] is None or len(p[0]) * len(p[1]) > 40:
                return None
            r = {}
            for k, v in p[0].items():
                for l, w in p[1].items():
                    m = tuple(sorted(k + l))
                    if len(m) > 2:
                        return None
                    r[m] = r.get(m, 0) + v * w
            return {k: v for k, v in r.items() if v} or {(): Fraction(0)}
        if e.op in ("abs", "round32"):
            return p[0] if e.op == "round32" else None
        return None

    def sumsq(self, p):
        """log of the square of a known norm"""
        if not p:
            return None
        for names, log in self.norms:
            if set(p) == {(n, n) for n in names} and len(set(p.values())) == 1:
                c = list(p.values())[0]
                if c > 0:
                    return 2 * log + rv(math.log2(float(c)))
        return None

    def run(self, roots):
        """id -> (term, lower or None, upper or None)"""
        R, P, S = {}, {}, {}
        for e in X.topo(roots):
            if isb(e):
                continue
            P[e.id] = self.poly(e, P)
            lo, hi, sg = self.node(e, R, P, S)
            R[e.id] = (e, lo, hi)
            S[e.id] = sg
        return R

    def node(self, e, R, P, S):
        o = e.op
        q = self.sumsq(P[e.id])
        if q is not None:
            return q, q, 1
        arg = [x for x in e.a if isinstance(x, Expr) and not isb(x)]
        lo = [R[x.id][1] for x in arg]
        hi = [R[x.id][2] for x in arg]
        sg = [S[x.id] for x in arg]
        up = lambda f: None if any(h is None for h in hi) else f(*hi)
        if o == "c":
            v = abs(e.a[0])
            if not v:
                return None, rv(-FAR), None
            l = rv(math.log2(v.numerator) - math.log2(v.denominator))
            return l, l, 1 if e.a[0] > 0 else -1
        if o == "pi":
            l = rv(math.log2(math.pi))
            return l, l, 1
        if o == "v":
            return self.var[e.a[0]]
        if o == "sp":
            return None, None, None
        if o in ("neg", "abs", "round32", "copy"):
            return lo[0], hi[0], {"neg": -sg[0] if sg[0] else None, "abs": 1}.get(o, sg[0])
        if o == "add":
            same = sg[0] is not None and sg[0] == sg[1]
            l = None
            if same:
                ls = [x for x in lo if x is not None]
                l = zmax(*ls) if len(ls) == 2 else ls[0] if ls else None
            return l, up(lambda a, b: zmax(a, b) + 1), sg[0] if same else None
        if o == "mul":
            s = sg[0] * sg[1] if sg[0] and sg[1] else 1 if arg[0] is arg[-1] else None
            if len(arg) == 1:
                lo, hi, s = lo * 2, hi * 2, 1
            return (lo[0] + lo[1] if None not in lo else None), (None if None in hi else hi[0] + hi[1]), s
        if o == "div":
            s = sg[0] * sg[1] if sg[0] and sg[1] else None
            return (lo[0] - hi[1] if lo[0] is not None and hi[1] is not None else None), (hi[0] - lo[1] if hi[0] is not None and lo[1] is not None else None), s
        if o in ("ipow", "pow"):
            n = e.a[1]
            if o == "pow":
                if n.op != "c":
                    return None, None, None
                n = n.a[0]
            n = Fraction(n)
            k = z3.RealVal(str(n))
            a, b = (lo[0], hi[0]) if n >= 0 else (hi[0], lo[0])
            even = n.denominator == 1 and n.numerator % 2 == 0
            return (None if a is None else k * a), (None if b is None else k * b), 1 if even or n.denominator != 1 else sg[0]
        if o in ("sqrt", "cbrt", "rsqrt"):
            k = {"sqrt": Fraction(1, 2), "cbrt": Fraction(1, 3), "rsqrt": Fraction(-1, 2)}[o]
            z = z3.RealVal(str(k))
            a, b = (lo[0], hi[0]) if k > 0 else (hi[0], lo[0])
            return (None if a is None else z * a), (None if b is None else z * b), 1 if o != "cbrt" else sg[0]
        if o == "ite":
            s = sg[0] if sg[0] == sg[1] else None
            return (zmin(*lo) if None not in lo else None), up(zmax), s
        if o in ("max", "min"):
            s = sg[0] if sg[0] == sg[1] else None
            pos = s == 1
            return (None if not pos or None in lo else zmax(*lo) if o == "max" else zmin(*lo)), up(zmax), s
        one = rv(0)
        if o in ("sin", "cos", "tanh", "sign", "erf"):
            return None, one, None
        if o in ("acos", "asin", "atan", "atan2"):
            return None, rv(2), None
        if o in ("sinh", "cosh", "exp", "expm1"):
            return (one if o == "cosh" else None), up(lambda a: z3.If(a <= 4, rv(24), rv(FAR))), 1 if o in ("cosh", "exp") else None
        if o in ("asinh", "acosh", "log", "log1p"):
            return None, rv(8), None
        if o in ("floor", "ceil", "round", "toint"):
            return None, up(lambda a: zmax(a, one) + 1), None
        if o == "rem":
            return None, hi[0], None
        return None, None, None
