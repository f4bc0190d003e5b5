"""Hash-consed real expression DAG, numeric evaluation and differentiation."""
from fractions import Fraction
import math

_tab = {}
_n = [0]


class Expr:
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __add__(self, o):
        return add(self, lift(o))

    def __radd__(self, o):
        return add(lift(o), self)

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __mul__(self, o):
        return mul(self, lift(o))

    def __rmul__(self, o):
        return mul(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, int):
            return ipow(self, n)
        raise TypeError("pow")


def mk(op, *a):
    k = (op,) + tuple(x.id if isinstance(x, Expr) else ("v", x) for x in a)
    e = _tab.get(k)
    if e is None:
        e = Expr.__new__(Expr)
        e.op = op
        e.a = a
        e.id = _n[0]
        _n[0] += 1
        _tab[k] = e
    return e


def const(q):
    return mk("c", Fraction(q))


ZERO, ONE, TWO = const(0), const(1), const(2)
INF, NINF, NAN = mk("sp", "inf"), mk("sp", "-inf"), mk("sp", "nan")
PI = mk("pi")


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else NINF
        from .lit import lit_float
        return lit_float(x, 64)
    raise TypeError(type(x))


def var(name):
    return mk("v", name)


def isc(e):
    return e.op == "c"


def issp(e):
    return e.op == "sp"


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.a[0] + b.a[0])
    if a.op == "sp" or b.op == "sp":
        if a is NAN or b is NAN:
            return NAN
        if a.op == "sp" and b.op == "sp":
            return a if a is b else NAN
        return a if a.op == "sp" else b
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("add", a, b) if a.id <= b.id else mk("add", b, a)


def neg(a):
    if a.op == "c":
        return const(-a.a[0])
    if a.op == "sp":
        return {INF: NINF, NINF: INF, NAN: NAN}[a]
    if a.op == "neg":
        return a.a[0]
    return mk("neg", a)


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.a[0] * b.a[0])
    if a.op == "sp" or b.op == "sp":
        if a.op == "sp" and b.op == "sp" and a is not NAN and b is not NAN:
            return INF if (a is INF) == (b is INF) else NINF
        for x, y in ((a, b), (b, a)):
            if x.op == "c" and y is not NAN and x.a[0] != 0:
                return y if x.a[0] > 0 else neg(y)
        return NAN
    for x, y in ((a, b), (b, a)):
        if x is ONE:
            return y
        if x is ZERO:
            return ZERO
        if x.op == "c" and x.a[0] == -1:
            return neg(y)
    return mk("mul", a, b) if a.id <= b.id else mk("mul", b, a)


def div(a, b):
    if b.op == "c" and b.a[0] != 0:
        return mul(a, const(1 / b.a[0])) if a.op != "sp" else mul(a, const(1 / b.a[0]))
    if a.op == "sp" or b.op == "sp":
        if a.op == "sp" or b is NAN:
            return NAN
        return ZERO
    if b is ZERO:
        return NAN
    if a is ZERO:
        return ZERO
    return mk("div", a, b)


def ipow(a, n):
    if a.op == "sp":
        if n == 0:
            return ONE
        if a is NAN:
            return NAN
        if n < 0:
            return ZERO
        return INF if (n % 2 == 0 or a is INF) else NINF
    if a.op == "c" and (n >= 0 or a.a[0] != 0):
        return const(a.a[0] ** n)
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return div(ONE, ipow(a, -n))
    return mk("ipow", a, n)


def sos(e):
    """syntactically nonnegative: sums, products and quotients of squares, roots and exponentials"""
    st, seen = [e], 0
    while st:
        x = st.pop()
        seen += 1
        if seen > 300:
            return False
        o = x.op
        if o == "c":
            if x.a[0] < 0:
                return False
        elif o in ("sqrt", "exp"):
            pass
        elif o == "ipow" and x.a[1] % 2 == 0:
            pass
        elif o == "ipow":
            st.append(x.a[0])
        elif o == "mul" and x.a[0] is x.a[1]:
            pass
        elif o in ("add", "mul", "div"):
            st.extend(x.a)
        else:
            return False
    return True


def fn(name, *a):
    """sqrt cbrt sin cos exp log acos asin atan atan2 floor round32 abs? (uninterpreted here, folded for trivial constants)"""
    if any(x.op == "sp" for x in a):
        if any(x is NAN for x in a):
            return NAN
        x = a[0]
        if name in ("sqrt", "log", "exp"):
            if x is INF:
                return INF
            return ZERO if name == "exp" else NAN
        if name == "cbrt":
            return x
        return NAN
    if len(a) == 1 and a[0].op == "c":
        v = a[0].a[0]
        if name == "sqrt" and v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
        if name in ("sin", "atan", "asin") and v == 0:
            return ZERO
        if name in ("cos", "exp") and v == 0:
            return ONE
        if name == "log" and v == 1:
            return ZERO
        if name == "floor":
            return const(v.numerator // v.denominator)
        if name == "acos" and v == 1:
            return ZERO
        if name == "cbrt":
            s = 1 if v >= 0 else -1
            n = round(abs(v.numerator) ** (1 / 3))
            d = round(v.denominator ** (1 / 3))
            if n ** 3 == abs(v.numerator) and d ** 3 == v.denominator:
                return const(Fraction(s * n, d))
    return mk(name, *a)


def show(e, depth=6):
    o = e.op
    if o == "c":
        return str(e.a[0])
    if o == "v":
        return e.a[0]
    if o == "pi":
        return "pi"
    if o == "sp":
        return e.a[0]
    if depth == 0:
        return "..."
    s = [show(x, depth - 1) if isinstance(x, Expr) else str(x) for x in e.a]
    if o == "add":
        return "(" + s[0] + " + " + s[1] + ")"
    if o == "mul":
        return s[0] + "*" + s[1]
    if o == "div":
        return s[0] + "/(" + s[1] + ")"
    if o == "neg":
        return "-" + s[0]
    return o + "(" + ", ".join(s) + ")"


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        e, done = stack.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        stack.append((e, True))
        for x in e.a:
            if isinstance(x, Expr) and x.id not in seen:
                stack.append((x, False))
    return out


def free_vars(roots):
    return {e.a[0] for e in topo(roots) if e.op == "v"}


class EvalError(Exception):
    pass


def evaluate(roots, env, mp=None):
    """numeric evaluation; env: name -> number. mp: mpmath module for high precision"""
    m = mp if mp is not None else _FloatOps
    vals = {}
    for e in topo(roots):
        o = e.op
        a = [vals[x.id] if isinstance(x, Expr) else x for x in e.a]
        try:
            if o == "c":
                v = m.mpf(a[0].numerator) / m.mpf(a[0].denominator)
            elif o == "v":
                v = m.mpf(env[a[0]])
            elif o == "pi":
                v = +m.pi
            elif o == "sp":
                v = m.mpf(a[0])
            elif o == "add":
                v = a[0] + a[1]
            elif o == "neg":
                v = -a[0]
            elif o == "mul":
                v = a[0] * a[1]
            elif o == "div":
                v = a[0] / a[1] if a[1] != 0 else m.mpf("nan")
            elif o == "ipow":
                v = a[0] ** a[1]
            elif o == "sqrt":
                v = m.sqrt(a[0]) if a[0] >= 0 else m.mpf("nan")
            elif o == "cbrt":
                v = m.cbrt(a[0]) if a[0] >= 0 else -m.cbrt(-a[0])
            elif o in ("acos", "asin"):
                x = a[0]
                if abs(x) > 1 and abs(x) < 1 + 1e-12:
                    x = m.mpf(1) if x > 0 else m.mpf(-1)
                v = getattr(m, o)(x) if abs(x) <= 1 else m.mpf("nan")
            elif o == "log":
                v = m.log(a[0]) if a[0] > 0 else m.mpf("nan")
            elif o == "round32":
                import numpy as np
                v = m.mpf(float(np.float32(float(a[0]))))
            elif o == "uf":
                raise EvalError("uninterpreted")
            else:
                v = getattr(m, o)(*a)
        except (OverflowError, ValueError, ZeroDivisionError):
            v = m.mpf("nan")
        vals[e.id] = v
    return [vals[r.id] for r in roots]


class _FloatOps:
    pi = math.pi
    mpf = float
    sqrt = staticmethod(math.sqrt)
    cbrt = staticmethod(lambda x: x ** (1 / 3))
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    exp = staticmethod(math.exp)
    log = staticmethod(math.log)
    acos = staticmethod(math.acos)
    asin = staticmethod(math.asin)
    atan = staticmethod(math.atan)
    atan2 = staticmethod(math.atan2)
    floor = staticmethod(math.floor)


def diff(e, v, memo=None):
    """derivative of e with respect to the variable Expr v"""
    memo = {} if memo is None else memo
    for x in topo([e]):
        if x.id in memo:
            continue
        o, a = x.op, x.a
        d = lambda y: memo[y.id]
        if x is v:
            r = ONE
        elif o in ("c", "v", "pi", "sp"):
            r = ZERO
        elif o == "add":
            r = d(a[0]) + d(a[1])
        elif o == "neg":
            r = -d(a[0])
        elif o == "mul":
            r = d(a[0]) * a[1] + a[0] * d(a[1])
        elif o == "div":
            r = d(a[0]) / a[1] - x * d(a[1]) / a[1] if d(a[1]) is not ZERO else d(a[0]) / a[1]
        elif o == "ipow":
            r = const(a[1]) * ipow(a[0], a[1] - 1) * d(a[0]) if d(a[0]) is not ZERO else ZERO
        elif all(d(y) is ZERO for y in a):
            r = ZERO
        elif o == "sqrt":
            r = d(a[0]) / (TWO * x)
        elif o == "cbrt":
            r = d(a[0]) / (const(3) * x * x)
        elif o == "sin":
            r = fn("cos", a[0]) * d(a[0])
        elif o == "cos":
            r = -(fn("sin", a[0]) * d(a[0]))
        elif o == "exp":
            r = x * d(a[0])
        elif o == "log":
            r = d(a[0]) / a[0]
        elif o == "acos":
            r = -(d(a[0]) / fn("sqrt", ONE - a[0] * a[0]))
        elif o == "asin":
            r = d(a[0]) / fn("sqrt", ONE - a[0] * a[0])
        elif o == "atan":
            r = d(a[0]) / (ONE + a[0] * a[0])
        elif o == "atan2":
            r = (d(a[0]) * a[1] - a[0] * d(a[1])) / (a[0] * a[0] + a[1] * a[1])
        elif o == "floor":
            r = ZERO
        else:
            raise NotImplementedError("diff " + o)
        memo[x.id] = r
    return memo[e.id]


# ---------------------------------------------------------------- booleans
class B:
    """boolean expression: kinds T F gt ge eq (of Expr, vs 0) not and or"""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return self.k + "(" + ",".join(map(repr, self.a)) + ")"


TRUE, FALSE = B("T"), B("F")


def b_const(x):
    return TRUE if x else FALSE


def b_gt(a, b):
    return _cmp("gt", a, b)


def b_ge(a, b):
    return _cmp("ge", a, b)


def b_eq(a, b):
    a, b = lift(a), lift(b)
    while b is ZERO and a.op == "ipow" and a.a[1] > 0:
        a = a.a[0]      # x^n = 0 iff x = 0
    return _cmp("eq", a, b)


_SPV = {"inf": math.inf, "-inf": -math.inf}


def _cmp(k, a, b):
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return FALSE
    if a.op == "sp" or b.op == "sp":
        x = _SPV[a.a[0]] if a.op == "sp" else 0.0
        y = _SPV[b.a[0]] if b.op == "sp" else 0.0
        return b_const({"gt": x > y, "ge": x >= y, "eq": x == y}[k])
    e = add(a, neg(b))
    if e.op == "c":
        v = e.a[0]
        return b_const({"gt": v > 0, "ge": v >= 0, "eq": v == 0}[k])
    return B(k, e)


def b_not(x):
    if x.k == "T":
        return FALSE
    if x.k == "F":
        return TRUE
    if x.k == "not":
        return x.a[0]
    return B("not", x)


def b_and(x, y):
    if x.k == "F" or y.k == "F":
        return FALSE
    if x.k == "T":
        return y
    if y.k == "T":
        return x
    return B("and", x, y)


def b_or(x, y):
    return b_not(b_and(b_not(x), b_not(y)))


def b_eval(b, env, mp=None):
    """numeric truth value, and margin (smallest |value| met)"""
    if b.k == "T":
        return True
    if b.k == "F":
        return False
    if b.k == "not":
        return not b_eval(b.a[0], env, mp)
    if b.k == "and":
        return b_eval(b.a[0], env, mp) and b_eval(b.a[1], env, mp)
    v = evaluate([b.a[0]], env, mp)[0]
    return bool({"gt": v > 0, "ge": v >= 0, "eq": v == 0}[b.k])


def b_exprs(b):
    if b.k in ("T", "F"):
        return []
    if b.k in ("gt", "ge", "eq"):
        return [b.a[0]]
    return sum((b_exprs(x) for x in b.a), [])
