"""Harness contexts: the same harness runs symbolically (deciding) and numerically on the real code (replay)."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import mpmath
from . import expr as X
from .expr import Expr, B
from .nf import State, Stats, Infeasible, Unsupported
from .jx import Interp, LoopBound, lift_array
from .poly import unpack, Poly

mp = mpmath.mp
mp.dps = 40


class Reject(Exception):
    """numeric candidate does not satisfy the assumptions"""


class CodeRaises(Exception):
    def __init__(self, fn, exc):
        self.fn = fn
        self.exc = exc
        super().__init__("%s raises %s: %s" % (fn, type(exc).__name__, str(exc)[:300]))


def fname(fn):
    return getattr(fn, "__module__", "?").replace("astrodynx", "adx") + "." + getattr(fn, "__name__", repr(fn))


# --------------------------------------------------------------------------- tracing
_trace_cache = {}


def is_dyn(x):
    return isinstance(x, Expr) or (isinstance(x, np.ndarray) and x.dtype == object)


def _flatten(args):
    import jax
    return jax.tree_util.tree_flatten(args, is_leaf=lambda x: is_dyn(x) or x is None)


class NeedDecision(Exception):
    def __init__(self, pred):
        self.pred = pred


class branching:
    """Python-level `if` on traced values: answers from a list, then stops at the first undecided one"""

    def __init__(self, decs):
        self.decs, self.top = decs, None

    def __enter__(self):
        from jax._src import core
        self.T, self.old = core.Tracer, core.Tracer.__bool__
        it = iter(self.decs)
        old = self.old

        def ask(t):
            b = t
            while hasattr(b, "primal") and isinstance(b.primal, core.Tracer):
                b = b.primal             # eager differentiation branches on the primal value
            if getattr(t.aval, "shape", None) != () or self.top is None or b._trace is not self.top:
                return old(t)            # inside jit, vmap or lax control flow: the real error
            t = b
            for d in it:
                return d
            raise NeedDecision(t)
        core.Tracer.__bool__ = ask

    def __exit__(self, *a):
        self.T.__bool__ = self.old


def trace(fn, args, kwargs, key=None, decs=None, ints=False):
    """jaxpr of fn; with decs a list, Python branches on traced values take the listed decisions and the jaxpr of the first
    undecided condition is returned instead (tree None)"""
    import jax
    leaves, td = _flatten((args, kwargs))
    dyn = [i for i, l in enumerate(leaves) if is_dyn(l)]
    shapes = tuple(() if isinstance(leaves[i], Expr) else leaves[i].shape for i in dyn)
    stat = [None if i in dyn else l for i, l in enumerate(leaves)]
    try:
        k = (key or fn, td, shapes, tuple(dyn), tuple((type(s).__name__, s) for s in stat), None if decs is None else tuple(decs), ints)
        hash(k)
    except TypeError:
        k = None
    if k is not None and k in _trace_cache:
        r = _trace_cache[k]
        if isinstance(r, Exception):
            raise r
        return r
    f32 = not jax.config.jax_enable_x64
    fl, it = (np.float32, np.int32) if f32 else (np.float64, np.int64)
    isint = lambda i: ints is True or ints is not False and i in ints
    sds = [jax.ShapeDtypeStruct(s, it if isint(n) else fl) for n, s in enumerate(shapes)]
    outtd = []
    br = None if decs is None else branching(decs)

    def g(*dv):
        ls = list(stat)
        for i, v in zip(dyn, dv):
            ls[i] = v
        a, kw = jax.tree_util.tree_unflatten(td, ls)
        if br is not None and dv:
            br.top = dv[0]._trace
        try:
            out = fn(*a, **kw)
        except NeedDecision as e:
            outtd.append(None)
            return [e.pred != 0]
        l, t = jax.tree_util.tree_flatten(out)
        outtd.append(t)
        return l
    try:
        if decs is None:
            cj = jax.make_jaxpr(g)(*sds)
        else:
            with br:
                cj = jax.make_jaxpr(g)(*sds)
    except Exception as e:
        err = CodeRaises(fname(fn), e)
        if k is not None:
            _trace_cache[k] = err
        raise err
    r = (cj, outtd[-1], dyn)
    if k is not None:
        _trace_cache[k] = r
    return r


def unitem(a):
    if isinstance(a, np.ndarray) and a.shape == ():
        return a[()]
    return a


# --------------------------------------------------------------------------- generic maths
class Base:
    def vec(self, name, n=3, **kw):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.var("%s%d" % (name, i), **kw)
        return out

    def arr(self, *xs):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = self.num(x)
        return out

    def mat(self, rows):
        out = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                out[i, j] = self.num(x)
        return out

    def dot(self, a, b):
        r = self.num(0)
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def cross(self, a, b):
        return self.arr(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])

    def norm(self, a):
        return self.sqrt(self.dot(a, a))

    def matvec(self, M, v):
        return self.arr(*[self.dot(M[i], v) for i in range(M.shape[0])])

    def matmul(self, A, C):
        return self.mat([[self.dot(A[i], C[:, j]) for j in range(C.shape[1])] for i in range(A.shape[0])])

    def rotx(self, t):
        c, s = self.cos(t), self.sin(t)
        return self.mat([[1, 0, 0], [0, c, -s], [0, s, c]])

    def roty(self, t):
        c, s = self.cos(t), self.sin(t)
        return self.mat([[c, 0, s], [0, 1, 0], [-s, 0, c]])

    def rotz(self, t):
        c, s = self.cos(t), self.sin(t)
        return self.mat([[c, -s, 0], [s, c, 0], [0, 0, 1]])

    def sinh(self, x):
        return (self.exp(x) - self.exp(-x)) / 2

    def cosh(self, x):
        return (self.exp(x) + self.exp(-x)) / 2

    def eqv(self, name, a, b, **kw):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.fail(name, "shape %s, expected %s" % (a.shape, b.shape))
            return
        for i in np.ndindex(a.shape):
            self.eq(name + "".join("[%d]" % j for j in i), a[i], b[i], **kw)


class SymCtx(Base):
    symbolic = True

    def __init__(self, st, run, loop="unroll", bound=60):
        self.S = st
        self.run = run
        self.loop = loop
        self.bound = bound
        self.vars = {}
        self.interp = None
        self.outs = []
        self.calls = []
        self.events = []
        self.spec_nz = 0
        self.eqcount = {}
        self.euf = False
        self.eufcut = False
        self.euf_steps = 4

    # inputs
    def var(self, name, pos=False, nonneg=False, nz=False, lo=None, hi=None, rng=None, angle=False):
        v = X.var(name)
        if name not in self.vars:
            self.vars[name] = dict(pos=pos, rng=rng, angle=angle, lo=lo, hi=hi)
            self.run.vardecl[name] = self.vars[name]
            i = self.S.var_atom(name)
            if pos:
                self.S.pos[i] = self.S.nonneg[i] = self.S.nz[i] = True
            if nonneg:
                self.S.nonneg[i] = True
            if nz:
                self.S.nz[i] = True
                if nonneg:
                    self.S.pos[i] = True
            if lo is not None:
                self.assume(self.ge(v, lo))
            if hi is not None:
                self.assume(self.ge(hi, v))
        return v

    def angle(self, name):
        return self.var(name, angle=True, rng=(-3.1, 6.2))

    def integer(self, name, lo=None, hi=None, nz=False):
        """an integer value; decided for every real value of the symbol (a superset)"""
        return self.var(name, lo=lo, hi=hi, pos=lo is not None and lo > 0, nonneg=lo is not None and lo >= 0, nz=nz, rng=(lambda r: r.randint(-4 if lo is None else lo, 5 if hi is None else hi), None))

    def num(self, x):
        return X.lift(x)

    @property
    def pi(self):
        return X.PI

    # maths for specifications
    def sqrt(self, x):
        return X.fn("sqrt", X.lift(x))

    def cbrt(self, x):
        return X.fn("cbrt", X.lift(x))

    def sin(self, x):
        return X.fn("sin", X.lift(x))

    def cos(self, x):
        return X.fn("cos", X.lift(x))

    def exp(self, x):
        return X.fn("exp", X.lift(x))

    def log(self, x):
        return X.fn("log", X.lift(x))

    def abs(self, x):
        x = X.lift(x)
        return x if self.S.decide(X.b_ge(x, X.ZERO)) else -x

    def max(self, a, b):
        return a if self.S.decide(X.b_ge(a, b)) else b

    def gt(self, a, b):
        return X.b_gt(X.lift(a), X.lift(b))

    def ge(self, a, b):
        return X.b_ge(X.lift(a), X.lift(b))

    def lt(self, a, b):
        return self.gt(b, a)

    def le(self, a, b):
        return self.ge(b, a)

    def equal(self, a, b):
        return X.b_eq(X.lift(a), X.lift(b))

    def and_(self, *bs):
        r = X.TRUE
        for b in bs:
            r = X.b_and(r, b)
        return r

    def or_(self, *bs):
        return X.b_not(self.and_(*[X.b_not(b) for b in bs]))

    def not_(self, b):
        return X.b_not(b)

    def decide(self, b):
        return self.S.decide(b)

    def assume(self, b):
        self.S.assume(b)

    def moderate(self, bound, *xs):
        pass

    def axiom(self, b):
        """a true fact about real functions, given to the solver"""
        self.S.assume(b)

    def implied(self, b, tmo=2000):
        """does the path condition imply b (z3, no fork)?"""
        from .nf import neg_con
        S = self.S
        for conj in cnf(b):
            lits = []
            ok = False
            for at, pol in conj:
                if at.k in ("T", "F"):
                    ok = ok or (at.k == "T") == pol
                    continue
                op = {"gt": ">", "ge": ">=", "eq": "=="}[at.k]
                p = S.signpoly(S.nf(at.a[0]))
                n = neg_con(p, op) if pol else (p, op)
                k = S.known(*((S.signnorm(n[0]), n[1])))
                if k is False:
                    ok = True
                lits.append((S.signnorm(n[0]), n[1]))
            if ok:
                continue
            if not tmo:
                return False
            if S.query(lits, rel_only=True, tmo=tmo)[0] != "unsat" and S.query(lits, tmo=tmo)[0] != "unsat":
                return False
        return True

    def zero(self, x):
        return self.S.rf_zero(self.S.nf(X.lift(x)))

    def via(self, vals, prem, concl, given=()):
        """proof by generalisation: the premises hold for the expressions vals (z3, path condition; indices in `given` are axioms);
        premises imply the conclusion for arbitrary reals (z3)"""
        import z3
        for i, b in enumerate(prem(*vals)):
            if i not in given and not self.implied(b):
                return False
        st = State(self.S.st)
        xs = [X.var("g%d" % i) for i in range(len(vals))]
        from .nf import neg_con
        for b in prem(*xs):
            st.assume(b)
        lits = []
        b = concl(*xs)
        at, pol = cnf(b)[0][0]
        op = {"gt": ">", "ge": ">=", "eq": "=="}[at.k]
        p = st.signpoly(st.nf(at.a[0]))
        n = neg_con(p, op) if pol else (p, op)
        return st.query([n], tmo=8000)[0] == "unsat"

    def same_lanes(self, name, pairs):
        """pairs(call) lists pairs of outputs of the real code that must agree; decided with every operation uninterpreted (vlib/euf.py).
        False when that does not settle it"""
        import jax
        from . import euf
        outs, names = [], []

        def call(fn, *args, **kwargs):
            ints = kwargs.pop("_ints", False)
            cj, td, dyn = trace(fn, args, kwargs, ints=ints)
            leaves, _ = _flatten((args, kwargs))
            I = euf.Euf(steps=self.euf_steps)
            o = I.run_closed(cj, [np.asarray(leaves[i], dtype=object) for i in dyn])
            self.run.prims |= I.prims
            o = [unitem(x) for x in o]
            outs.append(o)
            names.append(fname(fn))
            self.eufcut = self.eufcut or getattr(I, "cut", False)
            return jax.tree_util.tree_unflatten(td, o)
        try:
            ps = pairs(call)
        except (Unsupported, CodeRaises):
            return False
        if ps is None:
            return False
        res, n, t = euf.decide_equal(ps)
        st = self.run.st
        st.queries += 1
        st.time += t
        setattr(st, res, getattr(st, res) + 1)
        if res != "unsat":
            return False
        self.run.functions.update(names)
        self.run.obligations += len(ps)
        self.run.discharged += len(ps)
        self.run.goalnames.add(name)
        self.outs.extend(outs)
        self.euf = True
        return True

    def exact_jvp(self, f, args, dargs):
        """mathematical directional derivative of what f computes, from its unspecialised operations (vlib/euf.py)"""
        from . import euf
        import jax
        cj, td, dyn = trace(f, args, {})
        leaves, _ = _flatten((args, {}))
        dl, _ = _flatten((dargs, {}))
        seed, env, ins = {}, {}, []
        for i in dyn:
            v, w = np.asarray(leaves[i], dtype=object), np.asarray(dl[i], dtype=object)
            a = np.empty(v.shape, dtype=object)
            for k in np.ndindex(v.shape):
                t, u = X.var("in!%d%r" % (i, k)), X.var("din!%d%r" % (i, k))
                a[k] = t
                env[t.id], env[u.id] = X.lift(v[k]), X.lift(w[k])
                seed[t.id] = u
            ins.append(a)
        outs = euf.Euf(steps=self.euf_steps).run_closed(cj, ins)
        flat = [x for o in outs for x in o.reshape(-1)]
        ds = euf.lower(Interp(self.S), euf.udir(flat, seed), env)
        res, n = [], 0
        for o in outs:
            a = np.empty(o.size, dtype=object)
            for k in range(o.size):
                a[k] = ds[n]
                n += 1
            res.append(unitem(a.reshape(o.shape)))
        return jax.tree_util.tree_unflatten(td, res)

    def proved(self, name):
        self.run.obligations += 1
        self.run.goalnames.add(name)
        self.run.discharged += 1

    def nonzero(self, x):
        self.S.assume(X.b_not(X.b_eq(X.lift(x), X.ZERO)))

    def same_trace(self, name, f, g, args):
        """f and g denote the same computation on args: identical jaxprs"""
        import re
        A = str(trace(f, args, {})[0])
        C = str(trace(g, args, {})[0])
        self.run.functions.add(name)
        if A != C:
            import jax
            try:
                x, y = [jax.tree_util.tree_leaves(self.call(k, *args), is_leaf=is_dyn) for k in (f, g)]
                if len(x) == len(y) and all(np.shape(a) == np.shape(b) for a, b in zip(x, y)):
                    for a, b in zip(x, y):
                        self.eqv(name, np.asarray(a, dtype=object), np.asarray(b, dtype=object))
                    return
            except (Unsupported, LoopBound):
                pass
        self.run.goal_static(self, name, A == C, "different computation")

    def link(self, alias, x):
        """while searching for counterexamples the arbitrary value x is the harness variable called alias"""
        if isinstance(x, X.Expr) and x.op == "v" and x.a[0] not in self.run.vardecl:
            self.run.links[x.a[0]] = alias

    def hint(self, h):
        """h is a candidate for simplifying sqrt(h^2)"""
        r = self.S.nf(X.lift(h))
        if not r.den:
            self.S.hints.append(r.n)
        self.S.rfhints.append(r)

    # the code
    def call(self, fn, *args, **kwargs):
        loop = kwargs.pop("_loop", self.loop)
        count_bound = kwargs.pop("_count_bound", None)
        max_loop = kwargs.pop("_max_loop", None)
        on_loop = kwargs.pop("_on_loop", None)
        ints = kwargs.pop("_ints", False)
        decs = []
        cj, td, dyn = trace(fn, args, kwargs, decs=decs, ints=ints)
        leaves, _ = _flatten((args, kwargs))
        ins = []
        for i in dyn:
            l = leaves[i]
            if isinstance(l, Expr):
                t = np.empty((), dtype=object)
                t[()] = l
                l = t
            ins.append(l)
        while td is None:
            I = Interp(self.S, loop=loop, bound=self.bound)
            decs.append(self.S.decide(I.run_closed(cj, ins)[0][()]))
            if len(decs) > 40:
                raise Unsupported("Python branches on values")
            cj, td, dyn = trace(fn, args, kwargs, decs=decs, ints=ints)
        I = Interp(self.S, loop=loop, bound=self.bound)
        if max_loop is not None:
            I.bound = max_loop
        I.fresh = 1000 * len(self.calls)
        I.count_bound = count_bound
        I.on_loop = on_loop
        try:
            outs = I.run_closed(cj, ins)
        except LoopBound:
            if max_loop is None:
                raise
            self.fail("budget", "more than %d iterations of the loop" % max_loop)
            raise
        self.run.functions.add(fname(fn))
        self.run.prims |= I.prims
        self.events.extend(I.events)
        import jax
        outs = [unitem(o) for o in outs]
        self.calls.append(fname(fn))
        self.outs.append(outs)
        return jax.tree_util.tree_unflatten(td, outs)

    def deriv(self, f, v):
        e = f(v)
        return _vmap(lambda t: X.diff(t, v), e)

    def dirderiv(self, f, xs, dxs):
        """derivative of f(*xs) in the direction dxs (xs variable Expr)"""
        e = f(*xs)

        def one(t):
            r = X.ZERO
            for x, d in zip(xs, dxs):
                r = r + X.diff(t, x) * d
            return r
        return _vmap(one, e)

    def diff(self, f, xs):
        """gradient of the specification f at the variables xs (list of variable Expr)"""
        e = f(*xs)
        return [X.diff(e, x) for x in xs]

    # goals
    def eq(self, name, a, b, tol=None, scale=None):
        a, b = X.lift(a) if not isinstance(a, B) else a, X.lift(b) if not isinstance(b, B) else b
        if isinstance(a, B) or isinstance(b, B):
            return self.iff(name, a, b)
        k = self.eqcount[name] = self.eqcount.get(name, -1) + 1
        if X.issp(a) or X.issp(b):
            return self.run.goal_special(self, name, a if X.issp(a) else b)
        self.run.goal_eq(self, name, a, b, k)

    def finite(self, name, *xs):
        for x in xs:
            for y in np.asarray(x, dtype=object).reshape(-1):
                if isinstance(y, Expr) and X.issp(y):
                    self.run.goal_special(self, name, y)

    def check(self, name, b):
        """b must hold"""
        for e in X.b_exprs(b):
            if X.issp(e):
                return self.run.goal_special(self, name, e)
        self.run.goal_bool(self, name, b)

    def check_le(self, name, a, b, **kw):
        if X.issp(X.lift(a)) or X.issp(X.lift(b)):
            return self.run.goal_special(self, name, a)
        self.check(name, self.le(a, b))

    def check_lt(self, name, a, b, **kw):
        if X.issp(X.lift(a)) or X.issp(X.lift(b)):
            return self.run.goal_special(self, name, a)
        self.check(name, self.lt(a, b))

    def iff(self, name, a, b):
        """code predicate a equals specification b"""
        a = a if isinstance(a, B) else X.b_not(X.b_eq(a, X.ZERO))
        sb = self.S.decide(b)
        self.check(name, a if sb else X.b_not(a))

    def same_bool(self, name, a, b):
        """two predicates of the code agree"""
        self.check(name, b if self.S.decide(a) else X.b_not(b))

    def settled(self, f, args):
        pass

    def fail(self, name, why):
        self.run.goal_fail(self, name, why)

    def static(self, name, ok, why=""):
        """a concrete (non-symbolic) fact about the trace"""
        self.run.goal_static(self, name, ok, why)


def _vmap(f, e):
    if isinstance(e, (tuple, list)):
        return type(e)(_vmap(f, x) for x in e)
    if isinstance(e, np.ndarray):
        out = np.empty(e.shape, dtype=object)
        for i in np.ndindex(e.shape):
            out[i] = f(e[i])
        return out
    return f(e)


def snap(v):
    """right angles given in double precision mean exact right angles"""
    for k in (0, 1, -1):
        if abs(v - k) < mp.mpf("1e-15"):
            return mp.mpf(k)
    return v


_jits = {}
_noeval = (Reject, CodeRaises, KeyError, X.EvalError, NotImplementedError, ValueError, OverflowError, ZeroDivisionError, TypeError)


def fast_call(fn, a, kw):
    """call the real function; from the third call with the same shapes on through jax.jit (only to look for counterexamples: they are confirmed without it)"""
    import jax
    leaves, td = jax.tree_util.tree_flatten((a, kw))
    if not all(isinstance(l, jax.Array) for l in leaves):
        return fn(*a, **kw)
    key = (id(fn), td, tuple((l.shape, str(l.dtype)) for l in leaves))
    ent = _jits.setdefault(key, [fn, 0, None])
    ent[1] += 1
    if ent[1] < 3 or ent[2] is False:
        return fn(*a, **kw)
    try:
        ent[2] = ent[2] or jax.jit(fn)
        return ent[2](*a, **kw)
    except Exception:
        ent[2] = False
        return fn(*a, **kw)


class NumCtx(Base):
    """replay on the real code, float64, eager; specification values in 40-digit arithmetic"""
    symbolic = False

    def __init__(self, env, decl=None, rnd=None):
        self.env = env
        self.decl = decl or {}
        self.rnd = rnd or random.Random(0)
        self.failed = []
        self.evaluated = 0
        self.outs = []
        self.margin = 1.0
        self.log = []
        self.events = []
        self.eqcount, self.eqlog, self.worst = {}, {}, {}
        self.S = None
        self.eager = True

    def var(self, name, pos=False, nonneg=False, nz=False, lo=None, hi=None, rng=None, angle=False):
        if name not in self.env:
            self.env[name] = sample_var(self.rnd, dict(pos=pos or nonneg, rng=rng, angle=angle, lo=lo, hi=hi))
        v = mp.mpf(self.env[name])
        if pos and not v > 0 or nonneg and not v >= 0 or nz and v == 0:
            raise Reject(name)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject(name)
        return v

    def angle(self, name):
        return self.var(name, angle=True, rng=(-3.1, 6.2))

    def integer(self, name, lo=None, hi=None, nz=False):
        if name not in self.env:
            self.env[name] = self.rnd.randint(-4 if lo is None else lo, 4 if hi is None else hi)
        v = mp.mpf(self.env[name] if mp.isinf(self.env[name]) else int(mp.nint(self.env[name])))
        if abs(v) > 10 ** 6 or lo is not None and v < lo or hi is not None and v > hi or nz and v == 0:
            raise Reject(name)
        self.env[name] = float(v)
        return v

    def num(self, x):
        if isinstance(x, Fraction):
            return mp.mpf(x.numerator) / x.denominator
        return mp.mpf(x) if not isinstance(x, mp.mpf) else x

    @property
    def pi(self):
        return +mp.pi

    def sqrt(self, x):
        return mp.sqrt(x) if x >= 0 else mp.nan

    def cbrt(self, x):
        return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)

    def sin(self, x):
        return snap(mp.sin(x))

    def cos(self, x):
        return snap(mp.cos(x))

    def exp(self, x):
        return mp.exp(x)

    def log(self, x):
        return mp.log(x) if x > 0 else mp.nan

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return max(a, b)

    def _cmp(self, a, b, r):
        s = max(abs(a), abs(b), mp.mpf(10) ** -3)
        self.margin = min(self.margin, float(abs(a - b) / s)) if s == s else 0.0
        return bool(r)

    def gt(self, a, b):
        a, b = self.num(a), self.num(b)
        return self._cmp(a, b, a > b)

    def ge(self, a, b):
        a, b = self.num(a), self.num(b)
        return self._cmp(a, b, a >= b)

    def lt(self, a, b):
        return self.gt(b, a)

    def le(self, a, b):
        return self.ge(b, a)

    def equal(self, a, b):
        return self.num(a) == self.num(b)

    def and_(self, *bs):
        return all(bs)

    def or_(self, *bs):
        return any(bs)

    def not_(self, b):
        return not b

    def decide(self, b):
        return bool(b)

    def assume(self, b):
        if not b:
            raise Reject("assumption")

    def axiom(self, b):
        pass

    def pow2(self, x):
        return mp.mpf(2) ** int(round(float(mp.log(x, 2))))

    def moderate(self, bound, *xs):
        """replay only where double precision is meaningful"""
        for x in xs:
            for y in np.asarray(x, dtype=object).reshape(-1):
                if not mp.isfinite(y) or abs(y) > bound:
                    raise Reject("not moderate")

    def nonzero(self, x):
        if abs(x) < 1e-9:
            raise Reject("nonzero")

    def same_lanes(self, name, pairs):
        return False

    def exact_jvp(self, f, args, dargs):
        """Richardson differences of the real code, rejected where they have not settled"""
        import jax
        n = len(self.outs), len(self.log)

        def g(h):
            return [np.asarray(x, dtype=object) for x in jax.tree_util.tree_leaves(self.call(f, *[a + h * d for a, d in zip(args, dargs)]))]
        td = jax.tree_util.tree_structure(self.call(f, *args))
        D = lambda h: [(x - y) / (2 * h) for x, y in zip(g(h), g(-h))]
        ds = [D(mp.mpf("0.002") / 2 ** k) for k in range(4)]
        r1 = [[(4 * b - a) / 3 for a, b in zip(ds[k], ds[k + 1])] for k in range(3)]
        r2 = [[(16 * b - a) / 15 for a, b in zip(r1[k], r1[k + 1])] for k in range(2)]
        del self.outs[n[0]:], self.log[n[1]:]
        for a, b in zip(*r2):
            for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
                if not (mp.isfinite(x) and mp.isfinite(y) and abs(x - y) <= 1e-7 * max(1, abs(y))):
                    raise Reject("difference quotient not settled")
        return jax.tree_util.tree_unflatten(td, [unitem(x) for x in r2[1]])

    def same_trace(self, name, f, g, args):
        import jax
        leaf = lambda x: isinstance(x, np.ndarray)
        a, b = [jax.tree_util.tree_leaves(self.call(k, *args), is_leaf=leaf) for k in (f, g)]
        if len(a) != len(b):
            return self._rec(name, True, 1.0, "different results")
        for p, q in zip(a, b):
            if np.shape(p) != np.shape(q):
                self._rec(name, True, 1.0, "results of different shape")
                continue
            for x, y in zip(np.asarray(p, dtype=object).reshape(-1), np.asarray(q, dtype=object).reshape(-1)):
                if isinstance(x, bool) or isinstance(y, bool):
                    self.same_bool(name, x, y)
                elif mp.isfinite(x) or mp.isfinite(y):
                    self.eq(name, x, y, tol=1e-13)

    def link(self, alias, x):
        pass

    def hint(self, h):
        pass

    def call(self, fn, *args, **kwargs):
        import jax
        import jax.numpy as jnp
        kwargs.pop("_loop", None)
        kwargs.pop("_count_bound", None)
        kwargs.pop("_on_loop", None)
        max_loop = kwargs.pop("_max_loop", None)
        ints = kwargs.pop("_ints", False)
        nth = [-1]

        def conv(x):
            if isinstance(x, mp.mpf) or isinstance(x, np.ndarray) and x.dtype == object:
                nth[0] += 1
                isint = ints is True or ints is not False and nth[0] in ints
            if isinstance(x, mp.mpf):
                return jnp.asarray(int(x)) if isint else jnp.asarray(float(x))
            if isinstance(x, np.ndarray) and x.dtype == object:
                return jnp.asarray(np.array([int(t) if isint else float(t) for t in x.reshape(-1)]).reshape(x.shape))
            return x
        leaf = lambda x: x is None or isinstance(x, (mp.mpf, np.ndarray))
        a, kw = jax.tree_util.tree_map(conv, (args, kwargs), is_leaf=leaf)
        real, n = jax.lax.while_loop, [0]

        def counted(cond_fun, body_fun, init_val):
            v = init_val
            while bool(cond_fun(v)):
                n[0] += 1
                if n[0] > max_loop:
                    break
                v = body_fun(v)
            return v
        try:
            if max_loop is not None:
                jax.lax.while_loop = counted
            out = fn(*a, **kw) if max_loop is not None or self.eager else fast_call(fn, a, kw)
        except Exception as e:
            raise CodeRaises(fname(fn), e)
        finally:
            jax.lax.while_loop = real
        if max_loop is not None and n[0] > max_loop:
            self._rec("budget", True, 1.0, "more than %d iterations" % max_loop)
        leaves, td = jax.tree_util.tree_flatten(out)
        res = []
        for l in leaves:
            l = np.asarray(l)
            if l.dtype == bool:
                res.append(bool(l) if l.shape == () else l.astype(object))
                continue
            o = np.empty(l.shape, dtype=object)
            for i in np.ndindex(l.shape):
                o[i] = mp.mpf(float(l[i]))
            res.append(unitem(o))
        self.outs.append(res)
        self.log.append((fname(fn), _plain(a), _plain(kw), [_plain(r) for r in res]))
        return jax.tree_util.tree_unflatten(td, res)

    def deriv(self, f, v):
        h = mp.mpf(max(1.0, abs(float(v)))) * mp.mpf("0.002")
        def D(h):
            p, m = f(v + h), f(v - h)
            return _bin(lambda x, y: (x - y) / (2 * h), p, m)
        d1, d2, d3 = D(h), D(h / 2), D(h / 4)
        r1 = _bin(lambda a, b: (4 * b - a) / 3, d1, d2)
        r2 = _bin(lambda a, b: (4 * b - a) / 3, d2, d3)
        return _bin(lambda a, b: (16 * b - a) / 15, r1, r2)

    def dirderiv(self, f, xs, dxs):
        def g(h):
            return f(*[x + h * d for x, d in zip(xs, dxs)])
        h = mp.mpf("0.002")
        D = lambda h: _bin(lambda x, y: (x - y) / (2 * h), g(h), g(-h))
        d1, d2, d3 = D(h), D(h / 2), D(h / 4)
        r1 = _bin(lambda a, b: (4 * b - a) / 3, d1, d2)
        r2 = _bin(lambda a, b: (4 * b - a) / 3, d2, d3)
        return _bin(lambda a, b: (16 * b - a) / 15, r1, r2)

    def diff(self, f, xs):
        out = []
        h = mp.mpf(10) ** -12
        for k in range(len(xs)):
            p = list(xs)
            m = list(xs)
            p[k] = p[k] + h
            m[k] = m[k] - h
            out.append((f(*p) - f(*m)) / (2 * h))
        return out

    def _rec(self, name, bad, res, info):
        self.evaluated += 1
        if bad:
            self.failed.append((name, res, info))

    def eq(self, name, a, b, tol=None, scale=None):
        if isinstance(a, bool) or isinstance(b, bool):
            return self.iff(name, a, b)
        a, b = self.num(a), self.num(b)
        self.eqcount[name] = self.eqcount.get(name, -1) + 1
        self.eqlog[name, self.eqcount[name]] = a, b
        if not (mp.isfinite(b)):
            raise Reject("spec not finite")
        if not mp.isfinite(a):
            return self._rec(name, True, float("inf"), "got %s, expected %s" % (a, mp.nstr(b, 12)))
        s = max(abs(a), abs(b), mp.mpf(10) ** -2, mp.mpf(scale) if scale is not None else 0)
        r = float(abs(a - b) / s)
        if r > (tol or 1e-8) and r >= self.worst.get(name + "/r", 0):
            self.worst[name], self.worst[name + "/r"] = (name, self.eqcount[name]), r
        self._rec(name, r > (tol or 1e-8), r, "got %s, expected %s" % (mp.nstr(a, 15), mp.nstr(b, 15)))

    def finite(self, name, *xs):
        for x in xs:
            for y in np.asarray(x, dtype=object).reshape(-1):
                if not isinstance(y, bool) and not mp.isfinite(y):
                    self._rec(name, True, float("inf"), "not finite: %s" % y)

    def check(self, name, b):
        self._rec(name, not b and self.margin > 1e-7, 1.0, "assertion false")

    def check_le(self, name, a, b, tol=None, scale=None):
        a, b = self.num(a), self.num(b)
        s = max(abs(a), abs(b), mp.mpf(10) ** -2) if scale is None else mp.mpf(scale)
        r = float((a - b) / s) if mp.isfinite(a) and mp.isfinite(b) else float("inf")
        self._rec(name, r > (tol or 1e-8), r, "%s <= %s violated" % (mp.nstr(a, 15), mp.nstr(b, 15)))

    check_lt = check_le

    def iff(self, name, a, b):
        a = bool(a) if isinstance(a, (bool, np.bool_)) else (a != 0)
        self._rec(name, a != bool(b) and self.margin > 1e-7, 1.0, "code says %s, specification says %s" % (a, b))

    def same_bool(self, name, a, b):
        self._rec(name, bool(a) != bool(b), 1.0, "%s against %s" % (bool(a), bool(b)))

    def settled(self, f, args):
        """replay a predicate only away from its boundary"""
        n = len(self.outs), len(self.log)
        rr = random.Random(5)
        seen = set()
        for k in range(9):
            j = lambda x: x * (1 + mp.mpf(10) ** (-7) * rr.uniform(-1, 1)) + mp.mpf(10) ** (-9) * rr.uniform(-1, 1) if k else x
            o = self.call(f, *[np.vectorize(j, otypes=[object])(a) if isinstance(a, np.ndarray) else j(a) for a in args])
            seen.add(str(o))
        del self.outs[n[0]:], self.log[n[1]:]
        if len(seen) > 1:
            raise Reject("predicate near its boundary")

    def fail(self, name, why):
        self._rec(name, True, 1.0, why)

    def static(self, name, ok, why=""):
        self._rec(name, not ok, 1.0, why)


def _plain(x):
    import jax
    def f(v):
        if isinstance(v, mp.mpf):
            return float(v)
        if isinstance(v, np.ndarray):
            return [_plain(t) for t in v] if v.shape else _plain(v[()])
        try:
            v = np.asarray(v)
            return v.tolist() if v.dtype != object else str(v)
        except Exception:
            return str(v)
    if isinstance(x, (tuple, list)):
        return [_plain(t) for t in x]
    if isinstance(x, dict):
        return {str(k): _plain(t) for k, t in x.items()}
    return f(x)


def _bin(f, a, b):
    if isinstance(a, (tuple, list)):
        return type(a)(_bin(f, x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out
    return f(a, b)


def sample_var(rnd, d):
    lo, hi = d.get("lo"), d.get("hi")
    if d.get("rng"):
        a, b = d["rng"]
        if callable(a):
            return a(rnd)
        v = rnd.uniform(a, b)
    elif d.get("pos"):
        v = math.exp(rnd.uniform(-1.2, 1.2))
    else:
        v = rnd.uniform(-2.2, 2.2)
    if lo is not None and v < lo:
        v = float(lo) + abs(rnd.gauss(0, 0.5))
    if hi is not None and v > hi:
        v = float(hi) - abs(rnd.gauss(0, 0.5))
    return v


# --------------------------------------------------------------------------- one harness run
class Run:
    """explores all paths of one harness"""

    def __init__(self, name, harness, seed=1, tier="quick", budget=240, loop="unroll", bound=60, max_paths=400, goal_tmo=4000, fork_tmo=1500):
        self.fork_tmo = fork_tmo
        self.name = name
        self.h = harness
        self.seed = seed
        self.tier = tier
        self.budget = budget
        self.loop = loop
        self.bound = bound
        self.max_paths = max_paths
        self.goal_tmo = goal_tmo
        self.st = Stats()
        self.functions = set()
        self.prims = set()
        self.vardecl = {}
        self.paths = 0
        self.infeasible = 0
        self.cut = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.links, self.live = {}, set()
        self.validated = 0
        self.unvalidated = 0
        self.failkeys = {}
        self.samples = []
        self.mismatch = []
        self.goalnames = set()
        self.searches = 0
        self.t0 = time.time()

    # -- goals
    def goal_eq(self, ctx, name, a, b, k=0):
        self.obligations += 1
        self.goalnames.add(name)
        S = ctx.S
        r = S.nf(X.add(a, X.neg(b)))
        if S.rf_zero(r):
            self.st.trivial += 1
            self.discharged += 1
            self.z3_confirm_zero(S, r)
            return
        fk = self.failkeys.get(name, 0)
        if fk >= 2:
            # later failing paths of the same goal: only the search in exact arithmetic
            if fk < 10:
                self.failkeys[name] = fk + 1
                self.exact_search(ctx, name, (a, b, k), name + ": not proved on a further path", [], limit=4)
            return
        p = S.signnorm(r.n)
        res, model = ("unknown", None)
        if len(p.d) <= 1500:
            res, model = S.query([(p, "!=")], tmo=self.goal_tmo, want_model=True)
        if res == "unsat":
            self.discharged += 1
            return
        self.candidate(ctx, name, [(p, "!=")], model, res, "%s: residual not zero (%d terms)" % (name, len(p.d)), pair=(a, b, k))

    def z3_confirm_zero(self, S, r):
        """the reduced numerator is the zero polynomial; hand the final claim 0 != 0 to z3"""
        import z3
        s = z3.Solver()
        s.add(S.zpoly(S.red(S.clear_neg(r.n))) != 0)
        t0 = time.time()
        assert s.check() == z3.unsat
        self.st.time += time.time() - t0
        self.st.queries += 1
        self.st.unsat += 1

    def goal_bool(self, ctx, name, b):
        self.obligations += 1
        self.goalnames.add(name)
        S = ctx.S
        if self.failkeys.get(name, 0) >= 2:
            return
        bad = None
        for conj in cnf(b):
            # conj: list of (B atom, polarity): clause; negate: all literals false
            lits = []
            triv = False
            for at, pol in conj:
                if at.k == "T":
                    triv = triv or pol
                    continue
                if at.k == "F":
                    triv = triv or not pol
                    continue
                op = {"gt": ">", "ge": ">=", "eq": "=="}[at.k]
                from .nf import neg_con
                p = S.signpoly(S.nf(at.a[0]))
                lits.append((neg_con(p, op) if pol else (p, op)))
            if triv:
                continue
            contradiction = False
            neg = []
            for p, op in lits:
                p = S.signnorm(p)
                kn = S.known(p, op)
                if kn is False:
                    contradiction = True
                    break
                if kn is None:
                    neg.append((p, op))
            if contradiction:
                self.st.trivial += 1
                continue
            res, model = S.query(neg, tmo=self.goal_tmo, want_model=True)
            if res == "unsat":
                continue
            bad = (neg, model, res)
            break
        if bad is None:
            self.discharged += 1
            return
        self.candidate(ctx, name, bad[0], bad[1], bad[2], name + ": assertion can fail")

    def goal_special(self, ctx, name, v):
        self.obligations += 1
        self.goalnames.add(name)
        if self.failkeys.get(name, 0) >= 2:
            return
        res, model = ctx.S.query([], tmo=self.goal_tmo, want_model=True)
        if res == "unsat":
            self.discharged += 1
            return
        self.candidate(ctx, name, [], model, res, "%s: value is %s" % (name, v))

    def goal_fail(self, ctx, name, why):
        self.obligations += 1
        self.goalnames.add(name)
        if self.failkeys.get(name, 0) >= 2:
            return
        self.candidate(ctx, name, [], None, "static", name + ": " + why)

    def goal_static(self, ctx, name, ok, why):
        if ok:
            self.obligations += 1
            self.goalnames.add(name)
            self.discharged += 1
        else:
            self.goal_fail(ctx, name, why)

    # -- candidates
    def model_env(self, S, model, alt=False, raw=False):
        import z3

        def val(i):
            v = S.z3v.get(i)
            if v is None:
                return None
            r = model.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(r):
                    r = r.approx(20)
                return Fraction(r.numerator_as_long(), r.denominator_as_long()) if z3.is_rational_value(r) else Fraction(r.as_long())
            except Exception:
                return None
        env, mod, sol = {}, {}, {}
        links = {n: a for n, a in self.links.items() if n in self.live} or dict(self.links)
        for n, i in S.index.items():
            q = val(i)
            if q is None:
                continue
            if n in self.vardecl and not n.startswith("$"):
                env[n] = float(q)
            elif n in links:
                sol[n] = float(q)
            else:
                mod[n] = float(q)
        for info in [] if raw else getattr(S, "trig_info", []):
            m, unit, ci, si = info
            c, s = val(ci), val(si)
            if isinstance(m, int) and c is not None and s is not None:
                u = unpack(m)
                self._solve(env, S, u, unit * math.atan2(s, c), alt, mod, sol)
        for key, d in S.expb.items():
            if not raw and isinstance(key, tuple) and key[0] == "m":
                e = val(d["i"])
                if e and e > 0:
                    self._solve(env, S, unpack(key[1]), d["u"] * math.log(e), alt, mod, sol)
        for n, v in sol.items():
            env[links[n]] = v
        return env

    def _solve(self, env, S, u, target, alt, mod, sol):
        """choose the value of one variable of the monomial u so that the monomial equals target"""
        names = [(S.names[i], e) for i, e in u]
        lk = [n for n, e in names if n in sol and e == 1]
        if lk:
            rest = 1.0
            for k, e in names:
                if k != lk[0]:
                    w = env.get(k, sol.get(k, mod.get(k)))
                    if not w:
                        return
                    rest *= w ** e
            sol[lk[0]] = target / rest
            return
        cand = [n for n, e in names if n in self.vardecl and e == 1]
        ang = [n for n in cand if self.vardecl[n].get("angle")]
        if not cand or (alt and not ang):
            return
        n = (ang or cand)[0]
        rest = 1.0
        for k, e in names:
            if k != n:
                if k not in env:
                    return
                rest *= env[k] ** e
        if rest:
            env[n] = target / rest

    def boxes(self, S, rnd, k):
        """extra z3 constraints that keep the model moderate and diverse"""
        import z3
        out = []
        for n, d in self.vardecl.items():
            i = S.index.get(n)
            if i is None or S.isint[i]:
                continue
            v = S.zvar(i)
            if k == 0:
                lo, hi = (Fraction(1, 4), Fraction(4)) if S.pos[i] else (-4, 4)
            elif k == 1:
                lo, hi = (Fraction(1, 50), Fraction(50)) if S.pos[i] else (-50, 50)
            else:
                c = Fraction(sample_var(rnd, d)).limit_denominator(16)
                w = Fraction(1, 4) if k % 2 else Fraction(1)
                lo, hi = c - w, c + w
            out += [v >= z3.Q(Fraction(lo).numerator, Fraction(lo).denominator), v <= z3.Q(Fraction(hi).numerator, Fraction(hi).denominator)]
        return out

    def candidate(self, ctx, name, extra, model, res, why, pair=None):
        """try to reproduce a failing obligation on the real code"""
        if self.violations and self.tier == "quick":
            self.undecided.append("%s/%s: not searched further, this harness already shows a violation" % (self.name, name))
            return
        self.failkeys[name] = self.failkeys.get(name, 0) + 1
        self.live = {e.a[0] for e in X.topo(list(pair[:2])) if e.op == "v"} if pair else set()
        S = ctx.S
        rnd = random.Random(self.seed * 7919 + len(name) + self.failkeys[name])
        t0 = time.time()
        self.searches += 1
        envs = []
        if model is not None:
            envs.append(("z3 model", self.model_env(S, model)))
            envs.append(("z3 model", self.model_env(S, model, alt=True)))
        for k in range(6):
            if time.time() - t0 > 40:
                break
            r, m = S.query(extra, tmo=2500, want_model=True, goal=self.boxes(S, rnd, k))
            if r == "sat":
                envs.append(("z3 model (box %d)" % k, self.model_env(S, m)))
                envs.append(("z3 model (box %d)" % k, self.model_env(S, m, alt=True)))
        tried = 0
        if self.try_envs(ctx, envs, name, why):
            return
        # random completions of models and free samples on the same harness
        n_rand = 40 if self.searches <= 6 else 12
        extra_envs = [("sample", {}) for _ in range(n_rand)]
        if self.try_envs(ctx, extra_envs, name, why, rnd=rnd, limit=60):
            return
        # models of the path condition alone
        envs = []
        for k in range(2, 12):
            if time.time() - t0 > 120:
                break
            r, m = S.query([], tmo=1500, want_model=True, goal=self.boxes(S, rnd, k))
            if r == "sat":
                envs.append(("z3 path model", self.model_env(S, m)))
                e2 = self.model_env(S, m, alt=True)
                envs.append(("z3 path model", e2))
                envs.append(("z3 path model", self.model_env(S, m, raw=True)))
        if not envs:
            r, m = S.query([], tmo=4000, want_model=True)
            if r == "unsat":
                # the path itself is contradictory: vacuous
                self.discharged += 1
                return
            if m is not None:
                envs.append(("z3 path model", self.model_env(S, m)))
        if self.try_envs(ctx, envs, name, why):
            return
        if pair and self.exact_search(ctx, name, pair, why, [e for _, e in envs]):
            return
        self.undecided.append("%s/%s: %s [%s, not reproduced]" % (self.name, name, why, res))

    def exact_search(self, ctx, name, pair, why, envs, limit=20):
        """counterexamples of any magnitude: the two sides of an unproved equation differ in exact (40-digit) arithmetic
        by more than 1e-8 of their size at a point of this path, and the real code shows the same two values"""
        a, b, k = pair
        self.live = {e.a[0] for e in X.topo([a, b]) if e.op == "v"}
        links = {n: al for n, al in self.links.items() if n in self.live}
        # a narrowing to single precision in the code: round-off of that size is the failure looked for
        thr = mp.mpf("2e-9") if any(e.op == "round32" for e in X.topo([a, b])) else mp.mpf("1e-8")
        rnd = random.Random(self.seed * 31 + k)
        t0 = time.time()

        def value(env):
            """relative difference of the two sides in exact arithmetic, None off the path"""
            if not all(X.b_eval(c, env, mp) == r for c, r in ctx.S.trace_dec):
                return None
            va, vb = X.evaluate([a, b], env, mp)
            m, d = max(abs(va), abs(vb)), abs(va - vb)
            return (d / m if m else d, va, vb) if mp.isfinite(d) and m < mp.mpf("1e200") else None

        def report(env, v):
            rel, va, vb = v
            if not (rel > thr and mp.mpf("1e-200") < max(abs(va), abs(vb))):
                return False
            c = NumCtx(dict(env), self.vardecl, rnd)
            self.h(c)
            na, nb = c.eqlog[name, k]
            d = abs(va - vb)
            if not (abs(na - va) <= d / 20 and abs(nb - vb) <= d / 20):
                return False
            self.violations.append(dict(harness=self.name, goal=name, residual=float(rel), env=c.env, source="search at all magnitudes", why=why, calls=c.log[:6],
                                        info="got %s, expected %s (exact arithmetic %s, %s)" % (mp.nstr(na, 12), mp.nstr(nb, 12), mp.nstr(va, 12), mp.nstr(vb, 12))))
            return True
        climbs = 0
        for t in range(400):
            if time.time() - t0 > limit:
                break
            if t < len(envs):
                env = dict(envs[t])
            else:
                env, s = {}, rnd.choice((1, 2, 3, 5, 8))
                for n, d in self.vardecl.items():
                    v = sample_var(rnd, d)
                    if not d.get("angle") and not (d.get("rng") and callable(d["rng"][0])) and rnd.random() < 0.6:
                        v = 10 ** rnd.uniform(-s, s) * (1 if d.get("pos") or rnd.random() < 0.5 else -1)
                        if d.get("lo") is not None and v < d["lo"] or d.get("hi") is not None and v > d["hi"]:
                            v = sample_var(rnd, d)
                    env[n] = v
            for n, al in links.items():
                env[n] = env.setdefault(al, rnd.uniform(-3, 3))
            try:
                v = value(env)
                if v is None:
                    continue
                if report(env, v):
                    return True
            except _noeval:
                if t > len(envs) + 40 and time.time() - t0 > 10:
                    break
                continue
            if climbs >= 5:
                continue
            climbs += 1
            best = v
            for _ in range(40):     # from a point of the path with equal sides towards the largest difference on the path
                if time.time() - t0 > limit:
                    break
                e2 = dict(env)
                for n in rnd.sample(sorted(self.vardecl), min(len(self.vardecl), rnd.choice((1, 1, 2)))):
                    dcl, x = self.vardecl[n], e2.get(n, 0.0)
                    x = x * 10 ** rnd.choice((rnd.uniform(-1, 1), rnd.uniform(-4, 4))) if x else 10 ** rnd.uniform(-8, 0) * (1 if dcl.get("pos") or rnd.random() < 0.5 else -1)
                    if not (dcl.get("lo") is not None and x < dcl["lo"] or dcl.get("hi") is not None and x > dcl["hi"]):
                        e2[n] = x
                for n, al in links.items():
                    e2[n] = e2[al]
                try:
                    v = value(e2)
                    if v is not None and v[0] > best[0]:
                        best, env = v, e2
                        if report(e2, v):
                            return True
                except _noeval:
                    continue
        return False

    def try_envs(self, ctx, envs, name, why, rnd=None, limit=60):
        t0 = time.time()
        for src, env in envs:
            if time.time() - t0 > limit:
                break
            for jitter in range(2 if env else 1):
                e = dict(env)
                if jitter:
                    rr = random.Random(jitter)
                    for k in e:
                        e[k] = e[k] * (1 + 1e-3 * rr.uniform(-1, 1))
                v = self.numeric(e, rnd or random.Random(self.seed))
                if v is None:
                    continue
                n = self.accept(v, name)
                if n is not None and isinstance(v, NumCtx):
                    v = self.numeric(v.env, random.Random(self.seed), eager=True)   # confirm on the plain call
                    n = v and self.accept(v, name)
                    if n is not None and isinstance(v, NumCtx) and self.noisy(v, n[0]):
                        continue
                if n is not None:
                    self.violations.append(dict(harness=self.name, goal=n[0], info=n[2], residual=n[1], env=v.env, source=src, why=why,
                                                calls=v.log[:6]))
                    return True
        return False

    def noisy(self, v, name):
        """is the difference just round-off? then it changes erratically when the inputs move by a few ulps"""
        k = v.worst.get(name)
        if k is None:
            return False
        d0 = v.eqlog[k][0] - v.eqlog[k][1]
        if not mp.isfinite(d0):
            return False
        rr = random.Random(11)
        for _ in range(4):
            w = self.numeric({n: x * (1 + 2e-14 * rr.uniform(-1, 1)) if isinstance(x, float) else x for n, x in v.env.items()}, random.Random(self.seed), eager=True)
            if not isinstance(w, NumCtx) or k not in w.eqlog:
                continue
            d = w.eqlog[k][0] - w.eqlog[k][1]
            if not mp.isfinite(d):
                continue
            if abs(d - d0) > abs(d0) * mp.mpf("0.3") and abs(d) > abs(d0) / 100:
                return True
        return False

    def accept(self, v, name):
        """a numeric failure counts when clearly above round-off"""
        if isinstance(v, CodeRaisesNum):
            return (name, 1.0, str(v.err))
        best = None
        for f in v.failed:
            if f[0] == name or best is None or f[1] > best[1]:
                if best is None or best[0] != name:
                    best = f
        if best is None:
            return None
        return best if best[1] > 1e-6 else None

    def numeric(self, env, rnd, eager=False):
        for _ in range(30):
            c = NumCtx(dict(env), self.vardecl, rnd)
            c.eager = eager
            try:
                self.h(c)
                return c
            except Reject:
                if all(k in env for k in self.vardecl) and self.vardecl:
                    return None
                continue
            except CodeRaises as e:
                r = CodeRaisesNum(e)
                r.env = c.env
                r.log = c.log
                return r
            except (ValueError, OverflowError, ZeroDivisionError):
                return None
        return None

    # -- exploration
    def explore(self):
        stack = [[]]
        while stack:
            if time.time() - self.t0 > self.budget or self.paths >= self.max_paths:
                self.undecided.append("%s: %d paths not explored (budget)" % (self.name, len(stack)))
                break
            prefix = stack.pop()
            st = State(self.st, prefix)
            st.fork_tmo = self.fork_tmo
            ctx = SymCtx(st, self, self.loop, self.bound)
            np_ = len(prefix)
            ok = False
            try:
                self.h(ctx)
                ok = True
            except Infeasible:
                self.infeasible += 1
            except LoopBound:
                self.cut += 1
            except CodeRaises as e:
                self.code_raises(ctx, e)
            except Unsupported as e:
                self.unsupported(ctx, "unsupported: %s" % e)
            except RecursionError as e:
                self.unsupported(ctx, "recursion")
            for i in st.alts:
                stack.append(st.decisions[:i] + [("fork", not st.decisions[i][1])])
            if ok:
                self.paths += 1
                self.validate(ctx)
            if len(self.violations) >= (1 if self.tier == "quick" else 3):
                break
        return self

    def code_raises(self, ctx, e):
        """tracing or running raised: reproduce eagerly"""
        self.obligations += 1
        rnd = random.Random(self.seed)
        for _ in range(6):
            v = self.numeric({}, rnd)
            if isinstance(v, CodeRaisesNum):
                self.violations.append(dict(harness=self.name, goal="runs", info=str(v.err), residual=1.0, env=v.env, source="sample", why=str(e), calls=v.log[:6]))
                return
        self.unsupported(ctx, "cannot be traced symbolically: %s" % e)

    def unsupported(self, ctx, why):
        """no symbolic verdict on this path: numeric search only, reported as undecided"""
        key = "unsupported:" + why[:80]
        self.failkeys[key] = self.failkeys.get(key, 0) + 1
        if self.failkeys[key] > 1:
            return
        self.obligations += 1
        rnd = random.Random(self.seed)
        t0 = time.time()
        for _ in range(60):
            if time.time() - t0 > 60:
                break
            v = self.numeric({}, rnd)
            if v is None:
                continue
            if isinstance(v, CodeRaisesNum) or v.failed:
                f = ("runs", 1.0, str(v.err)) if isinstance(v, CodeRaisesNum) else max(v.failed, key=lambda t: t[1])
                if f[1] > 1e-6:
                    self.violations.append(dict(harness=self.name, goal=f[0], info=f[2], residual=f[1], env=v.env, source="sample", why=why, calls=v.log[:6]))
                    return
        self.undecided.append("%s: %s" % (self.name, why))

    def validate(self, ctx):
        """translator validation: find a random point on this path, compare DAG values with the real outputs"""
        if ctx.eufcut:
            return
        if any(e["loop"] != "exit" for e in ctx.events):
            self.loopy = True
        rnd = random.Random(self.seed + self.paths)
        t0 = time.time()
        tries = 0
        while tries < 200 and time.time() - t0 < 2.0:
            tries += 1
            env = {n: sample_var(rnd, d) for n, d in self.vardecl.items()}
            try:
                if not all(b_sat(b, r, env) for b, r in ctx.S.trace_dec):
                    continue
                c = NumCtx(dict(env), self.vardecl, rnd)
                try:
                    self.h(c)
                except Reject:
                    continue
                except CodeRaises:
                    continue
                if len(c.outs) != len(ctx.outs):
                    continue
                n = 0
                for so, no in zip(ctx.outs, c.outs):
                    for a, b in zip(so, no):
                        for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
                            if isinstance(x, Expr) and not X.issp(x):
                                if ctx.euf:
                                    from . import euf
                                    v = euf.evaluate([x], env)[0]
                                    v = v if isinstance(v, bool) else mp.mpf(float(v))
                                    y = bool(y) if isinstance(v, bool) else y
                                    if mp.isnan(v) and mp.isnan(y) or v == y:
                                        n += 1
                                        continue
                                else:
                                    v = X.evaluate([x], env, mp)[0]
                                s = max(abs(v), abs(y), mp.mpf("1e-2"))
                                n += 1
                                if not abs(v - y) / s < 1e-5:
                                    self.mismatch.append("%s: %s vs %s at %s" % (self.name, mp.nstr(v, 10), mp.nstr(y, 10), env))
                                    return
                self.validated += 1
                if len(self.samples) < 2:
                    self.samples.append(dict(harness=self.name, point={k: round(float(v), 6) for k, v in env.items()}, outputs_compared=n))
                return
            except (KeyError, X.EvalError, NotImplementedError):
                break   # havoc variables: nothing to evaluate
        self.unvalidated += 1

    def result(self):
        s = self.st
        return dict(name=self.name, paths=self.paths, infeasible=self.infeasible, cut=self.cut, obligations=self.obligations,
                    discharged=self.discharged, undecided=self.undecided, violations=self.violations, queries=s.queries,
                    unsat=s.unsat, sat=s.sat, unknown=s.unknown, normalised_to_zero=s.trivial, solver_s=round(s.time, 3), forks=s.forks,
                    functions=sorted(self.functions), primitives=sorted(self.prims), validated=self.validated,
                    unvalidated=self.unvalidated, mismatch=self.mismatch, samples=self.samples, goals=len(self.goalnames),
                    wall_s=round(time.time() - self.t0, 2))


class CodeRaisesNum:
    failed = []

    def __init__(self, err):
        self.err = err


def b_sat(b, r, env):
    vals = X.b_exprs(b)
    for e in vals:
        v = X.evaluate([e], env)[0]
        if not abs(v) > 1e-9:
            return False
    return X.b_eval(b, env) == r


def cnf(b, pol=True):
    """list of clauses (lists of (atom, polarity)) equivalent to b (or not b)"""
    if b.k == "not":
        return cnf(b.a[0], not pol)
    if b.k == "and":
        if pol:
            return cnf(b.a[0]) + cnf(b.a[1])
        l, r = cnf(b.a[0], False), cnf(b.a[1], False)
        return [x + y for x in l for y in r]
    return [[(b, pol)]]
