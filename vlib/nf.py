"""Per-path symbolic state: normal forms over solver variables ("atoms"), path condition, z3 queries."""
import time
from fractions import Fraction
from math import gcd
import z3
from . import expr as X
from .poly import Poly, poly_pow, exact_div, poly_sqrt, unpack, mono, expo


class Infeasible(Exception):
    """the path condition is contradictory"""


class Unsupported(Exception):
    pass


class RF:
    """num / (cd * prod f^k), integer coefficients; num may be a Laurent polynomial"""
    __slots__ = ("n", "cd", "den")

    def __init__(self, n, cd=1, den=None):
        self.n = n
        self.cd = cd
        self.den = den or {}


class Stats:
    def __init__(self):
        self.queries = 0
        self.trivial = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.forks = 0
        self.cofactor = 0


def prim(p):
    """primitive part, positive leading coeff normalisation is NOT done (sign matters)"""
    g = p.content()
    return p.exdiv_int(g)


class State:
    def __init__(self, stats, decisions=(), tmo=3000):
        self.st = stats
        self.tmo = tmo
        self.names = []          # atom index -> name
        self.kind = []           # 'var','sqrt','cos','sin','exp','ang','pi','floor','round','cbrt','log'
        self.pos = []            # known > 0
        self.nonneg = []
        self.nz = []
        self.isint = []
        self.ax = []             # per atom: list of z3 axioms (built lazily as (poly, op))
        self.index = {}
        self.rel = {}            # lead atom -> (k, Poly replacement)  lead^k = repl
        self.relorder = []
        self.used_lead_base = set()
        self.cache = {}
        self.sqrt_key = {}
        self.cbrt_key = {}
        self.trig = {}           # monomial/opaque key -> dict(unit d -> (cosRF, sinRF))
        self.expb = {}
        self.ang_atoms = []      # (idx, cosRF, sinRF)
        self.log_atoms = []
        self.floor_key = {}
        self.round_key = {}
        self.cons = []           # (Poly, op) with op in > >= == !=
        self.conset = {}
        self.hints = []          # Polys h, h>=0 known, for sqrt(h^2)
        self.fork_tmo = 1500
        self.rfhints = []        # RF h, for sqrt(h^2)
        self.decisions = list(decisions)
        self.pos_dec = 0
        self.alts = []
        self.declog = []
        self.trace_dec = []      # list of (B, bool) taken (for numeric validation)
        self.z3v = {}
        self.notes = []
        self.assume_mode = 0
        self.has_floor = False
        self._signcache = {}
        self.defs = {}           # atom idx -> Expr definition (for numeric model check)

    # ------------------------------------------------------------ atoms
    def atom(self, name, kind, pos=False, nonneg=False, nz=False, isint=False, defn=None):
        i = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.pos.append(pos)
        self.nonneg.append(nonneg or pos)
        self.nz.append(nz or pos)
        self.isint.append(isint)
        self.ax.append([])
        self.defs[i] = defn
        mono(i)
        return i

    def var_atom(self, name):
        i = self.index.get(name)
        if i is None:
            i = self.atom(name, "var")
            self.index[name] = i
        return i

    def pi_atom(self):
        i = self.index.get("$pi")
        if i is None:
            i = self.atom("pi!", "pi", pos=True)
            self.index["$pi"] = i
        return i

    # ------------------------------------------------------------ reduction
    def red(self, p):
        if not self.rel or not p.d:
            return p
        sup = p.support()
        for x in self.relorder:
            if x not in sup:
                continue
            k, repl = self.rel[x]
            need = False
            groups = {}
            for m, c in p.d.items():
                e = expo(m, x)
                q = e // k
                if q > 0 or (q < 0 and k == 1):
                    need = True
                elif e < 0:
                    q = 0
                groups.setdefault(q, {})[m - mono(x, k * q)] = c
            if need:
                acc = Poly(groups.pop(0, {}))
                qs = sorted(groups)
                mn = qs[0]
                # negative q only for k == 1 with monomial replacement
                for q in qs:
                    if q < 0:
                        if len(repl.d) != 1:
                            raise Unsupported("neg power of eliminated atom")
                        (m0, c0), = repl.d.items()
                        if abs(c0) != 1:
                            raise Unsupported("neg power")
                        acc = acc + Poly(groups[q]).shift(m0 * q).scale(c0 ** (-q))
                pw = Poly.const(1)
                last = 0
                for q in qs:
                    if q < 0:
                        continue
                    for _ in range(q - last):
                        pw = self.red(pw * repl) if last + _ > 0 else repl
                    last = q
                    acc = acc + Poly(groups[q]) * pw
                return self.red(acc)
        return p

    def add_rel(self, lead, k, repl):
        self.rel[lead] = (k, repl)
        # newest atoms first, base variables used as leads last
        self.relorder = sorted(self.rel, key=lambda i: (self.kind[i] == "var", -i))

    def pmul(self, a, b):
        r = a * b
        if self.rel and len(a.d) and len(b.d):
            s = a.support() & b.support()
            for x in self.relorder:
                if x in s:
                    return self.red(r)
        return r

    def ppow(self, p, n):
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r if r is not None else Poly.const(1)

    def clear_neg(self, p):
        """multiply by monomials so that no atom that is a lead has negative exponent; returns poly"""
        c = p.mono_content()
        s = 0
        for v, e in c.items():
            if e < 0 and v in self.rel:
                s += mono(v, -e)
        return self.red(p.shift(s)) if s else p

    def is_zero_poly(self, p):
        p = self.red(p)
        if p.is_zero():
            return True
        if p.is_const():
            return False
        q = self.clear_neg(p)
        return q.is_zero()

    # ------------------------------------------------------------ RF arithmetic
    def rf_const(self, q):
        q = Fraction(q)
        return RF(Poly.const(q.numerator), q.denominator)

    def rf_norm(self, r):
        if r.n.is_zero():
            return RF(Poly.const(0))
        if r.cd != 1:
            g = gcd(r.n.content(), r.cd)
            if g > 1:
                return RF(r.n.exdiv_int(g), r.cd // g, r.den)
        return r

    def rf_add(self, a, b):
        if a.n.is_zero():
            return b
        if b.n.is_zero():
            return a
        g = gcd(a.cd, b.cd)
        cd = a.cd // g * b.cd
        na, nb = a.n.scale(b.cd // g), b.n.scale(a.cd // g)
        if a.den == b.den:
            den = a.den
        else:
            den = dict(a.den)
            for f, k in b.den.items():
                den[f] = max(k, den.get(f, 0))
            for f, k in den.items():
                da = k - a.den.get(f, 0)
                db = k - b.den.get(f, 0)
                if da:
                    na = self.pmul(na, self.ppow(f, da))
                if db:
                    nb = self.pmul(nb, self.ppow(f, db))
        r = RF(self.red(na + nb), cd, den)
        return self.rf_norm(self.cancel(r))

    def cancel(self, r):
        if not r.den or r.n.is_zero():
            return r
        den = r.den
        n = r.n
        ch = False
        for f in list(den):
            if len(f.d) > 60 or len(n.d) > 3000:
                continue
            if len(n.d) < len(f.d):
                # cheap necessary condition: quotient of a product has at least 1 term; try anyway for equal sizes
                if len(n.d) * 1 < 1:
                    continue
            while f in den:
                q = exact_div(n, f)
                if q is None:
                    break
                n = q
                if not ch:
                    den = dict(den)
                    ch = True
                den[f] -= 1
                if not den[f]:
                    del den[f]
        return RF(n, r.cd, den) if ch else r

    def rf_mul(self, a, b):
        if a.n.is_zero() or b.n.is_zero():
            return RF(Poly.const(0))
        if a.den or b.den:
            na, nb = a.n, b.n
            da, db = dict(a.den), dict(b.den)
            # direct cancellation of equal factors
            for n, d in ((0, db), (1, da)):
                p = na if n == 0 else nb
                for f in list(d):
                    while f in d:
                        q = exact_div(p, f) if len(f.d) <= 60 and len(p.d) <= 2000 else None
                        if q is None:
                            break
                        p = q
                        d[f] -= 1
                        if not d[f]:
                            del d[f]
                if n == 0:
                    na = p
                else:
                    nb = p
            den = da
            for f, k in db.items():
                den[f] = den.get(f, 0) + k
            return self.rf_norm(RF(self.pmul(na, nb), a.cd * b.cd, den))
        return self.rf_norm(RF(self.pmul(a.n, b.n), a.cd * b.cd, {}))

    def rf_neg(self, a):
        return RF(-a.n, a.cd, a.den)

    def rf_pow(self, a, n):
        if n == 0:
            return self.rf_const(1)
        if n < 0:
            return self.rf_inv(self.rf_pow(a, -n))
        return self.rf_norm(RF(self.ppow(a.n, n), a.cd ** n, {f: k * n for f, k in a.den.items()}))

    def rf_inv(self, a):
        """1/a, a known nonzero"""
        n = self.red(a.n)
        if n.is_zero():
            raise Unsupported("inverse of zero")
        num = Poly.const(a.cd)
        for f, k in a.den.items():
            num = self.pmul(num, self.ppow(f, k))
        den = {}
        c = n.content()
        # monomial content
        mc = n.mono_content()
        sh = 0
        for v, e in mc.items():
            sh += mono(v, e)
        core = n.shift(-sh).exdiv_int(c)
        if core.is_const():
            if core.const_val() < 0:
                num = -num
        else:
            lead = core.d[max(core.d)]
            if lead < 0:
                core = -core
                num = -num
            den[core] = 1
        invm = 0
        for v, e in mc.items():
            if v in self.rel and e > 0:
                k, repl = self.rel[v]
                if k == 2 and self.kind[v] == "sqrt" and e == 1:
                    # 1/S = S/rad
                    num = self.pmul(num, Poly.var(v))
                    inner = self.rf_inv(RF(repl))
                    num = self.pmul(num, inner.n)
                    c *= inner.cd
                    for f, kk in inner.den.items():
                        den[f] = den.get(f, 0) + kk
                else:
                    f = Poly.var(v)
                    den[f] = den.get(f, 0) + e
            else:
                invm -= mono(v, e)
        num = self.red(num.shift(invm))
        return self.rf_norm(self.cancel(RF(num, c, den)))

    # ------------------------------------------------------------ normal form
    def nf(self, e):
        c = self.cache
        if e.id in c:
            return c[e.id]
        for x in X.topo([e]):
            if x.id in c:
                continue
            c[x.id] = self._nf1(x)
        return c[e.id]

    def _nf1(self, x):
        o, a, c = x.op, x.a, self.cache
        if o == "c":
            return self.rf_const(a[0])
        if o == "v":
            return RF(self.red(Poly.var(self.var_atom(a[0]))))
        if o == "pi":
            return RF(Poly.var(self.pi_atom()))
        if o == "sp":
            raise Unsupported("special value in arithmetic")
        if o == "add":
            return self.rf_add(c[a[0].id], c[a[1].id])
        if o == "neg":
            return self.rf_neg(c[a[0].id])
        if o == "mul":
            return self.rf_mul(c[a[0].id], c[a[1].id])
        if o == "div":
            return self.rf_mul(c[a[0].id], self.rf_inv(c[a[1].id]))
        if o == "ipow":
            return self.rf_pow(c[a[0].id], a[1])
        if o == "sqrt":
            return self.rf_sqrt(c[a[0].id], x)
        if o == "cbrt":
            return self.rf_cbrt(c[a[0].id], x)
        if o in ("sin", "cos"):
            p = self.rf_trig(c[a[0].id], a[0])
            return p[0] if o == "cos" else p[1]
        if o == "exp":
            return self.rf_exp(c[a[0].id], a[0])
        if o == "log":
            return self.rf_log(c[a[0].id], x)
        if o in ("acos", "asin", "atan", "atan2"):
            return self.rf_arc(x)
        if o == "floor":
            return self.rf_floor(c[a[0].id], x)
        if o == "round32":
            return self.rf_opaque("round", c[a[0].id], x)
        raise Unsupported("nf " + o)

    def rf_zero(self, r):
        return self.is_zero_poly(r.n)

    def rf_eq(self, a, b):
        return self.rf_zero(self.rf_add(a, self.rf_neg(b)))

    # --- sqrt
    def rf_sqrt(self, r, x):
        n = self.red(r.n)
        if self.is_zero_poly(n):
            return RF(Poly.const(0))
        for h in self.rfhints:
            if self.rf_zero(self.rf_add(self.rf_mul(h, h), self.rf_neg(r))):
                return h if self.decide(("p", self.signpoly(h), ">=")) else self.rf_neg(h)
        cd = r.cd
        Q = n.scale(cd)
        out_den = {}
        for f, k in r.den.items():
            if k % 2:
                Q = self.pmul(Q, f)
                k += 1
            out_den[f] = k // 2
        out = RF(Poly.const(1), cd)
        for f, k in out_den.items():
            if k % 2:
                s = self.sign_of(f)
                if s < 0:
                    out = self.rf_neg(out)
            out = self.rf_mul(out, RF(Poly.const(1), 1, {f: k}))
        # content
        Q = self.red(Q)
        g = Q.content()
        sq = 1
        d = 2
        gg = g
        while d * d <= gg and d < 4000:
            while gg % (d * d) == 0:
                gg //= d * d
                sq *= d
            d += 1
        from .poly import _isqrt
        s_ = _isqrt(gg)
        if s_ and s_ > 1:
            sq *= s_
            gg = 1
        Q = Q.exdiv_int(sq * sq)
        mc = Q.mono_content()
        sh = 0
        om = Poly.const(sq)
        for v, e in mc.items():
            h = e // 2
            if not h:
                continue
            if h % 2 and not self.nonneg[v]:
                if self.sign_of(Poly.var(v)) < 0:
                    om = -om
            sh += mono(v, 2 * h)
            om = self.pmul(om, Poly.var(v, h))
        Q = self.red(Q.shift(-sh))
        out = self.rf_mul(out, RF(om))
        root = self.sqrt_core(Q, x)
        return self.rf_mul(out, root)

    def sqrt_core(self, Q, x):
        if Q.is_const() and Q.const_val() == 1:
            return RF(Poly.const(1))
        k = Q
        if k in self.sqrt_key:
            return RF(self.red(Poly.var(self.sqrt_key[k])))
        ps = poly_sqrt(Q)
        if ps is None:
            # single-variable factor already a perfect power of a lead relation, e.g. 1 - s^2 = c^2
            for h in self.square_candidates(Q):
                if self.is_zero_poly(self.pmul(h, h) - Q):
                    ps = h
                    break
        if ps is not None:
            s = self.sign_of(ps)
            return RF(ps if s >= 0 else -ps)
        # same radicand up to a known factor?  S*T combinations are left to the solver
        i = self.atom("s%d" % len(self.names), "sqrt", nonneg=True, defn=None)
        self.sqrt_key[k] = i
        # prefer eliminating a plain squared base variable: x^2 -> S^2 - rest
        lead = None
        allvar = all(self.kind[v] == "var" and v not in self.rel for v in Q.support())
        if allvar and len(Q.d) > 1:
            for v in sorted(Q.support()):
                m2 = mono(v, 2)
                if Q.d.get(m2) == 1 and all(m == m2 or expo(m, v) == 0 for m in Q.d):
                    lead = v
                    break
        if lead is not None:
            rest = Q - Poly({mono(lead, 2): 1})
            self.add_rel(lead, 2, Poly.var(i, 2) - rest)
            self.flush()
        else:
            self.add_rel(i, 2, Q)
        # the radicand relation is also given to z3 unreduced
        self.ax[i].append((Poly.var(i, 2) - Q, "=="))
        sgn = self.sign_known(Q)
        if sgn is not None and sgn > 0:
            self.pos[i] = True
            self.nz[i] = True
        return RF(Poly.var(i))

    def square_candidates(self, Q):
        out = list(self.hints)
        sup = Q.support()
        # cos from 1 - s^2 and similar: products of cos atoms whose sin occurs
        for key, d in self.trig.items():
            for u, (cc, ss) in d.items():
                for t in (cc, ss):
                    if not t.den and t.cd == 1 and len(t.n.d) == 1:
                        out.append(t.n)
        return out

    def flush(self):
        """a base variable became a lead: forget cached normal forms containing it"""
        for k, r in list(self.cache.items()):
            self.cache[k] = self.redrf(r)
        for tab in (self.sqrt_key, self.cbrt_key):
            for k, i in list(tab.items()):
                tab.setdefault(self.red(k), i)

    def redrf(self, r):
        """normal form of r under the current relations, common factors divided out"""
        n, den, cd = self.red(r.n), {}, r.cd
        for f, k in r.den.items():
            f = self.red(f)
            if f.is_zero():
                return RF(n, r.cd, r.den)
            if len(f.d) == 1:
                (m, c), = f.d.items()
                n = self.red(n.shift(-k * m).scale((1 if c > 0 else -1) ** k))
                cd *= abs(c) ** k
                continue
            den[f] = den.get(f, 0) + k
        for f in list(den):
            while f in den:
                q = exact_div(n, f) if len(f.d) <= 60 and len(n.d) <= 2000 else None
                if q is None:
                    break
                n = q
                den[f] -= 1
                if not den[f]:
                    del den[f]
        return RF(n, cd, den)

    # --- cbrt
    def rf_cbrt(self, r, x):
        n = self.red(r.n)
        if self.is_zero_poly(n):
            return RF(Poly.const(0))
        Q = n.scale(r.cd ** 2)
        out = RF(Poly.const(1), r.cd)
        for f, k in r.den.items():
            while k % 3:
                Q = self.pmul(Q, f)
                k += 1
            out = self.rf_mul(out, RF(Poly.const(1), 1, {f: k // 3}))
        g = Q.content()
        cb = 1
        d = 2
        while d ** 3 <= g and d < 4000:
            while g % d ** 3 == 0:
                g //= d ** 3
                cb *= d
            d += 1
        Q = Q.exdiv_int(cb ** 3)
        mc = Q.mono_content()
        sh, om = 0, Poly.const(cb)
        for v, e in mc.items():
            h = e // 3
            if h:
                sh += mono(v, 3 * h)
                om = self.pmul(om, Poly.var(v, h))
        Q = self.red(Q.shift(-sh))
        out = self.rf_mul(out, RF(om))
        if Q.is_const() and Q.const_val() == 1:
            return out
        if Q.is_const() and Q.const_val() == -1:
            return self.rf_neg(out)
        if Q not in self.cbrt_key:
            i = self.atom("k%d" % len(self.names), "cbrt")
            self.cbrt_key[Q] = i
            self.add_rel(i, 3, Q)
            self.ax[i].append((Poly.var(i, 3) - Q, "=="))
            s = self.sign_known(Q)
            if s and s > 0:
                self.pos[i] = self.nonneg[i] = self.nz[i] = True
        return self.rf_mul(out, RF(Poly.var(self.cbrt_key[Q])))

    # --- linear decomposition of arguments
    def lin_terms(self, r):
        """list of (monomial, Fraction) or None when r has a non-monomial denominator"""
        if r.den:
            r = self.redrf(r)
        if r.den:
            return None
        return [(m, Fraction(c, r.cd)) for m, c in sorted(r.n.d.items())]

    def trig_base(self, m, q, argexpr):
        """(cos, sin) RF pair of q*m for a monomial m"""
        neg = q < 0
        q = abs(q)
        d = self.trig.setdefault(("m", m), {})
        if not d:
            # angle atoms with known cos / sin
            u = unpack(m)
            if len(u) == 1 and u[0][1] == 1 and self.kind[u[0][0]] == "ang":
                for i, cc, ss in self.ang_atoms:
                    if i == u[0][0]:
                        d[1] = (cc, ss)
            if not d:
                self.new_pair(d, q.denominator, m)
        units = max(d)
        if units % q.denominator:
            import math
            nu = units * q.denominator // math.gcd(units, q.denominator)
            old = d[units]
            if not (len(old[0].n.d) == 1 and not old[0].den and old[0].cd == 1 and self.kind[unpack(next(iter(old[0].n.d)))[0][0]] == "cos"):
                return self.opaque_pair(("half", m, q), argexpr)
            self.new_pair(d, nu, m)
            cm, sm = self.multiple(d[nu], nu // units)
            ci = unpack(next(iter(old[0].n.d)))[0][0]
            si = unpack(next(iter(old[1].n.d)))[0][0]
            del self.rel[ci]
            self.add_rel(ci, 1, cm.n)
            self.add_rel(si, 1, sm.n)
            self.flush()
            d[units] = (cm, sm)
            units = nu
        cc, ss = self.multiple(d[units], int(q * units))
        return (cc, self.rf_neg(ss) if neg else ss)

    def new_pair(self, d, unit, m):
        n = len(self.names)
        ci = self.atom("c%d" % n, "cos")
        si = self.atom("n%d" % n, "sin")
        self.add_rel(ci, 2, Poly.const(1) - Poly.var(si, 2))
        self.ax[ci].append((Poly.var(ci, 2) + Poly.var(si, 2) - Poly.const(1), "=="))
        self.ax[si].append((Poly.var(ci, 2) + Poly.var(si, 2) - Poly.const(1), "=="))
        d[unit] = (RF(Poly.var(ci)), RF(Poly.var(si)))
        self.trig_info = getattr(self, "trig_info", [])
        self.trig_info.append((m, unit, ci, si))

    def multiple(self, pair, k):
        c, s = pair
        if k == 0:
            return self.rf_const(1), self.rf_const(0)
        rc, rs = c, s
        for _ in range(k - 1):
            rc, rs = (self.rf_add(self.rf_mul(rc, c), self.rf_neg(self.rf_mul(rs, s))),
                      self.rf_add(self.rf_mul(rs, c), self.rf_mul(rc, s)))
        return rc, rs

    def pi_pair(self, q):
        q = q % 2
        t = q * 12
        if t.denominator != 1:
            return None
        t = int(t)
        K = lambda x: self.rf_const(x)
        def rt(n):
            return self.rf_mul(self.sqrt_core(Poly.const(n), None), self.rf_const(Fraction(1, 2)))
        def cosv(t):
            t %= 24
            if t > 12:
                t = 24 - t
            if t > 6:
                r = cosv(12 - t)
                return None if r is None else self.rf_neg(r)
            return {0: lambda: K(1), 2: lambda: rt(3), 3: lambda: rt(2), 4: lambda: K(Fraction(1, 2)), 6: lambda: K(0)}.get(t, lambda: None)()
        c, s = cosv(t), cosv(t - 6)
        return None if c is None or s is None else (c, s)

    def opaque_pair(self, key, argexpr):
        d = self.trig.setdefault(key, {})
        if not d:
            self.new_pair(d, 1, key)
        return d[1]

    def rf_trig(self, r, argexpr):
        if self.rf_zero(r):
            return self.rf_const(1), self.rf_const(0)
        ts = self.lin_terms(r)
        if ts is None or len(ts) > 5:
            # opaque argument: match against known opaque arguments up to sign
            for key, d in list(self.trig.items()):
                if key[0] == "o":
                    if self.rf_eq(key[1], r):
                        return d[1]
                    if self.rf_eq(key[1], self.rf_neg(r)):
                        return d[1][0], self.rf_neg(d[1][1])
            return self.opaque_pair(("o", r), argexpr)
        pi = self.index.get("$pi")
        c, s = self.rf_const(1), self.rf_const(0)
        for m, q in ts:
            if abs(q.numerator) > 12 and not (pi is not None and m == mono(pi)):
                c2, s2 = self.opaque_pair(("m", m, q), argexpr)
            elif m == 0:
                c2, s2 = self.opaque_pair(("const", abs(q)), argexpr)
                if q < 0:
                    s2 = self.rf_neg(s2)
            elif pi is not None and m == mono(pi):
                pr = self.pi_pair(q)
                if pr is None:
                    pr = self.opaque_pair(("pi", q), argexpr)
                c2, s2 = pr
            else:
                c2, s2 = self.trig_base(m, q, argexpr)
            c, s = (self.rf_add(self.rf_mul(c, c2), self.rf_neg(self.rf_mul(s, s2))),
                    self.rf_add(self.rf_mul(s, c2), self.rf_mul(c, s2)))
        return c, s

    # --- exp / log
    def exp_base(self, key, q):
        d = self.expb.setdefault(key, {})
        import math
        if not d:
            i = self.atom("e%d" % len(self.names), "exp", pos=True)
            d["u"] = q.denominator
            d["i"] = i
            d["key"] = key
        if d["u"] % q.denominator:
            nu = d["u"] * q.denominator // math.gcd(d["u"], q.denominator)
            i = self.atom("e%d" % len(self.names), "exp", pos=True)
            self.add_rel(d["i"], 1, Poly.var(i, nu // d["u"]))
            self.flush()
            d["u"], d["i"] = nu, i
        return RF(Poly.var(d["i"], int(q * d["u"])))

    def rf_exp(self, r, argexpr):
        if self.rf_zero(r):
            return self.rf_const(1)
        ts = self.lin_terms(r)
        if ts is None or len(ts) > 5:
            for key, d in list(self.expb.items()):
                if isinstance(key, tuple) and key[0] == "o":
                    if self.rf_eq(key[1], r):
                        return RF(Poly.var(d["i"], d["u"]))
                    if self.rf_eq(key[1], self.rf_neg(r)):
                        return RF(Poly.var(d["i"], -d["u"]))
            return self.exp_base(("o", r), Fraction(1))
        out = self.rf_const(1)
        for m, q in ts:
            u = unpack(m)
            if len(u) == 1 and u[0][1] == 1 and self.kind[u[0][0]] == "log" and q.denominator == 1:
                for i, arg in self.log_atoms:
                    if i == u[0][0]:
                        out = self.rf_mul(out, self.rf_pow(arg, int(q)))
                continue
            if abs(q.numerator) > 4000:
                out = self.rf_mul(out, self.exp_base(("mm", m, q), Fraction(1)))
                continue
            out = self.rf_mul(out, self.exp_base(("m", m), q))
        return out

    def rf_log(self, r, x):
        # log of a pure exp atom power
        if not r.den and r.cd == 1 and len(r.n.d) == 1:
            (m, c), = r.n.d.items()
            u = unpack(m)
            if c == 1 and len(u) == 1 and self.kind[u[0][0]] == "exp":
                for key, d in self.expb.items():
                    if d["i"] == u[0][0] and isinstance(key, tuple) and key[0] == "m":
                        return self.rf_mul(RF(Poly({key[1]: 1})), self.rf_const(Fraction(u[0][1], d["u"])))
        for i, arg in self.log_atoms:
            if self.rf_eq(arg, r):
                return RF(Poly.var(i))
        for i, arg in self.log_atoms:
            if self.rf_eq(self.rf_mul(arg, r), self.rf_const(1)):
                return RF(-Poly.var(i))
        i = self.atom("l%d" % len(self.names), "log")
        self.log_atoms.append((i, r))
        return RF(Poly.var(i))

    # --- inverse trig: principal angle in (-pi, pi] with known cos and sin
    def rf_arc(self, x):
        o, a, c = x.op, x.a, self.cache
        K = self.rf_const
        if o == "acos":
            u = c[a[0].id]
            cc, ss = u, self.rf_sqrt_expr(X.ONE - a[0] * a[0])
            rng = "up"
        elif o == "asin":
            u = c[a[0].id]
            cc, ss = self.rf_sqrt_expr(X.ONE - a[0] * a[0]), u
            rng = "right"
        elif o == "atan":
            hinv = self.rf_inv(self.rf_sqrt_expr(X.ONE + a[0] * a[0]))
            cc, ss = hinv, self.rf_mul(c[a[0].id], hinv)
            rng = "right"
        else:
            y, xx = a
            h = self.rf_sqrt_expr(y * y + xx * xx)
            if self.rf_zero(h):
                return RF(Poly.const(0))
            self.require_nonzero(h.n)
            hinv = self.rf_inv(h)
            cc, ss = self.rf_mul(c[xx.id], hinv), self.rf_mul(c[y.id], hinv)
            rng = "full"
        for i, c2, s2 in self.ang_atoms:
            if self.rf_eq(cc, c2) and self.rf_eq(ss, s2):
                return RF(Poly.var(i))
            if self.rf_eq(cc, c2) and self.rf_eq(ss, self.rf_neg(s2)) and not self.rf_zero(ss):
                # -theta (theta != pi because sin not identically 0; boundary: solver-level axioms)
                if rng == "full" or rng == "right":
                    if self.sign_known(ss.n) is not None or True:
                        return self._neg_angle(i, cc, ss)
        if self.rf_eq(cc, K(1)):
            return RF(Poly.const(0))
        if self.rf_eq(cc, K(-1)):
            return RF(Poly.var(self.pi_atom()))
        i = self.atom("t%d" % len(self.names), "ang")
        self.ang_atoms.append((i, cc, ss))
        self.trig[("m", mono(i))] = {1: (cc, ss)}
        pi = self.pi_atom()
        th, P = Poly.var(i), Poly.var(pi)
        ax = self.ax[i]
        ax.append((P - th, ">="))
        ax.append((P + th, ">"))
        # sign(sin) = sign(theta) on (-pi, pi); theta = 0 or pi iff sin = 0
        sn, cn = self.signpoly(ss), self.signpoly(cc)
        ax.append(("iff", (th, ">="), (sn, ">=")))
        ax.append(("imp", (sn, ">"), (th, ">")))
        ax.append(("imp", (sn, ">"), (P - th, ">")))
        ax.append(("imp", (cn, ">"), (P - th.scale(2), ">")))
        ax.append(("imp", (cn, ">"), (P + th.scale(2), ">")))
        ax.append(("imp", (-cn, ">"), (th.scale(4).__mul__(th) - P * P, ">")))
        ax.append(("imp2", (cn, "=="), (th.scale(4) * th - P * P, "==")))
        ax.append(("imp2s", (sn, "=="), (cn, ">"), (th, "==")))
        ax.append(("imp2s", (sn, "=="), (-cn, ">"), (P - th, "==")))
        return RF(Poly.var(i))

    def _neg_angle(self, i, cc, ss):
        # atan2(-y, x) = -atan2(y, x) unless the angle is exactly pi
        if self.decide(("poly", self.signpoly(ss), "==")):
            return RF(Poly.var(self.pi_atom())) if self.decide(("poly", -self.signpoly(cc), ">")) else RF(Poly.const(0))
        return RF(-Poly.var(i))

    def rf_sqrt_expr(self, e):
        r = self.nf(e)
        return self.nf(X.fn("sqrt", e)) if e.op != "c" else self.nf(X.fn("sqrt", e))

    # --- floor, opaque
    def rf_floor(self, r, x):
        for (i, arg) in self.floor_key.values():
            if self.rf_eq(arg, r):
                return RF(Poly.var(i))
        i = self.atom("f%d" % len(self.names), "floor", isint=True)
        self.floor_key[i] = (i, r)
        k = RF(Poly.var(i))
        lo = self.rf_add(r, self.rf_neg(k))
        hi = self.rf_add(self.rf_add(k, self.rf_const(1)), self.rf_neg(r))
        self.ax[i].append((self.signpoly(lo), ">="))
        self.ax[i].append((self.signpoly(hi), ">"))
        self.has_floor = True
        return k

    def rf_opaque(self, kind, r, x):
        for (i, arg) in self.round_key.values():
            if self.rf_eq(arg, r):
                return RF(Poly.var(i))
        i = self.atom("o%d" % len(self.names), kind)
        self.round_key[i] = (i, r)
        return RF(Poly.var(i))

    # ------------------------------------------------------------ signs
    def signpoly(self, r):
        """polynomial with the same sign as the RF r (denominators' signs decided when known)"""
        p = self.red(r.n)
        for f, k in r.den.items():
            if k % 2:
                s = self.sign_known(f)
                if s is None or s == 0:
                    p = self.pmul(p, f)
                elif s < 0:
                    p = -p
        return self.signnorm(p)

    def signnorm(self, p):
        """divide by content and by monomials known positive"""
        p = self.clear_neg(self.red(p))
        if p.is_zero():
            return p
        mc = p.mono_content()
        sh = 0
        for v, e in mc.items():
            if self.pos[v]:
                sh += mono(v, e)
            elif self.nz[v] or e < 0:
                ee = e if e % 2 == 0 else e - 1
                sh += mono(v, ee)
        return prim(p.shift(-sh))

    def sign_known(self, p):
        """+1/-1 (strict), 0 if identically zero, None if not known without forking"""
        p = self.signnorm(p)
        if p.is_zero():
            return 0
        if p.is_const():
            return 1 if p.const_val() > 0 else -1
        s = self.syntactic(p)
        if s:
            return s
        if p in self._signcache:
            return self._signcache[p]
        if self.pos_dec < len(self.decisions):
            s = self.decisions[self.pos_dec]
        else:
            s = 1 if self.valid(p, ">") else -1 if self.valid(-p, ">") else None
            self.decisions.append(s)
        self.pos_dec += 1
        if s is None:
            return None
        self._signcache[p] = s
        self._signcache[-p] = -s
        return s

    def syntactic(self, p):
        """sign from monomials: +1 if all terms nonneg and one strictly positive"""
        for sg in (1, -1):
            strict = False
            ok = True
            for m, c in p.d.items():
                if c * sg < 0:
                    ok = False
                    break
                st = True
                for v, e in unpack(m):
                    if e % 2 and not self.nonneg[v]:
                        ok = False
                        break
                    if not (self.pos[v] or self.nz[v]):
                        st = False
                if not ok:
                    break
                strict = strict or st
            if ok and strict:
                return sg
            if ok and self.conset.get((p if sg > 0 else -p, ">")):
                return sg
        if self.conset.get((p, ">")):
            return 1
        if self.conset.get((-p, ">")):
            return -1
        return 0

    def sign_of(self, p):
        """sign of p, forking when undetermined: +1 means p >= 0, -1 means p < 0 (p == 0 counted as +)"""
        s = self.sign_known(p)
        if s is not None:
            return s if s else 1
        return 1 if self.decide(("poly", p, ">=")) else -1

    # ------------------------------------------------------------ z3
    def zvar(self, i):
        v = self.z3v.get(i)
        if v is None:
            v = z3.Int("a%d_%s" % (i, self.names[i])) if self.isint[i] else z3.Real("a%d_%s" % (i, self.names[i]))
            self.z3v[i] = v
        return v

    def zpoly(self, p):
        # clear negative exponents with even powers (atoms in denominators are nonzero)
        mc = {}
        for m in p.d:
            for v, e in unpack(m):
                if e < 0:
                    mc[v] = min(mc.get(v, 0), e)
        sh = 0
        for v, e in mc.items():
            k = -e
            if k % 2 and not self.pos[v]:
                k += 1
            sh += mono(v, k)
        terms = []
        for m, c in p.d.items():
            fs = []
            for v, e in unpack(m + sh):
                z = self.zvar(v)
                if self.isint[v]:
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            if not fs:
                terms.append(z3.RealVal(c))
            else:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs) if len(fs) < 2 else _prod(fs)
                terms.append(t if c == 1 else z3.RealVal(c) * t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)

    def zcon(self, p, op):
        z = self.zpoly(p)
        return {">": z > 0, ">=": z >= 0, "==": z == 0, "!=": z != 0}[op]

    def zaxioms(self, atoms):
        """axioms of the atoms and, transitively, of the atoms they mention"""
        todo, seen, out = list(atoms), set(), []
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            z = self.zvar(i)
            if self.isint[i] is False:
                if self.pos[i]:
                    out.append(z > 0)
                elif self.nonneg[i]:
                    out.append(z >= 0)
                elif self.nz[i]:
                    out.append(z != 0)
            if self.kind[i] == "pi":
                out.append(z > z3.Q(31415926535897932, 10 ** 16))
                out.append(z < z3.Q(31415926535897933, 10 ** 16))
            if self.kind[i] in ("cos", "sin"):
                out.append(z <= 1)
                out.append(z >= -1)
            for ax in self.ax[i]:
                if isinstance(ax[0], str):
                    ps = [t[0] for t in ax[1:]]
                    cs = [self.zcon(*t) for t in ax[1:]]
                    if ax[0] == "iff":
                        out.append(cs[0] == cs[1])
                    elif ax[0] == "imp2s":
                        out.append(z3.Implies(z3.And(cs[0], cs[1]), cs[2]))
                    else:
                        out.append(z3.Implies(cs[0], cs[1]))
                else:
                    ps = [ax[0]]
                    out.append(self.zcon(*ax))
                for p in ps:
                    todo.extend(p.support())
            # base variables eliminated through a norm atom
            if i in self.rel and self.kind[i] == "var":
                k, repl = self.rel[i]
                out.append(self.zcon(Poly.var(i, k) - repl, "=="))
                todo.extend(repl.support())
        return out, seen

    def query(self, extra, tmo=None, want_model=False, rel_only=False, goal=None):
        """satisfiability of path condition and `extra` (list of (Poly, op)); returns 'sat','unsat','unknown', model"""
        tmo = tmo or self.tmo
        sup = set()
        for p, op in extra:
            sup |= p.support()
        cons = self.cons
        full = True
        if rel_only:
            _, seen = self.zaxioms(sup)
            cons = [(p, op) for p, op in cons if p.support() <= seen]
        elif extra and goal is None:
            # constraints not connected to the question cannot make it unsatisfiable (the path is feasible)
            _, seen = self.zaxioms(sup)
            rest, cons = list(self.cons), []
            ch = True
            while ch and rest:
                ch = False
                nr = []
                for p, op in rest:
                    if p.support() & seen:
                        cons.append((p, op))
                        seen = self.zaxioms(seen | p.support())[1]
                        ch = True
                    else:
                        nr.append((p, op))
                rest = nr
            full = not rest
        for p, op in cons:
            sup |= p.support()
        ax, seen = self.zaxioms(sup)
        fs = ax + [self.zcon(p, op) for p, op in cons] + [self.zcon(p, op) for p, op in extra]
        if goal is not None:
            fs += goal
        ints = any(self.isint[i] for i in seen)
        t0 = time.time()
        res, model = "unknown", None
        stages = [("smt", min(tmo, 1000)), ("nlsat", tmo), ("smt", tmo)]
        for kind, tm in stages:
            s = z3.SolverFor("QF_NRA") if kind == "nlsat" and not ints else z3.Solver()
            s.set("timeout", int(tm))
            for f in fs:
                s.add(f)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                res = str(r)
                if r == z3.sat and want_model:
                    model = s.model()
                break
        self.st.time += time.time() - t0
        self.st.queries += 1
        setattr(self.st, res, getattr(self.st, res) + 1)
        if res == "sat" and want_model and not full:
            r2, m2 = self.query(extra, tmo=tmo, want_model=True, goal=[])
            if r2 != "unknown":
                return r2, m2
        return res, model

    def valid(self, p, op, tmo=1500):
        """does the path condition imply (p op 0)?"""
        n = neg_con(p, op)
        if not self.cons and not self._has_axioms(p):
            pass
        r, _ = self.query([n], tmo=min(tmo, self.tmo), rel_only=True)
        if r == "unsat":
            return True
        if r == "sat" and len(self.cons):
            r2, _ = self.query([n], tmo=min(tmo, self.tmo))
            return r2 == "unsat"
        return False

    def _has_axioms(self, p):
        return True

    # ------------------------------------------------------------ path condition
    def add_con(self, p, op):
        p = self.signnorm(p)
        if p.is_const():
            v = p.const_val()
            ok = {">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
            if not ok:
                raise Infeasible()
            return
        if (p, op) in self.conset:
            return
        self.cons.append((p, op))
        self.conset[(p, op)] = True
        if op == ">":
            self.conset[(p, "!=")] = True
            self.conset[(p, ">=")] = True
            self.conset[(-p, "!=")] = True
        if op == "!=":
            self.conset[(-p, "!=")] = True
        if len(p.d) == 1:
            (m, c), = p.d.items()
            u = unpack(m)
            if len(u) == 1 and u[0][1] % 2:
                v = u[0][0]
                if op == ">" and c > 0:
                    self.pos[v] = self.nonneg[v] = self.nz[v] = True
                elif op == ">=" and c > 0:
                    self.nonneg[v] = True
                    if self.nz[v]:
                        self.pos[v] = True
                elif op == "!=":
                    self.nz[v] = True
                    if self.nonneg[v]:
                        self.pos[v] = True
                elif op == ">":
                    self.nz[v] = True
            elif op in (">", "!="):
                for v, e in u:
                    self.nz[v] = True

    def known(self, p, op):
        p = self.signnorm(p)
        if p.is_const():
            v = p.const_val()
            return {">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
        s = self.syntactic(p)
        if s:
            return {">": s > 0, ">=": s > 0, "==": False, "!=": True}[op]
        if (p, op) in self.conset:
            return True
        np_, nop = neg_con(p, op)
        if (np_, nop) in self.conset:
            return False
        if op == "==" and (-p, op) in self.conset:
            return True
        if op in ("==", "!=") and ((p, "!=") in self.conset or (-p, "!=") in self.conset):
            return op == "!="
        if op in ("==", "!=") and len(p.d) == 1:
            (m, c), = p.d.items()
            if all(self.nz[v] for v, _ in unpack(m)):
                return op == "!="
        if op == ">=" and self._nonneg_syn(p):
            return True
        if op == ">" and self._nonneg_syn(-p):
            return False
        if len(p.d) <= 2:
            return self._interval(p, op)
        return None

    def _linear1(self, p):
        """(v, a, b) when p = a*v + b"""
        v = a = None
        b = 0
        for m, c in p.d.items():
            u = unpack(m)
            if not u:
                b = c
            elif len(u) == 1 and u[0][1] == 1 and v is None:
                v, a = u[0][0], c
            else:
                return None
        return (v, a, b) if v is not None else None

    def _interval(self, p, op):
        """decide a*v + b op 0 for an integer v from the bounds known for v"""
        l = self._linear1(p)
        if l is None or not self.isint[l[0]]:
            return None
        v, a, b = l
        lo = hi = None
        for q, qop in self.cons:
            if len(q.d) > 2:
                continue
            k = self._linear1(q)
            if k is None or k[0] != v:
                continue
            t = Fraction(-k[2], k[1])
            for side in ([1, -1] if qop == "==" else [1 if k[1] > 0 else -1] if qop in (">", ">=") else []):
                if side > 0:
                    w = t.__floor__() + 1 if qop == ">" else t.__ceil__()
                    lo = w if lo is None else max(lo, w)
                else:
                    w = t.__ceil__() - 1 if qop == ">" else t.__floor__()
                    hi = w if hi is None else min(hi, w)
        if a < 0:
            lo, hi = hi, lo
        mn = None if lo is None else a * lo + b
        mx = None if hi is None else a * hi + b
        if op == ">":
            return True if mn is not None and mn > 0 else False if mx is not None and mx <= 0 else None
        if op == ">=":
            return True if mn is not None and mn >= 0 else False if mx is not None and mx < 0 else None
        out = (mn is not None and mn > 0) or (mx is not None and mx < 0)
        if out:
            return op == "!="
        return None

    def _nonneg_syn(self, p):
        for m, c in p.d.items():
            if c < 0:
                return False
            for v, e in unpack(m):
                if e % 2 and not self.nonneg[v]:
                    return False
        return True

    def decide(self, b):
        """truth of a condition on this path; forks when both outcomes are possible"""
        if isinstance(b, tuple):
            return self._decide_poly(b[1], b[2])
        k = b.k
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "not":
            return not self.decide(b.a[0])
        if k == "and":
            return self.decide(b.a[0]) and self.decide(b.a[1])
        op = {"gt": ">", "ge": ">=", "eq": "=="}[k]
        r = self._decide_poly(self.signpoly(self.nf(b.a[0])), op)
        self.trace_dec.append((b, r))
        return r

    def _decide_poly(self, p, op):
        p = self.signnorm(p)
        r = self.known(p, op)
        if r is not None:
            return r
        n = neg_con(p, op)
        if self.pos_dec < len(self.decisions):
            kind, v = self.decisions[self.pos_dec]
        else:
            ft = self.fork_tmo
            if self.query([n], rel_only=True, tmo=ft)[0] == "unsat" or self.query([n], tmo=ft)[0] == "unsat":
                kind, v = "forced", True
            else:
                rp = self.query([(p, op)], rel_only=True, tmo=ft)[0]
                if rp != "unsat":
                    rp = self.query([(p, op)], tmo=ft)[0]
                kind, v = ("forced", False) if rp == "unsat" else ("fork", True)
            self.decisions.append((kind, v))
            if kind == "fork":
                self.alts.append(len(self.decisions) - 1)
                self.st.forks += 1
        self.pos_dec += 1
        if kind == "forced":
            self._learn(*((p, op) if v else n))
        else:
            self.add_con(*((p, op) if v else n))
        return v

    def _learn(self, p, op):
        # implied facts speed up later look-ups
        self.conset[(p, op)] = True
        if op == ">":
            self.conset[(p, "!=")] = self.conset[(p, ">=")] = self.conset[(-p, "!=")] = True
            if len(p.d) == 1:
                (m, c), = p.d.items()
                u = unpack(m)
                if len(u) == 1 and c > 0 and u[0][1] % 2:
                    self.pos[u[0][0]] = self.nonneg[u[0][0]] = self.nz[u[0][0]] = True
        elif op == "!=":
            self.conset[(-p, "!=")] = True

    def require_nonzero(self, p):
        p = self.signnorm(p)
        if self.known(p, "!=") is True:
            return
        self.add_con(p, "!=")

    def assume(self, b):
        """add a harness assumption (no fork); b a B"""
        k = b.k
        if k == "T":
            return
        if k == "F":
            raise Infeasible()
        if k == "and":
            self.assume(b.a[0])
            self.assume(b.a[1])
            return
        if k == "not" and b.a[0].k in ("gt", "ge", "eq"):
            bb = b.a[0]
            op = {"gt": ">", "ge": ">=", "eq": "=="}[bb.k]
            self.add_con(*neg_con(self.signpoly(self.nf(bb.a[0])), op))
            self.trace_dec.append((b, True))
            return
        if k in ("gt", "ge", "eq"):
            op = {"gt": ">", "ge": ">=", "eq": "=="}[k]
            self.add_con(self.signpoly(self.nf(b.a[0])), op)
            self.trace_dec.append((b, True))
            return
        if not self.decide(b):
            raise Infeasible()


def _prod(fs):
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def neg_con(p, op):
    return {">": (-p, ">="), ">=": (-p, ">"), "==": (p, "!="), "!=": (p, "==")}[op]
