"""Sparse Laurent polynomials with integer coefficients.

A monomial is one Python int: sum of e_i << (16*i) with signed exponents e_i,
so multiplying monomials is adding ints.  A polynomial is a dict mono -> coeff.
"""
from math import gcd

W = 16
HALF = 1 << (W - 1)
MASK = (1 << W) - 1
_bias_cache = {}
NVARS = [64]


def _bias(n):
    b = _bias_cache.get(n)
    if b is None:
        b = 0
        for i in range(n):
            b |= HALF << (W * i)
        _bias_cache[n] = b
    return b


def expo(m, i):
    n = NVARS[0]
    return (((m + _bias(n)) >> (W * i)) & MASK) - HALF


def unpack(m):
    """list of (var index, exponent) with exponent != 0"""
    out = []
    i = 0
    while m:
        e = m & MASK
        if e >= HALF:
            e -= 1 << W
        if e:
            out.append((i, e))
        m = (m - e) >> W
        i += 1
    return out


def mono(i, e=1):
    if i + 1 > NVARS[0]:
        NVARS[0] = i + 33
    return e << (W * i)


class Poly:
    __slots__ = ("d", "_h", "_k", "_s")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None
        self._s = None

    @staticmethod
    def const(c):
        return Poly({0: c} if c else {})

    @staticmethod
    def var(i, e=1):
        return Poly({mono(i, e): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self.d == o.d

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def const_val(self):
        return self.d.get(0, 0)

    def __len__(self):
        return len(self.d)

    def support(self):
        if self._s is None:
            s = set()
            for m in self.d:
                for i, _ in unpack(m):
                    s.add(i)
            self._s = s
        return self._s

    def __add__(self, o):
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __sub__(self, o):
        r = dict(self.d)
        for m, c in o.d.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v -= c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def scale(self, c):
        if c == 1:
            return self
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.d.items()})

    def shift(self, m0):
        if not m0:
            return self
        return Poly({m + m0: v for m, v in self.d.items()})

    def __mul__(self, o):
        a, b = self.d, o.d
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return Poly({})
        if len(a) == 1:
            (m0, c0), = a.items()
            if not m0:
                return Poly(b if a is None else {m: v * c0 for m, v in b.items()}) if c0 != 1 else Poly(b)
            return Poly({m + m0: v * c0 for m, v in b.items()})
        r = {}
        get = r.get
        bi = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        return Poly({m: v for m, v in r.items() if v})

    def content(self):
        g = 0
        for v in self.d.values():
            g = gcd(g, v)
            if g == 1:
                break
        return g or 1

    def exdiv_int(self, g):
        if g == 1:
            return self
        return Poly({m: v // g for m, v in self.d.items()})

    def mono_content(self):
        """dict var -> min exponent over all terms (0 where absent from a term)"""
        it = iter(self.d)
        try:
            cur = dict(unpack(next(it)))
        except StopIteration:
            return {}
        for m in it:
            e = dict(unpack(m))
            for v in list(cur):
                x = min(cur[v], e.get(v, 0))
                if x:
                    cur[v] = x
                else:
                    del cur[v]
            for v, x in e.items():
                if x < 0 and v not in cur:
                    cur[v] = x
            # (vars absent so far with negative exponent are handled above)
        return cur


def poly_pow(p, n):
    r = Poly.const(1)
    b = p
    while n:
        if n & 1:
            r = r * b
        n >>= 1
        if n:
            b = b * b
    return r


_P = (1 << 61) - 1
_val = []
_pw = {}
_un = {}


def _univ(p, x):
    """p with every variable but x replaced by a fixed random value modulo _P: {exponent: value}"""
    out = {}
    for m, c in p.d.items():
        u = _un.get(m)
        if u is None:
            u = unpack(m)
            if len(_un) > 400000:
                _un.clear()
            _un[m] = u
        v = c
        ex = 0
        for i, e in u:
            if i == x:
                ex = e
                continue
            w = _pw.get((i, e))
            if w is None:
                while len(_val) <= i:
                    import random
                    _val.append(random.Random(7919 + len(_val)).randrange(2, _P))
                w = pow(_val[i], e, _P)
                _pw[(i, e)] = w
            v = v * w % _P
        out[ex] = (out.get(ex, 0) + v) % _P
    return out


def _maybe_divides(a, b):
    """necessary condition for exact division (probabilistic only in the direction of extra work)"""
    best = None
    deg = {}
    for m in b.d:
        for i, e in unpack(m):
            lo, hi, n = deg.get(i, (0, 0, 0))
            deg[i] = (min(lo, e), max(hi, e), n + 1)
    if not deg:
        return True
    full = len(b.d)
    for i, (lo, hi, n) in deg.items():
        if n == full:
            lo2 = min(expo(m, i) for m in b.d)
            hi2 = max(expo(m, i) for m in b.d)
        else:
            lo2, hi2 = lo, hi
        if hi2 > lo2 and (best is None or hi2 - lo2 < best[1]):
            best = (i, hi2 - lo2)
    if best is None:
        return True
    x = best[0]
    ub, ua = _univ(b, x), _univ(a, x)
    lb, la = min(ub), min(ua)
    B = [0] * (max(ub) - lb + 1)
    for e, v in ub.items():
        B[e - lb] = v
    A = [0] * (max(ua) - la + 1)
    for e, v in ua.items():
        A[e - la] = v
    if not B[-1] or not B[0]:
        return True
    inv = pow(B[-1], _P - 2, _P)
    n = len(B)
    for k in range(len(A) - 1, n - 2, -1):
        q = A[k] * inv % _P
        if q:
            for j in range(n):
                A[k - n + 1 + j] = (A[k - n + 1 + j] - q * B[j]) % _P
    return not any(A[:n - 1])


def exact_div(a, b):
    """a / b if exact (ordinary polynomial division with a lex-like order on the packed ints), else None"""
    if b.is_zero():
        return None
    if len(b.d) == 1:
        (m0, c0), = b.d.items()
        r = {}
        for m, c in a.d.items():
            if c % c0:
                return None
            r[m - m0] = c // c0
        return Poly(r)
    if not _maybe_divides(a, b):
        return None
    lb = max(b.d)
    cb = b.d[lb]
    rest = [(m, c) for m, c in b.d.items() if m != lb]
    r = dict(a.d)
    q = {}
    steps = 0
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    lowb = min(b.d)
    if not r:
        return Poly({})
    lowa = min(r)
    while heap:
        m = -heapq.heappop(heap)
        c = r.get(m)
        if not c:
            continue
        if c % cb:
            return None
        qm, qc = m - lb, c // cb
        if qm + lowb < lowa:
            return None
        q[qm] = q.get(qm, 0) + qc
        del r[m]
        for m2, c2 in rest:
            k = qm + m2
            v = r.get(k)
            if v is None:
                r[k] = -qc * c2
                heapq.heappush(heap, -k)
            else:
                v -= qc * c2
                r[k] = v
        steps += 1
        if steps > 20000:
            return None
    return Poly(q)


def _isqrt(n):
    from math import isqrt
    if n < 0:
        return None
    s = isqrt(n)
    return s if s * s == n else None


def poly_sqrt(p):
    """polynomial square root (or None)"""
    if p.is_zero():
        return p
    ms = sorted(p.d, reverse=True)
    lm = ms[0]
    if any(e % 2 for _, e in unpack(lm)):
        return None
    lo = ms[-1]
    if any(e % 2 for _, e in unpack(lo)):
        return None
    c = _isqrt(p.d[lm])
    if c is None or _isqrt(p.d[lo]) is None:
        return None
    def half(m):
        r = 0
        for i, e in unpack(m):
            r += mono(i, e // 2)
        return r
    q = Poly({half(lm): c})
    rem = p - q * q
    lmq, lcq = half(lm), c
    lowq = half(lo)
    for _ in range(200):
        if rem.is_zero():
            return q
        m = max(rem.d)
        cc = rem.d[m]
        if cc % (2 * lcq):
            return None
        t = Poly({m - lmq: cc // (2 * lcq)})
        if m - lmq < lowq:
            return None
        rem = rem - (q * t).scale(2) - t * t
        q = q + t
        if len(rem) > 4 * len(p) + 200:
            return None
    return None
