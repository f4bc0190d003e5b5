"""Meaning of float literals: the simplest rational, or rational multiple of a power of pi, that rounds to them."""
from fractions import Fraction
import math
import numpy as np
from . import expr as X

_cache = {}


def simplest_between(lo, hi):
    """simplest rational in [lo, hi], 0 < lo <= hi (Stern-Brocot)"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def lit_float(v, bits):
    v = float(v)
    k = (v, bits)
    if k in _cache:
        return _cache[k]
    r = _lit(v, bits)
    _cache[k] = r
    return r


_PIF = Fraction(3141592653589793238462643383279502884197169399375105820974944592307816406286, 10 ** 75)


def _lit(v, bits):
    if v != v:
        return X.NAN
    if math.isinf(v):
        return X.INF if v > 0 else X.NINF
    if v == 0:
        return X.ZERO
    s = 1 if v > 0 else -1
    a = abs(v)
    f = Fraction(a)
    if f.denominator == 1 and f < 2 ** 53:
        return X.const(s * f)
    ulp = Fraction(float(np.spacing(np.float32(a)))) if bits == 32 else Fraction(math.ulp(a))
    q = simplest_between(f - ulp / 2, f + ulp / 2)
    if q.denominator <= 4096 or bits not in (32, 64):
        return X.const(s * q)
    for pw in (1, -1, 2, -2, 3):
        pf = _PIF ** pw
        t = f / pf
        tol = 2 * ulp / pf
        q2 = simplest_between(t - tol, t + tol) if t > tol else Fraction(0)
        if q2 and q2.denominator <= (720 if bits == 64 else 24) and q2.numerator <= (2000 if bits == 64 else 100):
            return X.mul(X.const(s * q2), X.ipow(X.PI, pw))
    return X.const(s * q)
