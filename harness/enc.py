"""Numbers as the limb sequences of spec/BigNum.tla."""
import math


def limbs(n):
    """integer -> limbs, base 2^15, least significant first, all with the sign of n"""
    s = -1 if n < 0 else 1
    n = abs(n)
    out = []
    while n:
        out.append(s * (n & 32767))
        n >>= 15
    return out


def scaled(x, bits=60):
    """nearest integer to x * 2^bits, computed exactly"""
    a, b = float(x).as_integer_ratio()
    a <<= bits
    q, r = divmod(a, b)
    if 2 * r >= b:
        q += 1
    return q


def num(x):
    """real -> limbs; [] for what is not finite (always accompanied by a flag)"""
    x = float(x)
    if not math.isfinite(x):
        return []
    return limbs(scaled(x))


def vec(v):
    return [num(x) for x in v]


def is_finite(*things):
    import numpy as np
    for t in things:
        try:
            if not np.all(np.isfinite(np.asarray(t, dtype=float))):
                return False
        except (TypeError, ValueError):
            return False
    return True


def value(l):
    """limbs of a scaled number -> float (for reports)"""
    n = 0
    for d in reversed(l):
        n = n * 32768 + d
    return n / 2.0 ** 60
