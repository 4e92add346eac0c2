"""Exact DOS moments (rational numbers) from closed-walk counting, unit half-bandwidth."""
from fractions import Fraction as F
from functools import lru_cache
from math import comb, factorial


def _cos(m):
    """E[cos^m]."""
    return F(comb(m, m // 2), 2**m) if m % 2 == 0 else F(0)


def _hex(n):
    """Closed walks of length 2n on the honeycomb lattice."""
    return sum(comb(n, j)**2 * comb(2 * j, j) for j in range(n + 1))


@lru_cache(None)
def moment(name, m):
    if name == "onedim":
        return _cos(m)
    if name == "square":
        return _cos(m)**2
    if name == "bcc":
        return _cos(m)**3
    if name == "sc":
        tot = F(0)
        for i in range(m + 1):
            for j in range(m - i + 1):
                k = m - i - j
                tot += F(factorial(m), factorial(i) * factorial(j) * factorial(k)) * _cos(i) * _cos(j) * _cos(k)
        return tot / 3**m
    if name == "triangular":       # 2E = walks on the triangular lattice; t = 4/9, E in units of t
        a = sum(comb(m, k) * (-3)**(m - k) * _hex(k) for k in range(m + 1))
        return F(a, 2**m) * F(4, 9)**m
    if name == "fcc":              # 4E = walks on the fcc lattice; half-bandwidth 1 <-> scale 1/2
        a = sum(comb(m, j) * (-4)**(m - j)
                * sum(comb(j, i)**2 * comb(2 * i, i) * comb(2 * j - 2 * i, j - i) for i in range(j + 1))
                for j in range(m + 1))
        return F(a, 8**m)
    if name == "honeycomb":
        return F(_hex(m // 2), 3**m) if m % 2 == 0 else F(0)
    if name == "kagome":
        return F(1, 3**m) * (F((-2)**m, 3) + F(2, 3) * sum(comb(m, 2 * j) * _hex(j) for j in range(m // 2 + 1)))
    if name == "lieb":
        if m == 0:
            return F(1)
        if m % 2:
            return F(0)
        n = m // 2
        return F(2, 3) * F(1, 8**n) * 4**n * sum(comb(n, j) * moment("square", j) for j in range(n + 1))
    if name == "bethe":
        n = m // 2
        return F(comb(2 * n, n), (n + 1) * 4**n) if m % 2 == 0 else F(0)
    if name == "box":
        return F(1, m + 1) if m % 2 == 0 else F(0)
    raise KeyError(name)


def moments_rect(s, mmax):
    """E[(cos a + s cos b)^m]/(1+s)^m as float."""
    return [float(sum(comb(m, k) * _cos(k) * _cos(m - k) * F(s)**k for k in range(m + 1)) / (1 + F(s))**m)
            for m in range(mmax + 1)]
