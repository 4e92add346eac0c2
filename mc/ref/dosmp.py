"""Textbook closed forms of the DOS evaluated with AGM in 90 digits (independent of the code's ellipk)."""
import functools

from mpmath import mp, mpf


def _K(m):
    return mp.pi / (2 * mp.agm(1, mp.sqrt(1 - m)))


def _sum2(w, s):
    """DOS of cos a + s cos b at w."""
    s = mpf(s)
    if abs(w) >= 1 + s:
        return mpf(0)
    m = ((1 + s)**2 - w**2) / (4 * s)
    if m == 1:
        return mp.inf
    if m < 1:
        return _K(m) / (mp.pi**2 * mp.sqrt(s))
    return _K(1 / m) / (mp.pi**2 * mp.sqrt(s * m))


def _tri(w):
    """DOS of cos a + cos b + cos(a+b) at w."""
    if w <= mpf(-3) / 2 or w >= 3:
        return mpf(0)
    if w == -1:
        return mp.inf
    r = mp.sqrt(3 + 2 * w)
    z0, z1 = 4 * r, (r + 1)**3 * (3 - r) / 4
    if w < -1:
        z0, z1 = z1, z0
    return 2 / mp.pi**2 / mp.sqrt(z0) * _K(z1 / z0)


def dos(name, x, D, dps=90):
    """DOS for half-bandwidth D at the exact double x; None if there is no closed form here."""
    val = dos_mpf(name, x, D, dps)
    return None if val is None else float(val)


def dos_mpf(name, x, D, dps=90):
    """The same as multi-precision number."""
    with mp.workdps(dps):
        D = mpf(D)
        x = mpf(x) / D
        if name == "square":
            val = 2 * _sum2(2 * x, 1)
        elif name.startswith("rectangular"):
            s = mpf(float(name[11:]))
            val = (1 + s) * _sum2((1 + s) * x, s)
        elif name == "triangular":
            val = mpf(9) / 4 * _tri(mpf(9) / 4 * x)
        elif name == "honeycomb":
            val = mpf(9) / 2 * abs(x) * _tri((9 * x**2 - 3) / 2)
        elif name == "kagome":
            val = 3 * abs(x - mpf(1) / 3) * _tri((9 * x**2 - 6 * x) / 2 - 1)
        elif name == "lieb":
            val = mpf(8) / 3 * abs(x) * _sum2(4 * x**2 - 2, 1)
        elif name == "onedim":
            val = mpf(0) if abs(x) > 1 else (mp.inf if abs(x) == 1 else 1 / (mp.pi * mp.sqrt((1 - x) * (1 + x))))
        elif name == "bethe":
            val = mpf(0) if abs(x) >= 1 else 2 / mp.pi * mp.sqrt((1 - x) * (1 + x))
        elif name == "box":
            val = mpf(0) if abs(x) >= 1 else mpf(1) / 2
        elif name.startswith("bethez"):
            Z = mpf(float(name[6:]))
            val = mpf(0) if abs(x) > 1 else 2 * Z * (Z - 1) / mp.pi * mp.sqrt((1 - x) * (1 + x)) / (Z**2 - 4 * (Z - 1) * x**2) \
                if Z**2 != 4 * (Z - 1) * x**2 else mp.inf
        elif name == "bcc":
            if abs(x) >= 1:
                val = mpf(0)
            elif x == 0:
                val = mp.inf
            else:
                m = (1 - 1j * mp.sqrt(1 / x**2 - 1)) / 2
                val = -4 / (mp.pi**3 * abs(x)) * mp.im(_K(m)**2)
        else:
            return None
        return val / D


dos = functools.lru_cache(None)(dos)
CLOSED = ("square", "rectangular", "triangular", "honeycomb", "kagome", "lieb", "onedim", "bethe", "box", "bethez", "bcc")


def has(name):
    return any(name.startswith(n) for n in CLOSED)
