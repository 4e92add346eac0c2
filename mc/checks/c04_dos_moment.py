"""C04: DOS moments against exact closed-walk counting."""
import numpy as np

from mc.lat import LATS
from mc.ref import moments as mom

BOUNDS = "11 lattices with dos_moment x all orders 0..45 x 15 half-bandwidths (int and float typed); order typed int/np.int64"
ASSUMPTIONS = ["exact rational closed-walk counts (mc/ref/moments.py)"]
NAMES = [n for n in LATS if not n.startswith(("rect", "bethez"))]
DS = [1.0, 1, 0.5, 0.37, 3, 1e-3, 250.0, 2, 9, 1.7, 1e3, 12, 0.012, 1.5, 2.25]
ALL_ORDERS = ("bethe", "box")           # closed formula for any order


def moments(c):
    lat = c.choose("lattice", NAMES)
    D = c.choose("D", DS)
    m = c.choose("m", range(46))
    typ = c.choose("type", [int, np.int64])
    c.require(typ is int or not isinstance(D, int))   # fixed-width integer powers are the caller's choice
    mod = LATS[lat].module()
    want = float(mom.moment(lat, m)) * float(D)**m
    try:
        got = mod.dos_moment(typ(m), half_bandwidth=D)
    except NotImplementedError:
        c.check(m == 0 or m > 20, "orders 1..20 are implemented")
        return
    c.equal(np.shape(got), (), "scalar")
    c.close(float(got), want, "moment", rtol=1e-12, atol=0)


def invalid(c):
    """Negative orders do not have a moment: an exception, never a wrong number (0 is right for odd symmetric ones)."""
    lat = c.choose("lattice", NAMES)
    D = c.choose("D", DS)
    m = c.choose("m", [21, 22, 23, 24, 30, 41])
    mod = LATS[lat].module()
    want = float(mom.moment(lat, m)) * float(D)**m
    try:
        got = mod.dos_moment(m, half_bandwidth=D)
    except NotImplementedError:
        got = want
    c.close(float(got), want, "never a wrong number", rtol=1e-12, atol=0)


def dos_integral(c):
    """Second route: moments of the code's own dos by a quadrature that resolves every van Hove energy."""
    name = c.choose("lattice", [n for n in NAMES if n not in ("fcc", "sc")])
    D = c.choose("D", [1.0, 0.37, 3])
    lat = LATS[name]
    pts = sorted({*lat.band, *lat.vhs, *lat.sing})
    n = 120
    t, w = np.polynomial.legendre.leggauss(n)
    tot = np.zeros(9)
    for a, b in zip(pts[:-1], pts[1:]):
        # x = a + (b-a) s(u), s = u^3-type clustering at both ends (twice): end-point singularities are log or -1/2
        u = (t + 1) / 2
        k = 6
        s = u**k / (u**k + (1 - u)**k)
        ds = k * (u * (1 - u))**(k - 1) / (u**k + (1 - u)**k)**2
        x = np.where(s < 0.5, a + (b - a) * s, b - (b - a) * (1 - u)**k / (u**k + (1 - u)**k))
        d = np.asarray(lat.dos(x * D, D)) * D
        d = np.where(np.isfinite(d), d, 0)
        for m in range(9):
            tot[m] += np.sum(w / 2 * ds * (b - a) * d * x**m)
    for e, wt in lat.peaks:
        tot += wt * e**np.arange(9)
    want = np.array([float(mom.moment(name, m)) for m in range(9)])
    c.close(tot, want, "integral of eps^m dos", rtol=0, atol=5e-7)
    got = np.array([LATS[name].module().dos_moment(m, half_bandwidth=D) / D**m for m in range(1, 9)])
    c.close(got, tot[1:], "dos_moment = integral of the dos", rtol=0, atol=5e-7)


HARNESSES = dict(moments=moments, invalid=invalid, dos_integral=dos_integral)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(bcc|bethe|bethez|box|fcc|honeycomb|kagome|lieb|onedim|rectangular|sc|square|triangular)\.dos_moment$")
