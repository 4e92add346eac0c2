"""Reference model of the lattices: Brillouin-zone averages of the tight-binding resolvent.

Nothing here uses elliptic integrals or the closed forms of the code under test.
The k-sum is the periodic trapezoid rule on a contour that is deformed into the
complex plane, ``k -> k - i eta grad(E)(k)``, so that ``Im E < 0``: for retarded
z (Im z >= 0) the integrand is analytic between the real torus and the deformed
one, the sum converges exponentially, and it is valid even *on* the real axis
away from van Hove energies.  Everything is for unit half-bandwidth, Im z >= 0.
"""
import functools

import numpy as np


def _grid(n, dim, shift=0.5):
    k = 2 * np.pi * (np.arange(n) + shift) / n
    return np.meshgrid(*[k] * dim, indexing="ij")


class KSum:
    """sum_k W_k / (w - E_k) with deformed contour for a cosine-type dispersion."""

    def __init__(self, dim, disp, grad, hess, eta, n):
        k = _grid(n, dim)
        g = grad(*k)
        kc = [ki - 1j * eta * gi for ki, gi in zip(k, g)]
        e = disp(*kc)
        h = hess(*k)
        if dim == 1:
            jac = 1 - 1j * eta * h[0][0]
        else:
            mat = np.empty(k[0].shape + (dim, dim), dtype=complex)
            for i in range(dim):
                for j in range(dim):
                    mat[..., i, j] = (i == j) - 1j * eta * h[i][j]
            jac = np.linalg.det(mat)
        self.e = e.ravel()
        self.w = jac.ravel() / jac.size

    def __call__(self, w):
        """Mean of 1/(w - E), Im w >= 0."""
        w = np.asarray(w, dtype=complex)
        out = np.empty(w.size, dtype=complex)
        for i, wi in enumerate(w.ravel()):
            out[i] = np.sum(self.w / (wi - self.e))
        return out.reshape(w.shape)


def _c(x):
    return np.cos(x)


def _s(x):
    return np.sin(x)


@functools.lru_cache(None)
def ksum(name, n=None, eta=None):
    if name == "1d":       # cos a
        return KSum(1, _c, lambda a: [-_s(a)], lambda a: [[-_c(a)]], eta or 0.6, n or 4000)
    if name.startswith("rect"):   # cos a + s cos b
        s = float(name[4:] or 1)
        return KSum(2, lambda a, b: _c(a) + s * _c(b),
                    lambda a, b: [-_s(a), -s * _s(b)],
                    lambda a, b: [[-_c(a), 0 * a], [0 * a, -s * _c(b)]], eta or 0.5 / max(1, s), n or 400)
    if name == "tri":      # cos a + cos b + cos(a+b)
        return KSum(2, lambda a, b: _c(a) + _c(b) + _c(a + b),
                    lambda a, b: [-_s(a) - _s(a + b), -_s(b) - _s(a + b)],
                    lambda a, b: [[-_c(a) - _c(a + b), -_c(a + b)], [-_c(a + b), -_c(b) - _c(a + b)]],
                    eta or 0.25, n or 400)
    if name == "sc":       # cos a + cos b + cos c
        z = lambda a: 0 * a
        return KSum(3, lambda a, b, c: _c(a) + _c(b) + _c(c),
                    lambda a, b, c: [-_s(a), -_s(b), -_s(c)],
                    lambda a, b, c: [[-_c(a), z(a), z(a)], [z(a), -_c(b), z(a)], [z(a), z(a), -_c(c)]],
                    eta or 0.5, n or 64)
    if name == "bcc":
        def hess(a, b, c):
            ca, cb, cc, sa, sb, sc_ = _c(a), _c(b), _c(c), _s(a), _s(b), _s(c)
            return [[-ca * cb * cc, sa * sb * cc, sa * cb * sc_],
                    [sa * sb * cc, -ca * cb * cc, ca * sb * sc_],
                    [sa * cb * sc_, ca * sb * sc_, -ca * cb * cc]]
        return KSum(3, lambda a, b, c: _c(a) * _c(b) * _c(c),
                    lambda a, b, c: [-_s(a) * _c(b) * _c(c), -_c(a) * _s(b) * _c(c), -_c(a) * _c(b) * _s(c)],
                    hess, eta or 0.5, n or 64)
    if name == "fcc":
        def hess(a, b, c):
            ca, cb, cc, sa, sb, sc_ = _c(a), _c(b), _c(c), _s(a), _s(b), _s(c)
            return [[-ca * (cb + cc), sa * sb, sa * sc_],
                    [sa * sb, -cb * (ca + cc), sb * sc_],
                    [sa * sc_, sb * sc_, -cc * (ca + cb)]]
        return KSum(3, lambda a, b, c: _c(a) * _c(b) + _c(b) * _c(c) + _c(c) * _c(a),
                    lambda a, b, c: [-_s(a) * (_c(b) + _c(c)), -_s(b) * (_c(a) + _c(c)), -_s(c) * (_c(a) + _c(b))],
                    hess, eta or 0.3, n or 64)
    raise KeyError(name)


def _any(ks, w, side):
    """1/(w-E) average for w of either half plane; `side` resolves real w."""
    w = np.asarray(w, dtype=complex)
    upper = np.where(w.imag != 0, w.imag > 0, np.broadcast_to(side, w.shape) > 0)
    val = ks(np.where(upper, w, np.conj(w)))
    return np.where(upper, val, np.conj(val))


SCALES = (0.25, 0.5, 0.8, 1.0, 1.3, 3.0)


def gf_unit(name, z, n=None):
    """Retarded (Im z >= 0) local Green's function for half-bandwidth 1 by k-sum."""
    z = np.asarray(z, dtype=complex)
    if name == "onedim":
        return ksum("1d", n and 20 * n)(z)
    if name == "square":
        return 2 * ksum("rect1", n and 4 * n)(2 * z)
    if name.startswith("rectangular"):
        s = float(name[11:])
        return (1 + s) * ksum(f"rect{s}", n and 4 * n)((1 + s) * z)
    if name == "sc":
        return 3 * ksum("sc", n, 0.7)(3 * z)
    if name == "bcc":
        return ksum("bcc", n, 0.7)(z)
    if name == "fcc":
        return 2 * ksum("fcc", n, 0.5)(2 * z)
    tri = ksum("tri", n and 4 * n, 0.45)
    if name == "triangular":
        return 9 / 4 * tri(9 / 4 * z)
    if name == "honeycomb":
        t = 1 / 3
        return z / (2 * t**2) * _any(tri, (z**2 / t**2 - 3) / 2, np.sign(z.real))
    if name == "kagome":
        t = 1 / 3
        w = (z**2 - 2 * t * z) / (2 * t**2) - 1
        return (1 / (z + 2 * t) + (2 * z - 2 * t) / (2 * t**2) * _any(tri, w, np.sign(z.real - t))) / 3
    if name == "lieb":
        t = 2**-1.5
        w = (z**2 / t**2 - 4) / 2
        return (1 / z + z / t**2 * _any(ksum("rect1", n and 4 * n), w, np.sign(z.real))) / 3
    raise KeyError(name)


def gf_closed(name, z, coordination=None):
    """Lattices with elementary Green's functions (written with explicit branch points), Im z >= 0."""
    z = np.asarray(z, dtype=np.clongdouble)
    s = np.sqrt(z - 1) * np.sqrt(z + 1)
    if name == "bethe":
        return (2 / (z + s)).astype(complex)
    if name == "bethez":       # infinite tree by its recursion: g = branch GF, D = 2 t sqrt(Z-1) = 1
        Z = coordination
        g = 2 / (z + s)
        t2 = 1 / (4 * (np.longdouble(Z) - 1))
        return (1 / (z - Z * t2 * g)).astype(complex)
    if name == "box":
        big = abs(z) > 30
        zi = 1 / z
        ser = zi * (1 + zi**2 / 3 + zi**4 / 5 + zi**6 / 7 + zi**8 / 9)
        return np.where(big, ser, 0.5 * (np.log(z + 1) - np.log(z - 1))).astype(complex)
    if name == "onedim":
        return (1 / s).astype(complex)
    raise KeyError(name)
