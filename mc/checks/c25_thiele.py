"""C25: Thiele (continued-fraction) Pade interpolation."""
import itertools

import numpy as np
import gftool as gt
import gftool.pade as gp
from mpmath import mp, mpc

BOUNDS = ("all value sequences of length 2..4 (thorough 5) over 5 complex values on 3 point sets; rational functions with 1..3 poles over 5 energies x 3 weight patterns x "
          "5 point sets (Matsubara, real, complex, descending, large) x 2..8 points (even and odd) at every prefix; batch and output shapes; dtypes; rejected shapes")
ASSUMPTIONS = ["reference: 60-digit Thiele recursion evaluated bottom-up, cross-checked by the interpolation property and by the closed form of the rational function"]
VAL = [1.0, -0.5 + 0.3j, 2j, 0.7 - 1.1j, -2.0]
ZOUT = np.array([0.3 + 0.2j, -1.7 + 0.05j, 2.5 - 1j, 40j, 0.1])
POINTS = {
    "matsubara": lambda n: gt.matsubara_frequencies(np.arange(n), beta=3.7),
    "real": lambda n: np.array([0.0, 1.0, -0.7, 2.3, -1.9, 3.1, 0.4, -3.3, 4.2, -4.7])[:n] + 0j,
    "complex": lambda n: np.array([1 + 1j, -1 + 0.5j, 0.3 + 2j, 2 - 1j, -2 - 1j, 0.1 + 0.1j, 3j, -0.5 - 2j, 1.5, -3.0])[:n],
    "descending": lambda n: gt.matsubara_frequencies(np.arange(n)[::-1], beta=1.3),
    "large": lambda n: 30 * gt.matsubara_frequencies(np.arange(n), beta=10.0),
}
MAXC = 1e4


def thiele(z, f):
    """Coefficients in 60 digits; None if degenerate (unattainable or ill-conditioned)."""
    zz = [mpc(complex(x)) for x in z]
    row = [mpc(complex(x)) for x in f]
    out = []
    for i in range(len(zz)):
        a = row[i]
        if abs(a) < 1e-3 or abs(a) > MAXC:
            return None
        out.append(a)
        for j in range(i + 1, len(zz)):
            if abs(row[j]) < 1e-3 or abs(row[j]) > MAXC:
                return None
            row[j] = (a / row[j] - 1) / (zz[j] - zz[i])
    return out


def evaluate(z, zin, a, n):
    """a0/(1 + a1 (z-z0)/(1 + ...)) with n coefficients, bottom-up."""
    z = mpc(complex(z))
    acc = mpc(1)
    for k in range(n - 1, 0, -1):
        den = acc
        if abs(den) < 1e-4:
            return None
        acc = 1 + a[k] * (z - mpc(complex(zin[k - 1]))) / den
    if abs(acc) < 1e-4:
        return None
    return complex(a[0] / acc)


def reference(zin, f, zs):
    a = thiele(zin, f)
    if a is None:
        return None, None
    return a, [[evaluate(z, zin, a, n) for z in zs] for n in range(2, len(zin) + 1)]


def compare(c, zin, f, tol=1e-11):
    with mp.workdps(60):
        a, ref = reference(zin, f, ZOUT)
        c.require(a is not None)
        _, fit = reference(zin, f, zin)
    coeff = gp.coefficients(zin, f)
    if not c.equal(np.shape(coeff), np.shape(f), "shape of the coefficients"):
        return
    c.close(coeff, [complex(x) for x in a], "coefficients", rtol=tol, atol=0)
    got = list(gp.calc_iterator(ZOUT, zin, coeff))
    c.equal(len(got), len(zin) - 1, "number of approximants")
    for k, (g, r) in enumerate(zip(got, ref)):
        ok = [i for i, x in enumerate(r) if x is not None]
        if not c.equal(np.shape(g), ZOUT.shape, "shape"):
            return
        c.close(g[ok], [r[i] for i in ok], "continued values", rtol=100 * tol, atol=tol)
    for k, (g, r) in enumerate(zip(gp.calc_iterator(zin, zin, coeff), fit)):
        ok = [i for i in range(k + 2) if r[i] is not None]
        c.close(g[ok], f[ok], "interpolation of the used points", rtol=100 * tol, atol=tol)
    masked = gp.masked_coefficients(zin, f)
    c.close(masked, coeff, "masked coefficients without elimination", rtol=tol, atol=0)


def sequences(c):
    pts = c.choose("points", ["matsubara", "real", "complex"])
    n = c.choose("n", c.pick([2, 3, 4], [2, 3, 4, 5]))
    f = np.array([c.choose(f"f{k}", VAL) for k in range(n)])
    # equal values give a vanishing difference (eliminated in the masked variant)
    c.require(all(f[i] != f[j] for i, j in itertools.combinations(range(n), 2)))
    compare(c, POINTS[pts](n), f)


EN = [0.0, 0.6, -1.1, 2.0, 0.3 - 0.8j]
WEI = {"ones": [1.0, 1.0, 1.0], "mixed": [0.5, 0.2, 1.3], "signs": [1.0, -0.4, 0.3]}


def rational(c):
    """Rational functions are continued exactly as soon as the degree is reached."""
    pts = c.choose("points", list(POINTS))
    n = c.choose("poles", [1, 2, 3])
    idx = c.choose("energies", list(itertools.combinations(range(len(EN)), n)))
    w = np.array(WEI[c.choose("weights", list(WEI))])[:n]
    e = np.array([EN[i] for i in idx])
    const = c.choose("constant", [0.0, 0.8])
    zin = POINTS[pts](2 * n + (const != 0))
    c.require(np.min(abs(zin[:, None] - e)) > 0.05)

    def fct(z):
        return const + np.sum(w / (np.asarray(z)[..., None] - e), axis=-1)
    f = fct(zin)
    with mp.workdps(60):
        a, _ = reference(zin, f, [])
    c.require(a is not None)
    coeff = gp.coefficients(zin, f)
    last = list(gp.calc_iterator(ZOUT, zin, coeff))[-1]
    sens = max(1, max(abs(complex(x)) for x in a))
    ok = np.min(abs(ZOUT[:, None] - e), axis=1) > 0.05
    c.close(last[ok], fct(ZOUT)[ok], "rational functions are reproduced", rtol=1e-7 * sens, atol=1e-7)


def more_points(c):
    """Prefixes of a non-rational function (semi-circle): interpolation for every prefix."""
    pts = c.choose("points", ["matsubara", "complex", "descending", "large"])
    n = c.choose("n", [2, 3, 5, 6, 7, 8])
    zin = POINTS[pts](n)
    zin = np.where(zin.imag == 0, zin + 0.2j, zin)
    f = gt.bethe_gf_z(zin, half_bandwidth=1.2)
    tol = 1e-7
    with mp.workdps(60):
        a, fit = reference(zin, f, zin)
    c.require(a is not None)
    coeff = gp.coefficients(zin, f)
    for k, g in enumerate(gp.calc_iterator(zin, zin, coeff)):
        ok = [i for i in range(k + 2) if fit[k][i] is not None]
        c.close(g[ok], f[ok], "interpolation", rtol=tol, atol=tol)


def many(c):
    """Long Matsubara grids: extended precision keeps the interpolation of noisy (generic) data."""
    n = c.choose("n", [12, 33, 64])
    dt = c.choose("dtype", ["complex256", "complex128"])
    zin = gt.matsubara_frequencies(np.arange(n), beta=20.0)
    f = 1 / (zin - 0.3) + 0.05 * np.cos(3.0 * np.arange(n)**2) + 0.03j * np.sin(1.7 * np.arange(n)**2)
    zin, f = zin.astype(dt), f.astype(dt)
    coeff = gp.coefficients(zin, f)
    c.equal(coeff.dtype == np.dtype(dt), True, "precision follows the data")
    last = list(gp.calc_iterator(zin, zin, coeff))[-1]
    c.close(last.astype(complex), f.astype(complex), "interpolation", rtol=1e-7 if dt == "complex256" else 1e-4, atol=0)


def extended(c):
    """Double-precision data are processed in extended precision (documented), so that no digits are lost."""
    n = c.choose("n", [8, 12])
    batch = c.choose("batch", [(), (2,)])
    zin = gt.matsubara_frequencies(np.arange(n), beta=20.0)
    f = gt.bethe_gf_z(zin, half_bandwidth=1.0)
    with mp.workdps(100):
        zz, row, want = [mpc(complex(x)) for x in zin], [mpc(complex(x)) for x in f], []
        for i in range(n):
            want.append(complex(row[i]))
            for j in range(i + 1, n):
                row[j] = (row[i] / row[j] - 1) / (zz[j] - zz[i])
    got = gp.coefficients(zin, np.broadcast_to(f, batch + (n,)))
    c.close(got, np.broadcast_to(want, batch + (n,)), "coefficients", rtol=5e-12 if n == 8 else 2e-7, atol=0)


def batches(c):
    shape = c.choose("batch", [(), (1,), (2,), (3, 2), (0,)])
    zshape = c.choose("z_out", [(), (1,), (4,), (2, 3), (0,)])
    n = c.choose("n", [2, 5])
    layout = c.choose("layout", ["C", "F", "strided", "z_out F", "z_out strided", "z_out reversed"])
    zin = POINTS["matsubara"](n)
    size = int(np.prod(shape))
    f = np.array([np.sum(np.array([0.3, 0.7]) / (zin[:, None] - np.array([0.2 * k, -1 + 0.1 * k * k])), axis=-1) + 0.01 * np.arange(n)**2
                  for k in range(size)]).reshape(shape + (n,))
    zout = (0.3j + np.linspace(-1, 1.3, int(np.prod(zshape)))).reshape(zshape)
    arg = f
    zflat = zout.ravel()
    if layout == "z_out F":
        zout = np.asfortranarray(zout) if zout.ndim else zout
    elif layout == "z_out strided":
        zout = np.repeat(zout[..., np.newaxis], 2, axis=-1)[..., 0]
    elif layout == "z_out reversed":
        zout = zout.T[::-1].copy()[::-1].T if zout.ndim else zout
    if layout == "F":
        arg = np.asfortranarray(f)
    elif layout == "strided":
        arg = np.zeros(shape + (2 * n,), complex)[..., ::2]
        arg[...] = f
    keep = f.copy(), zin.copy(), zout.copy()
    coeff = gp.coefficients(zin, arg)
    if not c.equal(np.shape(coeff), shape + (n,), "shape"):
        return
    got = list(gp.calc_iterator(zout, zin, coeff))
    c.equal(len(got), n - 1, "number of approximants")
    for g in got:
        c.equal(np.shape(g), shape + zshape, "shape of the continuation")
    for i in np.ndindex(shape):
        ci = gp.coefficients(zin, f[i])
        c.close(coeff[i], ci, "coefficients element-wise", rtol=1e-12, atol=0)
        for g, gi in zip(got, gp.calc_iterator(zflat, zin, ci)):
            c.close(g[i], gi.reshape(zshape), "continuation element-wise", rtol=1e-12, atol=1e-14)
    if size:
        c.close(gp.masked_coefficients(zin, arg), coeff, "masked, batched", rtol=1e-9, atol=0)
    c.check(np.array_equal(keep[0], arg) and np.array_equal(keep[1], zin) and np.array_equal(keep[2], zout), "arguments not modified")


def dtypes(c):
    dt = c.choose("dtype", ["float64", "float32", "complex64", "complex128", "int64", "longdouble", "clongdouble"])
    zk = c.choose("z", ["complex", "float", "clongdouble"])
    zin = np.array([1.0, 2.0, 4.0, -3.0])
    zin = zin.astype(dict(complex=complex, float=float, clongdouble=np.clongdouble)[zk])
    f = np.array([2, -1, 3, 7]).astype(dt)
    with mp.workdps(60):
        a, ref = reference(zin, f, ZOUT)
    coeff = gp.coefficients(zin, f)
    c.check(np.iscomplexobj(coeff), "complex coefficients")
    want = np.clongdouble if "long" in dt else complex
    c.check(coeff.dtype == np.dtype(want), "precision of the result", got=str(coeff.dtype))
    c.close(coeff.astype(complex), [complex(x) for x in a], "coefficients", rtol=1e-12, atol=0)
    for g, r in zip(gp.calc_iterator(ZOUT, zin, coeff), ref):
        c.close(g.astype(complex), r, "values", rtol=1e-10, atol=0)


def surplus(c):
    """Masked coefficients: superfluous points of a rational function are eliminated, the continuation stays exact."""
    n = c.choose("poles", [1, 2])
    idx = c.choose("energies", list(itertools.combinations(range(4), n)))
    extra = c.choose("extra", [1, 2, 3, 6])
    pts = c.choose("points", ["matsubara", "complex"])
    e, w = np.array([EN[i] for i in idx]), np.array([1.0, 0.4])[:n]
    zin = POINTS[pts](2 * n + extra)
    f = np.sum(w / (zin[:, None] - e), axis=-1)
    with mp.workdps(60):
        a = thiele(zin[:2 * n], f[:2 * n])
    c.require(a is not None)
    m = gp.masked_coefficients(zin, f)
    c.close(m[:2 * n], [complex(x) for x in a], "leading coefficients", rtol=1e-8, atol=0)
    last = list(gp.calc_iterator(ZOUT, zin, m))[-1]
    c.close(last, np.sum(w / (ZOUT[:, None] - e), axis=-1), "exact continuation", rtol=1e-6, atol=1e-8)


def reject(c):
    nz = c.choose("z", [1, 2, 3, 5])
    fs = c.choose("fct", [(1,), (2,), (3,), (5,), (2, 3), (3, 2), (5, 1), (1, 5)])
    z, f = POINTS["matsubara"](nz), 1 + np.arange(int(np.prod(fs))).reshape(fs) + 1j
    if fs[-1] == nz:
        c.equal(np.shape(gp.coefficients(z, f)), fs, "matching shapes")
    else:
        c.raises(ValueError, lambda: gp.coefficients(z, f), "mismatched shapes raise ValueError")


def long(c):
    """Long continued fractions, tiny and huge frequencies, coefficients and output points: no loss of range."""
    n = c.choose("coefficients", c.pick([60, 151], [60, 100, 151, 300]))
    unit = c.choose("unit of frequency", [1e-100, 1e-8, 1.0, 1e8, 1e100])
    size = c.choose("coefficients times frequency", [1e-6, 1.0, 1e6, 1e12])
    lead = c.choose("leading", [1.0, 1e-100, -3e120j])
    dist = c.choose("distance of the output", [1e-3, 1.0, 30.0, 1e6])
    kind = c.choose("kind", ["equal", "alternating", "growing", "falling"])
    k = np.arange(n)
    a = dict(equal=np.ones(n), alternating=np.where(k % 2, 1.0, 1e-3), growing=1 + k**2.0, falling=1 / (1.0 + k))[kind] * size / unit
    a = a.astype(complex)
    a[0] = lead
    # imaginary frequencies on one side, i.e. 1 + a x/(1 + a x/(1 + ...)) with x in the right half-plane
    zin = -unit * k.astype(complex) / 7
    zs = unit * dist * np.array([1.0, 1 + 0.5j, 0.3 - 0.7j, 2.5])
    got = list(gp.calc_iterator(zs, zin, a))
    c.equal(len(got), n - 1, "number of approximants")
    steps = [1, 2, 3, 10, n // 2, n - 2, n - 1]
    for m in steps:
        # backward recurrence is stable for partial numerators in the right half-plane; in extended precision
        acc = np.ones(zs.size, dtype=np.clongdouble)
        for j in range(m, 0, -1):
            acc = 1 + a[j].astype(np.clongdouble) * (zs - zin[j - 1]) / acc
        c.close(got[m - 1], (np.clongdouble(lead) / acc).astype(complex), "approximant", rtol=1e-8, atol=0)


HARNESSES = dict(long=long, sequences=sequences, rational=rational, more_points=more_points, many=many, extended=extended, batches=batches, dtypes=dtypes, surplus=surplus, reject=reject)
sequences.shard = 3
rational.shard = 3
long.shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^pade\.(coefficients|calc_iterator|masked_coefficients)", units=r"^pade\.thiele$", meshes=r"^calc_iterator")
