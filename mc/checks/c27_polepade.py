"""C27: pole-based Pade continuation."""
import itertools
import warnings

import numpy as np
from numpy.polynomial import chebyshev, legendre, polynomial
import gftool as gt
from gftool import polepade as pp

BOUNDS = ("all subsets of 1..4 poles (real and complex alphabet of 6) x 2 residue patterns x degree {0,-1,-2} x point sets (full circle even/odd, half circle, offset line, "
          "real Matsubara) x weights x polynomial bases x rotation x given moments 0..4 x every admissible n_poles0; elementary functions and continuation; rejected requests; symmetries of the estimates for noisy data; "
          "outliers of zero weight; up to 130 poles; single precision; stacks of approximants")
ASSUMPTIONS = ["a unique solution is decided by number_poles at machine precision, which only the full-circle points leave a margin for: the exact pole count is asserted there, "
               "elsewhere the true poles must be among the found ones and the function must be reproduced",
               "amplitude and moments are defined by the generating function"]
A = [-0.9, -0.25, 0.3, 1.1, 0.45 - 0.3j, -0.6 - 0.2j]
RES = {"plain": [0.4, 0.3, 0.2, 0.1, 0.5, 0.25], "signs": [0.4, -0.3j + 0.1, 0.2, 0.7, -0.5, 0.25j]}
PROBE = np.array([0.3 + 0.7j, -1.3 + 0.4j, 2.1 - 1.2j, 5j, -0.1 - 1.5j])
GRID = {
    "circle24": lambda: 1.5 * np.exp(2j * np.pi * np.arange(24) / 24),
    "circle23": lambda: 1.5 * np.exp(2j * np.pi * np.arange(23) / 23),
    "half50": lambda: np.exp(1j * np.linspace(np.pi, 0, 52)[1:-1]),
    "half51": lambda: np.exp(1j * np.linspace(np.pi, 0, 53)[1:-1]),
    "line22": lambda: np.linspace(-2, 2, 22) + 0.5j,
    "line21": lambda: np.linspace(-2, 2, 21) + 0.5j,
    "mats30": lambda: gt.matsubara_frequencies(np.arange(-15, 15), beta=8.0),
    "mats31": lambda: gt.matsubara_frequencies(np.arange(-15, 16), beta=8.0),
}
WEIGHT = {"none": lambda z: None, "ones": lambda z: np.ones(z.size), "decay": lambda z: 1 / (1 + abs(z + 0.3) ** 2),
          "ramp": lambda z: np.linspace(0.5, 3, z.size)}
SUBSETS = [s for n in (1, 2, 3, 4) for s in itertools.combinations(range(len(A)), n)]


class Fct:
    """a + sum_i r_i/(z - p_i) in closed form."""

    def __init__(self, idx, res, degree, const=0.7):
        self.p = np.array([A[i] for i in idx], dtype=complex)
        self.r = np.array([RES[res][i] for i in idx], dtype=complex)
        self.const = const if degree == 0 else 0.0
        if degree == -2:
            self.r[-1] = -self.r[:-1].sum()
        self.degree = degree

    def __call__(self, z):
        z = np.asarray(z)
        return (self.r / (z[..., np.newaxis] - self.p)).sum(-1) + self.const

    @property
    def amplitude(self):
        if self.degree == 0:
            return self.const
        if self.degree == -1:
            return self.r.sum()
        return (self.r * self.p).sum()

    @property
    def numer(self):
        """Numerator, obtained by multiplying out the poles."""
        den = polynomial.polyfromroots(self.p)
        num = self.const * den
        for i in range(self.p.size):
            num = polynomial.polyadd(num, self.r[i] * polynomial.polyfromroots(np.delete(self.p, i)))
        return num[: self.p.size + self.degree + 1]

    @property
    def zeros(self):
        num = self.numer
        return polynomial.polyroots(num) if num.size > 1 else np.zeros(0, complex)

    def moment(self, k):
        return (self.r * self.p ** (k - 1)).sum()


def function(c, res="residues"):
    degree = c.choose("degree", [-1, 0, -2])
    idx = c.choose("poles", c.pick([s for s in SUBSETS if len(s) < 4 or 0 in s], SUBSETS))
    c.require(degree > -2 or len(idx) > 1)
    f = Fct(idx, c.choose("residues", sorted(RES)), degree)
    # keep zeros simple, apart from the poles, and the leading coefficient genuine
    c.require(abs(f.amplitude) > 0.03 and np.all(abs(f.r) > 0.02))
    allz = np.concatenate([f.zeros, f.p])
    c.require(all(abs(a - b) > 0.05 for a, b in itertools.combinations(allz, 2)))
    c.require(np.all(abs(f.zeros) < 6))
    return f


def match(c, got, want, what, tol, exact=True):
    """Compare sets of points by nearest neighbours."""
    got, want = np.asarray(got), np.asarray(want)
    c.check(got.ndim == 1, what + " are one-dimensional", shape=got.shape)
    if exact and not c.equal(got.size, want.size, "number of " + what):
        return None
    pool, order = list(range(got.size)), []
    for w in want:
        if not pool:
            c.fail("missing " + what, got=got, want=want)
            return None
        j = min(pool, key=lambda i: abs(got[i] - w))
        pool.remove(j)
        order.append(j)
    c.close(got[order], want, what, rtol=0, atol=tol)
    return order


def apart(z, f):
    return np.min(abs(np.subtract.outer(z, f.p))) > 0.05


def recover(c):
    f = function(c)
    grid = c.choose("points", c.pick(["circle24", "circle23", "half50", "line21", "mats31", "mats30"], sorted(GRID)))
    z = GRID[grid]()
    c.require(apart(z, f))
    wname = c.choose("weight", c.pick(["none", "decay"], sorted(WEIGHT)))
    nmom = c.choose("moments", c.pick([0, 2], [0, 1, 2, 4]))
    c.require(nmom <= f.p.size)
    kwds = {}
    if nmom:
        kwds["moments"] = [f.moment(k) for k in range(1, nmom + 1)]
    if wname != "none":
        kwds["weight"] = WEIGHT[wname](z)
    if not (abs(np.imag(f.amplitude)) < 1e-14):
        kwds["real_asymp"] = False
    exact = grid.startswith("circle")
    tol = 1e-9 if exact else 1e-6
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pade = pp.continuation(z, f(z), degree=f.degree, **kwds)
    if exact:
        order = match(c, pade.poles, f.p, "poles", tol)
        if order is None:
            return
        match(c, pade.zeros, f.zeros, "zeros", tol)
        c.close(np.asarray(pade.residues)[order], f.r, "residues", rtol=0, atol=tol)
    else:
        c.check(np.size(pade.zeros) == np.size(pade.poles) + f.degree, "degree of the approximant", zeros=np.size(pade.zeros), poles=np.size(pade.poles))
        c.check(f.p.size <= np.size(pade.poles) <= f.p.size + 6, "number of poles", got=np.size(pade.poles), want=f.p.size)
        if match(c, pade.poles, f.p, "poles among the found ones", 1e-4, exact=False) is None:
            return
    c.check(np.size(pade.residues) == np.size(pade.poles), "one residue per pole")
    c.close(pade.amplitude, f.amplitude, "amplitude", rtol=0, atol=tol)
    probe = PROBE if exact else PROBE[PROBE.imag > 0]
    want = f(probe)
    c.close(pade.eval_polefct(probe), want, "pole form away from the data", rtol=0, atol=tol)
    c.close(pade.eval_zeropole(probe), want, "zero-pole form away from the data", rtol=0, atol=tol)
    c.close(pade.eval_polefct(probe[0]), want[0], "pole form of a scalar", rtol=0, atol=tol)
    for k in range(1, nmom + 1):
        c.close(np.sum(pade.residues * pade.poles ** (k - 1)), kwds["moments"][k - 1], "constrained moment of the residues", rtol=0, atol=1e-11 * max(1, abs(pade.poles).max()) ** (k - 1) * max(1, abs(pade.residues).sum()))
    if exact:
        orders = np.arange(1, 6)
        c.close(pade.moments(orders), [f.moment(k) for k in orders], "moments of the approximant", rtol=0, atol=tol)


recover.shard = 2


def options(c):
    """Rotation, basis, data scale and order of the data do not change the approximant."""
    f = function(c)
    grid = c.choose("points", ["circle24", "circle23"])
    z = GRID[grid]()
    kwds, scale = {}, 1.0
    opt = c.choose("option", ["rotate", "norotate", "chebyshev", "legendre", "scaled", "tiny", "reversed", "complex_asymp", "strided"])
    fz = f(z)
    if opt in ("rotate", "norotate"):
        kwds["rotate"] = opt == "rotate"
    elif opt == "chebyshev":
        kwds["vandermond"] = chebyshev.chebvander
    elif opt == "legendre":
        kwds["vandermond"] = legendre.legvander
    elif opt in ("scaled", "tiny"):
        scale = {"scaled": -1e6, "tiny": 1e-7}[opt]
        fz = fz * scale
    elif opt == "reversed":
        z, fz = z[::-1], fz[::-1]
    elif opt == "strided":
        z, fz = np.repeat(z, 3)[::3], np.repeat(fz, 2)[::2]
    if opt == "complex_asymp" or abs(np.imag(f.amplitude)) > 1e-14:
        kwds["real_asymp"] = False
    zc, fc = z.copy(), fz.copy()
    pade = pp.continuation(z, fz, degree=f.degree, **kwds)
    c.check(np.array_equal(z, zc) and np.array_equal(fz, fc), "data are left alone")
    tol = 1e-9 if opt not in ("chebyshev", "legendre") else 1e-8
    order = match(c, pade.poles, f.p, "poles", tol)
    if order is None:
        return
    match(c, pade.zeros, f.zeros, "zeros", tol)
    c.close(np.asarray(pade.residues)[order] / scale, f.r, "residues", rtol=0, atol=tol)
    c.close(np.asarray(pade.amplitude) / scale, f.amplitude, "amplitude", rtol=0, atol=tol)


options.shard = 2


def count(c):
    """number_poles terminates with the pole count from every start."""
    f = function(c)
    grid = c.choose("points", ["circle24", "circle23"])
    z = GRID[grid]()
    n0 = c.choose("n_poles0", c.pick([None, 1, 2, 5, 10, "max", "max+1"], [None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, "max", "max+1", 40]))
    limit = (z.size - f.degree - 1) // 2   # 2*#poles + degree < number of points
    fz = f(z)
    if n0 in ("max+1", 40):
        n0 = limit + 1 if n0 == "max+1" else n0
        c.raises(ValueError, lambda: pp.number_poles(z, fz, degree=f.degree, n_poles0=n0), "n_poles0 leaves the system under-determined")
        return
    if n0 == "max":
        n0 = limit
    n = pp.number_poles(z, fz, degree=f.degree, n_poles0=n0)
    c.equal(int(n), f.p.size, "number of poles")


count.shard = 2


def complex_constant(c):
    """Functions that tend to a complex constant; real and complex asymptotic."""
    idx = c.choose("poles", [s for s in SUBSETS if len(s) in (1, 2, 3)])
    const = c.choose("constant", {"0.7": 0.7, "i": 1j, "-0.4+0.3i": -0.4 + 0.3j, "1e3-2i": 1e3 - 2j})
    real_asymp = c.choose("real_asymp", [None, True, False])
    c.require(np.isrealobj(const) or real_asymp is False)
    f = Fct(idx, "plain", 0, const=const)
    c.require(all(abs(a - b) > 0.05 for a, b in itertools.combinations(np.concatenate([f.zeros, f.p]), 2)))
    z = GRID["circle24"]()
    kw = {} if real_asymp is None else dict(real_asymp=real_asymp)
    pade = pp.continuation(z, f(z), degree=0, **kw)
    size = max(1, abs(const))
    c.close(pade.amplitude, const, "amplitude", rtol=0, atol=1e-9 * size)
    c.equal(np.isrealobj(pade.amplitude), real_asymp is not False, "amplitude real exactly on request")
    order = match(c, pade.poles, f.p, "poles", 1e-9 * size**1.5)
    c.close(np.asarray(pade.residues)[order], f.r, "residues", rtol=0, atol=1e-9 * size**1.5)
    c.close(pade.eval_polefct(PROBE), f(PROBE), "pole form", rtol=0, atol=1e-9 * size**1.5)
    c.close(pade.eval_zeropole(PROBE), f(PROBE), "zero-pole form", rtol=0, atol=1e-9 * size**1.5)


def offset_axis(c):
    """Points slightly off the imaginary or the real axis are the points that count."""
    idx = c.choose("poles", [s for s in SUBSETS if len(s) in (1, 2)])
    shift = c.choose("shift", [0.0, 9e-9, -5e-9, 1e-6, 1e-3])
    axis = c.choose("axis", ["imaginary", "real"])
    kw = c.choose("rotate", {"default": {}, "True": dict(rotate=True), "False": dict(rotate=False)})
    f = Fct(idx, "plain", -1)
    y = np.linspace(-2.4, 2.4, 24)
    if axis == "imaginary":
        z = 1j * y + shift
    else:
        z = y * 1.3 + 1j * shift
    c.require(np.min(abs(np.subtract.outer(z, f.p))) > 0.02 and np.all(abs(f.amplitude.imag) < 1e-12))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pade = pp.continuation(z if np.iscomplexobj(z) else z + 0j, f(z), **kw)
    if match(c, pade.poles, f.p, "poles", 1e-9, exact=False) is None:
        return
    j = [np.argmin(abs(pade.poles - p)) for p in f.p]
    c.close(np.asarray(pade.residues)[j], f.r, "residues", rtol=0, atol=1e-9)


def search(c):
    """The search for the number of poles always ends: a count within the limit, possibly with a warning, or RuntimeError; never silently a bad fit."""
    N = c.choose("N", c.pick([20, 30, 40], [20, 25, 30, 40, 60]))
    P = c.choose("poles", c.pick([3, 8, 10, 12], [3, 5, 8, 9, 10, 12, 14]))
    amp = c.choose("noise", [0.0, 1e-17, 1e-16, 3e-16, 1e-15, 3e-15, 1e-14, 3e-14, 1e-13, 1e-12, 1e-9])
    axis = c.choose("z", ["real", "imaginary"])
    n0 = c.choose("n_poles0", [None, 1, 4, "max"])
    y = np.pi / 20 * (2 * np.arange(N) + 1)
    eps = np.cos((np.arange(P) + 0.5) * np.pi / P)
    f = np.sum(1 / P / (1j * y[:, None] - eps), axis=-1) + amp * np.cos(1 + np.arange(N)**2) * (1 + 1j)
    z = y if axis == "real" else 1j * y
    limit = (N + 1 - 1) // 2
    n0 = limit if n0 == "max" else n0
    c.require(n0 is None or n0 <= limit)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            m = pp.number_poles(z, f, n_poles0=n0)
        except RuntimeError:
            c.check(amp > 1e-15 or N < 2 * P + 1, "no failure for clean data")
            return
    c.check(0 < m <= limit, "count within the limit", got=m)
    if w or m == limit:
        return
    # the count promises a rational function with m poles that fits: find the best one, linearised
    x = (z / abs(z[-1])).astype(complex)
    V = np.polynomial.chebyshev.chebvander(np.abs(x) * 2 - 1, m)
    s = 1 / np.linalg.norm(V, axis=-1, keepdims=True)
    mat = np.concatenate([s * f[:, None] * V / np.median(abs(f)), s * V[:, :-1]], axis=-1)
    u, sv, vh = np.linalg.svd(mat / np.linalg.norm(mat, axis=0))
    c.check(sv[-1] < 1e-8 * sv[0], "a fit with that many poles exists", sv=sv[-1] / sv[0])


def elementary(c):
    """poles, zeros, asymptotic and residues_ols on their own."""
    f = function(c)
    grid = c.choose("points", ["circle24", "half51", "line22"])
    wname = c.choose("weight", sorted(WEIGHT))
    z = GRID[grid]()
    c.require(apart(z, f))
    w = WEIGHT[wname](z)
    fz = f(z)
    m, n = f.p.size, f.p.size + f.degree
    kn = {} if (f.degree == -1 and c.choose("default_n", [False, True])) else {"n": n}
    tol = 1e-9
    order = match(c, pp.poles(z, fz, m=m, weight=w, **kn), f.p, "poles", tol)
    if order is None:
        return
    match(c, pp.zeros(z, fz, f.p, weight=w, **kn), f.zeros, "zeros", tol)
    asym, std = pp.asymptotic(z, fz, f.zeros, f.p, weight=w)
    c.close(asym, f.amplitude, "asymptotic", rtol=0, atol=tol)
    c.close(std, 0, "spread of the asymptotic", rtol=0, atol=1e-7)
    # spread of perturbed data
    delta = 0.01 * np.cos(np.arange(z.size)) * (f.zeros.size + 1)
    ratio = (fz + delta) * f.amplitude / fz
    asym, std = pp.asymptotic(z, fz + delta, f.zeros, f.p, weight=w)
    ww = np.ones(z.size) if w is None else w
    mean = (ww * ratio).sum() / ww.sum()
    var = (ww * abs(ratio - mean) ** 2).sum() / ww.sum()
    c.close(asym, mean, "asymptotic of perturbed data", rtol=0, atol=1e-8 * max(1, abs(ratio).max()))
    if w is None:   # sample standard deviation
        var *= z.size / (z.size - 1)
    c.close(std, np.sqrt(var), "standard deviation of the asymptotic", rtol=1e-6, atol=1e-8 * max(1, abs(ratio).max()))
    res, err = pp.residues_ols(z, fz - f.const, f.p, weight=w)
    c.close(res, f.r, "residues", rtol=0, atol=tol)
    # least squares: perturbed data, optimality by the normal equations
    for nmom in range(0, m + 1):
        mom = [f.moment(k) + 0.05 * k for k in range(1, nmom + 1)]
        res, err = pp.residues_ols(z, fz - f.const + delta, f.p, weight=w, moments=mom)
        mat = ww[:, np.newaxis] / np.subtract.outer(z, f.p)
        cons = np.array([f.p ** k for k in range(nmom)]).reshape(nmom, m)
        c.close(cons @ res, np.array(mom), "constrained moments", rtol=0, atol=1e-9)
        rhs = mat @ res - ww * (fz - f.const + delta)
        grad = mat.conj().T @ rhs
        if nmom:  # gradient has to be orthogonal to the null space of the constraints
            grad = grad - cons.conj().T @ np.linalg.lstsq(cons.conj().T, grad, rcond=None)[0]
        c.close(grad, np.zeros(m), "optimal residues", rtol=0, atol=1e-8 * (1 + np.linalg.norm(mat) ** 2))
        c.close(np.ravel(err), [np.linalg.norm(rhs)], "norm of the residual", rtol=1e-6, atol=1e-9)
    c.raises(ValueError, lambda: pp.residues_ols(z, fz, f.p, weight=w, moments=np.ones(m + 1)), "more moments than poles")


elementary.shard = 2


def special(c):
    """Constant functions, rejected degrees, and functions without rational form."""
    case = c.choose("case", ["constant", "degree", "nosolution", "simple"])
    grid = c.choose("points", ["circle24", "circle23", "mats30", "mats31"])
    z = GRID[grid]()
    if case == "constant":
        val = c.choose("value", [0.7, -3.0, 1e-3])
        pade = pp.continuation(z, np.full(z.size, val, dtype=complex), degree=0)
        c.close(pade.amplitude, val, "constant", rtol=1e-9, atol=0)
        c.close(pade.eval_polefct(PROBE), np.full(PROBE.size, val), "value", rtol=1e-7, atol=0)
        c.close(pade.eval_zeropole(PROBE), np.full(PROBE.size, val), "value", rtol=1e-7, atol=0)
    elif case == "degree":
        deg = c.choose("degree", [1, 2, 5])
        c.raises(ValueError, lambda: pp.continuation(z, 1 / (z - 5.0), degree=deg), "positive degree")
    elif case == "nosolution":
        deg = c.choose("degree", [0, -1, -2])
        k = np.arange(z.size)
        noise = np.array([((7 * i * i + 3 * i) % 11) / 11 - 0.4 for i in k]) + 1j * np.array([((5 * i * i + i) % 13) / 13 for i in k])
        c.raises(RuntimeError, lambda: pp.number_poles(z.imag + 0j if grid.startswith("mats") else z, noise, degree=deg), "no rational function")
    else:
        # one pole, no zero
        p, r = c.choose("pole", [0.3, -0.9, 0.45 - 0.3j]), c.choose("residue", [1.0, -0.2, 1e-4])
        pade = pp.continuation(z, r / (z - p))
        c.close(pade.eval_polefct(PROBE), r / (PROBE - p), "one-pole function", rtol=1e-7, atol=0)
        c.close(pade.eval_zeropole(PROBE), r / (PROBE - p), "one-pole function", rtol=1e-7, atol=0)

def noise(z, seed=0):
    k = np.arange(z.size) + 17 * seed
    return (((7 * k * k + 3 * k) % 11) / 11 - 0.4) + 1j * (((5 * k * k + k) % 13) / 13 - 0.5)


def noisy(c):
    """Symmetries of the estimates, which hold whatever the data are."""
    f = function(c)
    z = GRID[c.choose("points", ["circle23", "line22"])]()
    c.require(apart(z, f))
    c.require(f.p.size >= 2)
    level = c.choose("noise", c.pick([1e-2], [1e-2, 1e-3]))
    fz = f(z) + level * noise(z)
    wname = c.choose("weight", c.pick(["none", "decay"], ["none", "decay", "ramp"]))
    w = WEIGHT[wname](z)
    m, n = f.p.size, f.p.size + f.degree
    sym = c.choose("symmetry", ["permute", "conj", "phase", "scale", "duplicate", "weights", "default", "extra"])
    ref_p = pp.poles(z, fz, n=n, m=m, weight=w)
    c.check(np.all(np.isfinite(ref_p)), "finite poles", poles=ref_p)
    c.require(np.all(abs(ref_p) < 20) and all(abs(a - b) > 0.05 for a, b in itertools.combinations(ref_p, 2)))
    ref_z = pp.zeros(z, fz, f.p, n=n, weight=w)
    c.require(np.all(abs(ref_z) < 20) and all(abs(a - b) > 0.05 for a, b in itertools.combinations(ref_z, 2)))
    ref_r, ref_e = pp.residues_ols(z, fz, f.p, weight=w)
    z2, f2, w2, p2, kn, kz = z, fz, w, f.p, {"n": n}, {"n": n}
    trafo, trafo_r = (lambda x: x), (lambda x: x)
    if sym == "permute":
        perm = (np.arange(z.size) * 5 + 2) % z.size
        z2, f2, w2 = z[perm], fz[perm], None if w is None else w[perm]
    elif sym == "conj":
        z2, f2, p2, trafo, trafo_r = z.conj(), fz.conj(), f.p.conj(), np.conj, np.conj
    elif sym == "phase":
        ph = np.exp(0.7j)
        z2, p2, trafo, trafo_r = ph * z, ph * f.p, (lambda x: ph * x), (lambda x: ph * x)
    elif sym == "scale":
        f2, trafo_r = (2e3 - 1e3j) * fz, (lambda x: (2e3 - 1e3j) * x)
    elif sym == "duplicate":  # a point which is measured k times has 1/k of the variance
        rep = 1 + np.arange(z.size) % 3
        z2, f2 = np.repeat(z, rep), np.repeat(fz, rep)
        w2 = None if w is None else np.repeat(w, rep)
        ww = np.sqrt(rep) * (1.0 if w is None else w)
        ref_p = pp.poles(z, fz, n=n, m=m, weight=ww)
        ref_z = pp.zeros(z, fz, f.p, n=n, weight=ww)
        ref_r, ref_e = pp.residues_ols(z, fz, f.p, weight=ww)
    elif sym == "weights":  # a constant factor of the weights is irrelevant
        w2 = np.full(z.size, 3.5) * (1.0 if w is None else w)
    elif sym == "default":
        c.require(f.degree == -1)
        kn, kz = {}, {}
    elif sym == "extra":  # points of zero weight are ignored, whatever they contain
        w2 = np.concatenate([np.zeros(2), np.ones(z.size) if w is None else w, np.zeros(1)])
        z2 = np.concatenate([[0.2 + 1.9j, -1.7j], z, [2.5]])
        f2 = np.concatenate([[30.0, -7j], fz, [1e2]])
    tol = 1e-7
    match(c, pp.poles(z2, f2, m=m, weight=w2, **kn), trafo(ref_p), "poles of noisy data", tol)
    match(c, pp.zeros(z2, f2, p2, weight=w2, **kz), trafo(ref_z), "zeros of noisy data", tol)
    r, _ = pp.residues_ols(z2, f2, p2, weight=w2)
    c.close(r, trafo_r(ref_r), "residues of noisy data", rtol=1e-8, atol=1e-9)


noisy.shard = 2


def outlier(c):
    """Points of zero weight have no influence on any result."""
    f = function(c)
    z = GRID[c.choose("points", ["circle24", "circle23"])]()
    wrong = c.choose("wrong", [(0,), (3, 11), (7, 8, 22)])
    fz = f(z)
    fz[list(wrong)] += np.array([5.0, -2e3j, 1e-2])[: len(wrong)]
    w = WEIGHT[c.choose("weight", ["ones", "ramp"])](z)
    w[list(wrong)] = 0
    c.equal(int(pp.number_poles(z, fz, degree=f.degree, weight=w)), f.p.size, "number of poles")
    pade = pp.continuation(z, fz, degree=f.degree, weight=w, real_asymp=False)
    order = match(c, pade.poles, f.p, "poles", 1e-9)
    if order is None:
        return
    match(c, pade.zeros, f.zeros, "zeros", 1e-8)
    c.close(np.asarray(pade.residues)[order], f.r, "residues", rtol=0, atol=1e-8)
    c.close(pade.amplitude, f.amplitude, "amplitude", rtol=0, atol=1e-8)


outlier.shard = 2


def many(c):
    """More poles than the initial guess of the search: (z**(N+d) - b)/(z**N - a)."""
    num = c.choose("poles", c.pick([7, 24, 49, 50, 51, 64], [7, 24, 30, 48, 49, 50, 51, 52, 64, 75, 99, 100, 101, 130]))
    degree = c.choose("degree", [-1, 0, -2])
    size = c.choose("size", [2 * num + 20, 2 * num + 51, 3 * num + 30])
    a = 0.3 * np.exp(0.4j)
    z = np.exp(2j * np.pi * (np.arange(size) + 0.3) / size)
    fz = (z ** (num + degree) - 0.2j) / (z ** num - a)
    n0 = c.choose("n_poles0", [None, 5, num, num + 7])
    c.require(n0 is None or 2 * n0 + degree < size)
    n = pp.number_poles(z, fz, degree=degree, n_poles0=n0)
    c.equal(int(n), num, "number of poles")
    if n0 is None:
        pade = pp.continuation(z, fz, degree=degree, rotate=False)
        c.equal(np.size(pade.poles), num, "number of poles of the approximant")
        c.equal(np.size(pade.zeros), num + degree, "number of zeros of the approximant")
        c.close(np.asarray(pade.poles) ** num, np.full(num, a), "poles", rtol=1e-8, atol=0)
        c.close(np.asarray(pade.zeros) ** (num + degree), np.full(num + degree, 0.2j), "zeros", rtol=1e-7, atol=0)
        c.close(pade.amplitude, 1, "amplitude", rtol=1e-8, atol=0)
        probe = 2 * np.exp(1j * np.array([0.1, 1.3, 4.0]))
        want = (probe ** (num + degree) - 0.2j) / (probe ** num - a)
        c.close(pade.eval_polefct(probe), want, "pole form", rtol=1e-8, atol=1e-10)
        c.close(pade.eval_zeropole(probe), want, "zero-pole form", rtol=1e-7, atol=0)


def precision(c):
    """Single precision data are judged by their own precision."""
    f = function(c)
    z = GRID[c.choose("points", ["circle24", "circle23"])]()
    kind = c.choose("dtype", ["c8", "f8"])
    if kind == "c8":
        fz = f(z).astype(np.complex64)
        zz = z.astype(np.complex64)
    else:
        c.require(np.all(f.p.imag == 0) and np.all(f.r.imag == 0))
        zz = 2.0 + np.cos(np.pi * (np.arange(z.size) + 0.5) / z.size) * 0.7   # real axis, right of the poles
        fz = f(zz).real
    if kind == "c8":
        n = pp.number_poles(zz, fz, degree=f.degree)
        c.check(n <= f.p.size + 1, "number of poles of single precision data", got=n, want=f.p.size)
    pl = pp.poles(zz, fz, m=f.p.size, n=f.p.size + f.degree)
    match(c, pl, f.p, "poles", 2e-3 if kind == "c8" else 1e-4)


def batch(c):
    """PadeApprox evaluates stacks of approximants."""
    degree = c.choose("degree", [0, -1, -2])
    shape = c.choose("batch", [(), (1,), (3,), (2, 3), (4, 1)])
    npole = c.choose("npole", [2, 3, 4])
    k = np.arange(int(np.prod(shape)) * npole).reshape(*shape, npole)
    pls = np.cos(1.7 * k) - 0.2j * (k % 3)
    rs = 0.3 + 0.1j * (k % 4) - 0.2 * (k % 5)
    zrs = np.sin(2.3 * k[..., : npole + degree]) + 0.1j
    amp = np.asarray(1.3 - 0.2 * k[..., 0])
    pade = pp.PadeApprox(zeros=zrs, poles=pls, residues=rs, amplitude=amp)
    z = c.choose("z", {"scalar": lambda s: np.array(0.4 + 0.9j), "vec": lambda s: np.array([0.4 + 0.9j, -1 + 0.2j, 3j]).reshape(3, *[1] * len(s)) + np.zeros(s)})(shape)
    got_p, got_z = pade.eval_polefct(z), pade.eval_zeropole(z)
    zb = np.broadcast_to(z, np.broadcast_shapes(z.shape, shape))
    want_p, want_z = np.zeros(zb.shape, complex), np.zeros(zb.shape, complex)
    for i in np.ndindex(*zb.shape):
        j = i[len(i) - len(shape):]
        want_p[i] = sum(r / (zb[i] - p) for r, p in zip(rs[j], pls[j])) + (amp[j] if degree == 0 else 0)
        want_z[i] = amp[j] * np.prod(zb[i] - zrs[j]) / np.prod(zb[i] - pls[j])
    c.close(got_p, want_p, "pole form of a stack", rtol=1e-11, atol=1e-12)
    c.close(got_z, want_z, "zero-pole form of a stack", rtol=1e-11, atol=1e-12)
    order = np.arange(1, 5)
    c.close(pade.moments(order), np.stack([(rs * pls ** (o - 1)).sum(-1) for o in order], axis=-1), "moments of a stack", rtol=1e-11, atol=1e-12)


HARNESSES = {"complex_constant": complex_constant, "offset_axis": offset_axis, "search": search, "recover": recover, "options": options, "count": count, "elementary": elementary, "special": special, "noisy": noisy, "outlier": outlier, "many": many,
             "precision": precision, "batch": batch}

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^polepade\.", units=r"^polepade$")
