"""C17: densities from Matsubara and Pade data."""
import itertools
import warnings

import numpy as np
import gftool as gt

BOUNDS = ("density_iw: all sets of 1..2 (thorough 1..3) poles of a 7-point grid x weights x norm x beta x N x 0..4 moments x n_fit x Matsubara/Pade; every unit vector of the "
          "input space (real and imaginary) for N=1..12; batch layouts; density/check_convergence: scalar/array/matrix potentials (all 2x2 Hermitian matrices of a "
          "small alphabet) x total modes x return_err modes; up to 20000 frequencies")
ASSUMPTIONS = ["occupation of a pole function: sum_j w_j/(1+exp(beta*e_j))",
               "truncation constants calibrated on the unchanged tree (factor >= 20)"]
GRID = [-1.5, -0.8, -0.3, 0.0, 0.2, 0.6, 1.4]


def occ(p, w, beta):
    x = beta * np.asarray(p)
    return np.sum(w * 0.5 * (1 - np.tanh(0.5 * x)), axis=-1)


def iws_(n, beta):
    return 1j * np.pi * (2 * np.arange(n) + 1) / beta


def pole_fct(c, nmax):
    sub = c.choose("poles", [s for r in range(1, nmax + 1) for s in itertools.combinations(GRID, r)])
    p = np.array(sub)
    w = c.choose("weights", [[1.0, 0.4, 0.9], [0.3, -0.2, 1.0]])[:p.size]
    return p, np.array(w)


def g_z(z, p, w):
    return np.sum(w / (z[..., None] - p), axis=-1)


def moments_(p, w, m):
    return np.array([np.sum(w * p**k) for k in range(m)])


def matsubara(c):
    p, w = pole_fct(c, c.pick(2, 3))
    beta = c.choose("beta", [1.0, 10, 50.0])
    n = c.choose("N", [256, 1024])
    m = c.choose("n_mom", [1, 2, 3, 4])
    n_fit = c.choose("n_fit", [0, 1, 2])
    iws = iws_(n, beta)
    g = g_z(iws, p, w)
    mom = moments_(p, w, m)
    got = gt.density_iw(iws, g, beta, moments=mom, n_fit=n_fit)
    want = occ(p, w, beta)
    wn = np.pi * 2 * n / beta
    order = m + 1 + (m + 1) % 2          # first even order that is not known
    bound = 4 * 2.0**order / wn**(order - 1)
    c.equal(np.shape(got), (), "scalar")
    c.check(np.isrealobj(got), "real")
    c.close(got, want, f"occupation, n_mom={m} n_fit={n_fit}", rtol=0, atol=bound + 1e-9)
    if m == 1:
        c.close(gt.density_iw(iws, g / w.sum(), beta, n_fit=n_fit), want / w.sum(), "default moments", rtol=0, atol=(bound + 1e-9) / abs(w.sum()))
        c.close(gt.density_iw(iws, g, beta), gt.density_iw(iws, g, beta, weights=1.0, moments=[1.0], n_fit=0), "defaults", rtol=1e-10, atol=1e-12)


def fit(c):
    """A fitted moment improves the result to next order."""
    p, w = pole_fct(c, c.pick(1, 2))
    beta = c.choose("beta", [1.0, 10])
    n = c.choose("N", [512, 1024])
    n_fit = c.choose("n_fit", [1, 2, 3])
    m = c.choose("n_mom", [0, 1, 2])
    c.require(m + n_fit >= 2)
    iws = iws_(n, beta)
    g = g_z(iws, p, w)
    got = gt.density_iw(iws, g, beta, moments=moments_(p, w, m), n_fit=n_fit)
    wn = np.pi * 2 * n / beta
    c.close(got, occ(p, w, beta), "occupation with fit", rtol=0, atol=20 * 2.0**4 / wn**2)


def pade_freq(c):
    p, w = pole_fct(c, c.pick(2, 3))
    beta = c.choose("beta", [1.0, 10, 50])
    n = c.choose("N", [30, 60, 61])
    m = c.choose("n_mom", [1, 2, 3])
    izp, rp = gt.pade_frequencies(n, beta=beta)
    got = gt.density_iw(izp, g_z(izp, p, w), beta, weights=rp, moments=moments_(p, w, m))
    tol = 1e-10 if beta * 1.5 < 2 * n else 1e-3
    c.close(got, occ(p, w, beta), "occupation from Pade frequencies", rtol=0, atol=tol)


def linear(c):
    """Without fit the density is an affine function: every unit vector of the input space."""
    n = c.choose("N", range(1, c.pick(9, 13)))
    k = c.choose("frequency", range(n))
    val = c.choose("unit", [1.0, 1j, -2.5 + 1j])
    beta = c.choose("beta", [1.0, 7, 0.1])
    m = c.choose("moments", [(1.0,), (1.0, 0.5), (2.0, -0.3, 0.4)])
    wt = c.choose("freq weights", ["default", "ones", "varying"])
    iws = iws_(n, beta)
    kw = dict(moments=m)
    f = np.ones(n)
    if wt == "ones":
        kw["weights"] = np.ones(n)
    elif wt == "varying":
        f = 1.0 + 0.3 * np.arange(n)
        kw["weights"] = f
    g0 = 1 / (iws - 0.3)
    g1 = g0.copy()
    g1[k] += val
    got = gt.density_iw(iws, g1, beta, **kw) - gt.density_iw(iws, g0, beta, **kw)
    c.close(got, 2 / beta * f[k] * np.real(val), "contribution of a single frequency", rtol=1e-10, atol=1e-11 / beta)


def exact(c):
    """Functions consisting of the leading moment only are summed exactly."""
    n = c.choose("N", [1, 2, 3, 10])
    beta = c.choose("beta", [0.1, 1.0, 7, 100.0])
    w = c.choose("weight", [1.0, 0.3, -2.0])
    extra = c.choose("zeros", [0, 1, 2])
    iws = iws_(n, beta)
    got = gt.density_iw(iws, w / iws, beta, moments=[w] + [0.0] * extra)
    tol = 1e-12 if extra < 2 else None
    if tol:
        c.close(got, 0.5 * w, "half filling", rtol=0, atol=1e-12 * (1 + 1 / beta))


def batch(c):
    shape = c.choose("batch", [(), (1,), (2,), (3, 2)])
    mshape = c.choose("moments batch", ["full", "shared"])
    n_fit = c.choose("n_fit", [0, 1])
    freq = c.choose("frequencies", ["iw", "izp"])
    wshape = c.choose("weights", ["1d", "full"])
    beta = 5.0
    if freq == "iw":
        iws, rp = iws_(40, beta), np.ones(40)
    else:
        iws, rp = gt.pade_frequencies(40, beta=beta)
    p = np.array([-0.4, 0.9]) + 0.1 * np.arange(int(np.prod(shape))).reshape(shape + (1,))
    w = np.array([0.25, 0.75])
    g = np.sum(w / (iws[:, None] - p[..., None, :]), axis=-1)
    mom = np.stack([np.sum(w + 0 * p, axis=-1), np.sum(w * p, axis=-1)], axis=-1) if mshape == "full" else np.array([1.0])
    wt = rp if wshape == "1d" else np.broadcast_to(rp, g.shape)
    got = gt.density_iw(iws, g, beta, weights=wt, moments=mom, n_fit=n_fit)
    c.equal(np.shape(got), shape, "shape")
    want = np.empty(shape)
    for i in np.ndindex(*shape):
        want[i] = gt.density_iw(iws, g[i], beta, weights=rp, moments=mom[i] if mshape == "full" else mom, n_fit=n_fit)
    c.close(got, want, "entry by entry", rtol=0, atol=1e-10)
    c.close(got, occ(p, w, beta), "occupation", rtol=0, atol=0.15)


# ------------------------------------------------------------ deprecated `density`
POT = [-2.0, -0.5, 0.0, 1.0, 3.0]
MAT = [np.array([[a, b], [np.conj(b), d]]) for a in (-0.5, 0.0, 1.0) for d in (-0.5, 1.0) for b in (0.0, 0.7, -0.4, 0.3j, 0.2 - 0.6j)]


def tail_sum(f, n, beta):
    """2/beta sum_{k>=n} Re f(iw_k), with the remainder of the 1/w^2 tail integrated."""
    big = 20000
    k = np.arange(n, n + big)
    iw = 1j * np.pi * (2 * k + 1) / beta
    val = f(iw).real
    rest = val[-1] * iw[-1].imag**2 * beta / (2 * np.pi) / (iw[-1].imag + np.pi / beta)
    return 2 / beta * (val.sum() + rest)


def dens_scalar(c):
    """G = 1/(iw + pot - a/(iw - b)): self-energy decaying as 1/iw."""
    pot = c.choose("potential", POT)
    a = c.choose("V^2", [0.0, 0.4])
    b = c.choose("bath", [-1.0, 0.0, 0.5])
    beta = c.choose("beta", [1.0, 10.0])
    n = c.choose("N", [1, 30, 200])
    mode = c.choose("return_err", ["default", True, False, 1e3])
    iws = iws_(n, beta)

    def gf(z):
        return 1 / (z + pot - a / (z - b))
    ham = np.array([[-pot, np.sqrt(a)], [np.sqrt(a), b]])
    eps, vec = np.linalg.eigh(ham)
    exact_occ = np.sum(vec[0]**2 * 0.5 * (1 - np.tanh(0.5 * beta * eps)))
    want = exact_occ - tail_sum(lambda z: gf(z) - 1 / (z + pot), n, beta)
    kw = {} if mode == "default" else dict(return_err=mode)
    res = gt.density(gf(iws), potential=pot, beta=beta, **kw)
    if mode == "default" or mode is True:
        x, err = res
        c.close(res.x, x, "named result", rtol=0, atol=0)
        c.check(abs(np.abs(err) - np.abs(gt.density_error(gf(iws) - 1 / (iws + pot), iws))) < 1e-12, "error is that of density_error")
    else:
        x = res
    c.equal(np.shape(x), (), "shape")
    c.close(x, want, "density", rtol=0, atol=1e-7)
    if n == 200 and beta == 1.0:
        c.close(x, exact_occ, "density equals the occupation", rtol=0, atol=5e-5)
    conv = gt.check_convergence(gf(iws), potential=pot, beta=beta)
    c.close(conv, iws.imag**2 * (gf(iws) - 1 / (iws + pot)).real, "check_convergence", rtol=1e-9, atol=1e-10)
    conv = gt.check_convergence(gf(iws), potential=pot, beta=beta, order=3)
    c.close(conv, iws.imag**3 * (gf(iws) - 1 / (iws + pot)).real, "check_convergence order 3", rtol=1e-9, atol=1e-9)


def dens_warn(c):
    """A float return_err issues a warning if and only if the estimate exceeds it."""
    n = c.choose("N", [5, 30])
    ratio = c.choose("threshold / estimate", [0.1, 0.9, 1.1, 10.0])
    kind = c.choose("kind", ["scalar", "one of many"])
    sign = c.choose("sign of the remainder", [1, -1])
    iws = iws_(n, 2.0)
    g = 1 / (iws + 0.3) - sign * 0.5 / iws**2
    thr = float(ratio * 0.5 / np.pi / iws[-1].imag)
    pot = 0.3
    if kind == "one of many":
        g = np.stack([1 / (iws + 0.3), g, 1 / (iws + 0.3)])
        pot = np.full(3, 0.3)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        x = gt.density(g, pot, 2.0, return_err=thr)
    rec = [r for r in rec if not issubclass(r.category, DeprecationWarning)]
    c.equal(np.shape(x), np.shape(pot), "only the density is returned")
    c.equal(len(rec) > 0, ratio < 1, "warning iff inaccurate")
    for flag in (False, True):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            gt.density(g, pot, 2.0, return_err=flag)
        c.equal([r.category for r in rec if not issubclass(r.category, DeprecationWarning)], [], f"no warning for return_err={flag}")


def dens_array(c):
    shape = c.choose("shape", [(1,), (3,), (2, 3)])
    mode = c.choose("mode", ["array", "total"])
    beta = c.choose("beta", [1.0, 10.0])
    n = c.choose("N", [1, 20])
    order = c.choose("order", [1, 2, 3, 4, 5])
    err = c.choose("return_err", [True, False])
    off = c.choose("perturbation", [0.0, 0.25])
    pot = np.linspace(-1, 2, int(np.prod(shape))).reshape(shape)
    iws = iws_(n, beta)
    free = 1 / (pot[..., None] + iws)
    g = free + off / iws**2
    want = 0.5 * (1 + np.tanh(0.5 * beta * pot)) + 2 / beta * np.sum((off / iws**2).real)
    if mode == "array":
        res = gt.density(g, potential=pot, beta=beta, return_err=err)
        x = res[0] if err else res
        c.close(x, want, "densities", rtol=0, atol=1e-11)
        c.close(gt.check_convergence(g, pot, beta, order=order), iws.imag**order * (off / iws**2).real + 0 * pot[..., None], "check_convergence", rtol=1e-8, atol=1e-14 * iws[-1].imag**order + 1e-9)
        if err:
            c.equal(np.shape(res[1]), shape, "shape of the error")
            c.close(np.abs(res[1]), np.full(shape, off / np.pi / iws[-1].imag), "integral test", rtol=1e-6, atol=1e-10)
    else:
        res = gt.density(g.reshape(-1, n).sum(0), potential=pot, beta=beta, return_err=err, total=True)
        x = res[0] if err else res
        c.close(x, want.sum(), "total density", rtol=0, atol=1e-10)
        res = gt.density(g.reshape(-1, n).sum(0), potential=pot, beta=beta, return_err=err, total=tuple(range(len(shape))))
        c.close(res[0] if err else res, want.sum(), "total density, axes given", rtol=0, atol=1e-10)
        c.close(gt.check_convergence(g.reshape(-1, n).sum(0), pot, beta, order=order, total=True),
                pot.size * iws.imag**order * (off / iws**2).real, "check_convergence total", rtol=1e-8, atol=1e-13 * iws[-1].imag**order + 1e-9)


def dens_matrix(c):
    mat = c.choose("potential", list(range(len(MAT) + 2)))
    beta = c.choose("beta", [1.0, 10])
    n = c.choose("N", [1, 2, 3, 25])
    total = c.choose("total", [False, True])
    order = c.choose("order", [2, 3])
    off = c.choose("perturbation", [0.0, 0.25])
    if mat < len(MAT):
        pot = MAT[mat]
    else:
        pot = np.diag([0.3, -0.2, 1.0]) + (0.4 * np.ones((3, 3)) if mat > len(MAT) else 0)
    d = pot.shape[0]
    iws = iws_(n, beta)
    free = np.array([np.diag(np.linalg.inv(z * np.eye(d) + pot)) for z in iws]).T
    eps, vec = np.linalg.eigh(-pot)
    n_free = np.sum(abs(vec)**2 * 0.5 * (1 - np.tanh(0.5 * beta * eps)), axis=-1)
    g = free + off / iws**2
    extra = 2 / beta * np.sum((off / iws**2).real)
    if total:
        g, n_free, extra = g.sum(0), n_free.sum(), extra * d
    x, err = gt.density(g, potential=pot, beta=beta, matrix=True, total=total)
    c.close(x, n_free + extra, "density", rtol=0, atol=1e-10)
    c.equal(np.shape(err), np.shape(n_free), "shape of the error")
    c.close(np.abs(err), np.full(np.shape(n_free), (d if total else 1) * off / np.pi / iws[-1].imag), "integral test", rtol=1e-6, atol=1e-9)
    conv = gt.check_convergence(g, pot, beta, order=order, matrix=True, total=total)
    want = iws.imag**order * (off / iws**2).real * (d if total else 1)
    c.close(conv, np.broadcast_to(want, g.shape), "check_convergence", rtol=1e-8, atol=1e-8)


def errors(c):
    """Integral test: error estimates for pure power-law remainders, averages over noise and maxima."""
    n = c.choose("N", [1, 2, 5, 9, 10, 11, 40])
    beta = c.choose("beta", [1.0, 20.0])
    amp = c.choose("amplitude", [1.0, -0.7])
    shape = c.choose("batch", [(), (2,), (2, 3)])
    iws = iws_(n, beta)
    wn = iws.imag
    scale = 1 + np.arange(int(np.prod(shape))).reshape(shape)
    d2 = amp * scale[..., None] / wn**2
    d3 = amp * scale[..., None] / wn**3
    for noisy in (True, False):
        got = gt.density_error(d2, iws, noisy=noisy)
        c.close(np.abs(got), abs(amp) * scale / (np.pi * wn[-1]), f"density_error noisy={noisy}", rtol=1e-10, atol=0)
        got = gt.density_error(d2 + 0.3j * d2, iws, noisy=noisy)
        c.check(np.isrealobj(got), "real estimate")
        c.close(np.abs(got), abs(amp) * scale / (np.pi * wn[-1]), f"only the real part matters, noisy={noisy}", rtol=1e-10, atol=0)
    c.close(np.abs(gt.density_error(d2, iws)), abs(amp) * scale / (np.pi * wn[-1]), "density_error default", rtol=1e-10, atol=0)
    got = gt.density_error2(d3, iws)
    exact_rest = abs(amp) * scale / (2 * np.pi * wn[-1]**2)
    c.close(gt.density_error2(d3 + 50j * d3, iws), got, "density_error2: only the real part matters", rtol=1e-10, atol=0)
    for sgn in (1, -1):  # the largest remainder counts, at whatever position
        wob = 1 + 0.8 * sgn * (-1.0)**np.arange(n)
        big = np.max(wob[n // 2:])
        err = gt.density_error2(d3 * wob, iws)
        c.check(np.all(err >= big * exact_rest * (1 - 1e-9)) and np.all(err <= 12 * 1.8 * exact_rest), "density_error2 takes the largest remainder")
        err = gt.density_error(d2 * wob, iws, noisy=False)
        want = abs(amp) * scale / (np.pi * wn[-1])
        c.check(np.all(err >= big * want * (1 - 1e-9)) and np.all(err <= 1.8 * want * (1 + 1e-9)), "density_error(noisy=False) takes the largest remainder")
    c.check(np.all(got >= exact_rest * (1 - 1e-9)) and np.all(got <= 12 * exact_rest) and np.shape(got) == shape, "density_error2 bounds the remainder")
    if n == 40:
        noise = (-1.0)**np.arange(n)
        sig = (amp + 3 * amp * noise) / wn**2
        c.close(np.abs(gt.density_error(sig, iws)), abs(amp) / (np.pi * wn[-1]), "noise averages out", rtol=0.2, atol=0)
        c.close(gt.density_error(sig, iws, noisy=False), 4 * abs(amp) / (np.pi * wn[-1]), "maximum without noise", rtol=1e-9, atol=0)
        # low frequencies are not representative and don't enter
        spoil = sig.copy()
        spoil[:4] += 1e3
        c.close(np.abs(gt.density_error(spoil, iws)), abs(amp) / (np.pi * wn[-1]), "low frequencies ignored", rtol=0.2, atol=0)
        c.close(gt.density_error(spoil, iws, noisy=False), 4 * abs(amp) / (np.pi * wn[-1]), "low frequencies ignored, maximum", rtol=1e-9, atol=0)


def sizes(c):
    """Many frequencies."""
    n = c.choose("n_iw", [13, 64, 500, 1024, 4097, 20000])
    n_mom = c.choose("n_mom", [1, 2, 4])
    stack = c.choose("stack", [(), (3,)])
    beta = c.choose("beta", [7.0, 100.0])
    p = np.array([-0.9, -0.2, 0.35, 1.1])
    w = np.array([0.1, 0.4, 0.3, 0.2])
    scale = 1 + 0.2 * np.arange(int(np.prod(stack))).reshape(stack)[..., None]
    iws = 1j * np.pi / beta * (2 * np.arange(n) + 1)
    g = np.sum(w / (iws[..., None] - p * scale[..., None]), axis=-1)
    mom = np.stack([np.sum(w * (p * scale)**k, axis=-1) for k in range(n_mom)], axis=-1)
    got = gt.density_iw(iws, g, beta=beta, moments=mom)
    want = np.sum(w / (1 + np.exp(beta * p * scale)), axis=-1)
    om = (2 * n + 1) * np.pi / beta
    bound = 10 * om**-{1: 1, 2: 3, 4: 5}[n_mom] if om > 3 else 10
    c.close(got, want, "density", rtol=0, atol=bound + 1e-10)


HARNESSES = dict(sizes=sizes, matsubara=matsubara, fit=fit, pade_freq=pade_freq, linear=linear, exact=exact, batch=batch,
                 dens_scalar=dens_scalar, dens_warn=dens_warn, dens_array=dens_array, dens_matrix=dens_matrix, errors=errors)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^density\.(density|check)", units=r"^density(\.moments|\.amplitude)?$")
