"""C13: bosonic imaginary time -> Matsubara transform."""
import numpy as np
import gftool as gt
from gftool import fourier

from .c12_fourier_fermi import layout, lin_weights, BETA, SIZES

BOUNDS = ("every n_tau = 2..14 (thorough 2..34), the full basis of the input space, 59 larger grids up to 1025 (thorough 3000), 8 temperatures, 7 memory/batch layouts, all back-ends incl. a "
          "user supplied one; bosonic pole functions with the interpolation bound")
ASSUMPTIONS = ["closed integral of the piecewise linear interpolant by Gauss-Legendre with 30 nodes"]


def phases(n):
    k = np.arange((n - 1) // 2 + 1)
    return k, np.exp(2j * np.pi * ((k[:, None] * np.arange(n - 1)) % (n - 1)) / (n - 1))


def ref_dft(g, beta):
    n = g.shape[-1]
    k, ph = phases(n)
    h = beta / (n - 1)
    out = h * np.sum(g[..., None, :-1] * ph, axis=-1)
    out[..., 0] = h * (0.5 * (g[..., 0] + g[..., -1]) + g[..., 1:-1].sum(-1))
    return out


def ref_lin(g, beta):
    n = g.shape[-1]
    h = beta / (n - 1)
    k, ph = phases(n)
    w0, w1 = lin_weights(2j * np.pi * k / (n - 1))
    return h * (np.sum(ph * g[..., None, :-1], -1) * (w0 - w1) + np.sum(ph * g[..., None, 1:], -1) * w1)


FT = dict(tau2iv_dft=(fourier.tau2iv_dft, ref_dft), tau2iv_ft_lin=(fourier.tau2iv_ft_lin, ref_lin))


def vectors(n):
    return np.concatenate((np.eye(n), [np.cos(1 + np.arange(n)), np.ones(n), np.arange(n)]))


def backend(c):
    name = c.choose("fct", list(FT))
    n = c.choose("n_tau", range(2, c.pick(14, 34) + 1))
    beta = c.choose("beta", BETA)
    f, ref = FT[name]
    g = vectors(n)
    calls, col = layout(c, g)
    keep = [a.copy() for a in calls]
    got = col([f(a, beta=beta) for a in calls])
    c.check(all(np.array_equal(a, b) for a, b in zip(calls, keep)), "input not modified")
    c.close(got / beta, ref(g if got.shape[0] else g[:0], beta) / beta, name, rtol=0, atol=1e-11 * n)


def composite(c):
    """tau2iv = exact transform of the straight line through the end points + back-end applied to the remainder."""
    name = c.choose("fourier", ["default", "tau2iv_dft", "tau2iv_ft_lin", "zero"])
    n = c.choose("n_tau", range(3, c.pick(14, 34) + 1))
    beta = c.choose("beta", BETA)
    g = vectors(n)
    calls, col = layout(c, g)
    seen = []

    def zero(gf, beta):
        seen.append(np.array(gf))
        return np.zeros((*gf.shape[:-1], (gf.shape[-1] - 1) // 2 + 1), dtype=complex)
    kw = {} if name == "default" else dict(fourier=zero if name == "zero" else FT[name][0])
    got = col([fourier.tau2iv(a, beta=beta, **kw) for a in calls])
    if not got.shape[0]:
        g = g[:0]
    s = np.arange(n) / (n - 1)
    d = g[..., -1:] - g[..., :1]
    k = np.arange((n - 1) // 2 + 1)
    line = np.zeros((g.shape[0], k.size), complex)
    line[..., 1:] = beta * d / (2j * np.pi * k[1:])     # int tau/beta exp(i nu tau) = beta/(i nu beta)
    line[..., 0] = 0.5 * beta * d[..., 0]
    rem = g - d * s
    if name == "zero":
        want = line
        for x in seen:
            c.close(x[..., -1] - x[..., 0], np.zeros(x.shape[:-1]), "back-end sees jump free data", rtol=0, atol=1e-9)
    else:
        want = line + (ref_dft if name == "tau2iv_dft" else ref_lin)(rem, beta)
    c.close(got / beta, want / beta, "tau2iv " + name, rtol=0, atol=1e-11 * n)
    if name in ("default", "tau2iv_ft_lin") and got.shape[0]:
        # the piecewise-linear interpolant of the original data, jump included
        c.close(got / beta, ref_lin(g, beta) / beta, "integral of the linear interpolant", rtol=0, atol=1e-11 * n)
    # zero frequency: integral (trapezoid = exact for the interpolant)
    if name != "zero":
        c.close(got[..., 0] / beta, (0.5 * (g[..., 0] + g[..., -1]) + g[..., 1:-1].sum(-1)) / (n - 1), "zero frequency is the integral", rtol=0,
                atol=1e-11 * n)


def bosons(c):
    """sum_j w_j/(i nu - e_j), e_j > 0, to the interpolation error."""
    p = np.array(c.choose("poles", [[0.5], [0.1, 2.0], [1.0, 3.0, 0.3]]))
    sgn = c.choose("weights", [1, -1, 0.3])
    beta = c.choose("beta", [1.0, 5, 20.0])
    n = c.choose("n_tau", c.pick([65, 128, 1025], [65, 128, 1025, 4096, 8193]))
    ft = c.choose("fourier", ["default", "tau2iv_dft", "tau2iv_ft_lin"])
    w = sgn * np.cos(np.arange(p.size))
    tau = np.linspace(0, beta, n)
    g = gt.pole_gf_tau_b(tau, p, w, beta=beta)
    kw = {} if ft == "default" else dict(fourier=FT[ft][0])
    got = fourier.tau2iv(g, beta=beta, **kw)
    nu = 2j * np.pi * np.arange(got.size) / beta
    want = np.sum(w / (nu[:, None] - p), axis=-1)
    c.equal(got.shape, ((n - 1) // 2 + 1,), "number of frequencies")
    h = beta / (n - 1)
    # |G''| <= sum |w| p^2 |G_p|
    amp = np.sum(abs(w) * p**2 / -np.expm1(-beta * p))
    bound = beta * h**2 / 8 * amp
    if ft == "tau2iv_dft":
        bound *= 4       # aliasing of the remainder's 1/nu^2 tail, at most pi^2/2 of the same scale
        bound += h**2 * np.sum(abs(w) * p) * 2
    c.close((got - want) / (bound + 1e-12 * beta * np.sum(abs(w) / -np.expm1(-beta * p))), np.zeros(got.size), "interpolation error", rtol=0, atol=1.0)


def large(c):
    """Long grids, dense data without any smoothness."""
    name = c.choose("fourier", ["default", *FT, "backend dft", "backend lin"])
    n = c.choose("n_tau", c.pick(SIZES, SIZES + [*range(41, 63), 150, 1500, 2000, 2048, 2049, 3000]))
    beta = 12.5
    i = np.arange(n)
    g = np.cos(0.3 * i * i + i)
    d = g[-1] - g[0]
    k = np.arange((n - 1) // 2 + 1)
    ref = ref_dft if "dft" in name else ref_lin
    if name.startswith("backend"):
        f, want = FT["tau2iv_dft" if "dft" in name else "tau2iv_ft_lin"][0], ref(g, beta)
    else:
        kw = {} if name == "default" else dict(fourier=FT[name][0])
        f = lambda g, beta: fourier.tau2iv(g, beta=beta, **kw)  # noqa: E731
        want = ref(g - d * i / (n - 1), beta)
        want[0] += 0.5 * beta * d
        want[1:] += beta * d / (2j * np.pi * k[1:])
    c.close(f(g, beta), want, name, rtol=0, atol=1e-11 * n)
    c.close(f(np.stack([g, -3 * g]), beta), np.stack([want, -3 * want]), name + " batch", rtol=0, atol=3e-11 * n)


HARNESSES = dict(large=large, backend=backend, composite=composite, bosons=bosons)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^fourier\.tau2iv", units=r"^fourier\.tau2iv$")
