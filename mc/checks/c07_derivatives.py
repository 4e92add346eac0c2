"""C07: derivatives and inverses are consistent with the function."""
import numpy as np
from mpmath import mp, mpc, mpf

import gftool as gt
from gftool.basis import pole
from gftool.lattice import bethe, square
from mc.lat import table

BOUNDS = ("Bethe derivatives: 19 directions x 15 radii |z|/D 1e-2..1e8 x 10 half-bandwidths, scalar/array/long double; "
          "Cauchy-circle derivative of the function itself; pole sets of up to 3 poles; Fermi derivative on a real and complex grid")
ASSUMPTIONS = ["30-digit closed forms; spectrally accurate Cauchy integrals of the code's own function"]
DS = [1.0, 1, 0.5, 0.37, 2, 3.0, 0.01, 10.0, 100.0, 7]
ANG = np.deg2rad([1, 5, 20, 45, 70, 89, 90, 91, 110, 135, 160, 175, 179, 181, 190, 225, 269, 270, 300, 345, 359])
RAD = [1e-2, 0.1, 0.3, 0.7, 0.95, 1.05, 1.3, 2.0, 5.0, 20.0, 1e2, 1e3, 1e4, 1e6, 1e8]


def ref(z, D):
    with mp.workdps(40):
        x = mpc(z) / mpf(D)
        s = x * mp.sqrt(1 - 1 / x**2)
        D = mpf(D)
        return (complex(2 / D / (x + s)), complex(-2 / D**2 / (s * (x + s))), complex(2 / D**3 / s**3))


def bethe_closed(c):
    D = c.choose("D", DS)
    rad = c.choose("|z|/D", RAD)
    kind = c.choose("container", ["array", "scalar", "2d", "longdouble"])
    z = rad * np.exp(1j * ANG) * D
    want = np.array([ref(v, D) for v in z]).T
    for k, fct in enumerate((bethe.gf_z, bethe.gf_d1_z, bethe.gf_d2_z)):
        if kind == "array":
            got = fct(z, half_bandwidth=D)
            c.equal(got.dtype, np.dtype(complex), "complex double output")
        elif kind == "scalar":
            got = np.array([complex(fct(complex(v), half_bandwidth=D)) for v in z])
        elif kind == "2d":
            got = fct(z.reshape(3, -1), half_bandwidth=D)
            c.equal(got.shape, (3, len(ANG) // 3), "shape")
            got = got.ravel()
        else:
            got = fct(z.astype(np.clongdouble), half_bandwidth=D)
            c.equal(got.dtype, np.dtype(np.clongdouble), "extended precision output")
        c.close(got / abs(want[k]), want[k] / abs(want[k]), f"derivative {k}", rtol=0, atol=1e-12)
    inv = bethe.gf_z_inv(bethe.gf_z(z, half_bandwidth=D), half_bandwidth=D)
    c.close(inv / abs(z), z / abs(z), "gf_z_inv(gf_z(z)) = z", rtol=0, atol=1e-12 + 1e-14 / rad)
    # and from the other side: every physical value |g| < 2/D has the right preimage
    g = want[0]
    back = bethe.gf_z(bethe.gf_z_inv(g, half_bandwidth=D), half_bandwidth=D)
    c.close(back / abs(g), g / abs(g), "gf_z(gf_z_inv(g)) = g", rtol=0, atol=1e-10)


def bethe_extended(c):
    """Extended-precision input gives extended-precision derivatives."""
    D = c.choose("D", [1.0, 0.5, 2, 8])     # exact factors
    rad = c.choose("|z|/D", RAD[:12])
    z = (rad * np.exp(1j * ANG) * D).astype(np.clongdouble)
    for k, fct in enumerate((bethe.gf_z, bethe.gf_d1_z, bethe.gf_d2_z)):
        got = fct(z, half_bandwidth=D)
        for v, g in zip(z, got):
            with mp.workdps(40):
                x = mpc(mpf(repr_ld(v.real)), mpf(repr_ld(v.imag))) / mpf(D)
                s = x * mp.sqrt(1 - 1 / x**2)
                w = [2 / mpf(D) / (x + s), -2 / mpf(D)**2 / (s * (x + s)), 2 / mpf(D)**3 / s**3][k]
                err = abs(mpc(mpf(repr_ld(g.real)), mpf(repr_ld(g.imag))) - w) / abs(w)
            c.check(err < 1e-16 + 3e-17 / min(rad, 1), f"extended precision derivative {k}", err=float(err), z=v)


def repr_ld(v):
    return np.format_float_scientific(v, unique=True)


def cauchy(fct, z, r, n=64):
    ph = np.exp(2j * np.pi * (np.arange(n) + 0.5) / n)
    val = fct(z + r * ph)
    return np.mean(val / ph) / r, 2 * np.mean(val / ph**2) / r**2


def bethe_cauchy(c):
    D = c.choose("D", DS)
    ang = c.choose("angle", list(ANG))
    rad = c.choose("|z|/D", [0.3, 0.7, 1.05, 1.3, 2.0, 5.0, 20.0])
    z = rad * np.exp(1j * ang)
    dist = min(abs(z.imag) if abs(z.real) < 1 else abs(abs(z.real) - 1 + 1j * z.imag), 1e9)
    c.require(dist > 0.05)
    d1, d2 = cauchy(lambda x: bethe.gf_z(x * D, half_bandwidth=D), z, 0.5 * dist)
    c.close(bethe.gf_d1_z(np.array(z * D), half_bandwidth=D) * D, d1, "d1 = derivative of gf_z", rtol=1e-10, atol=1e-12)
    c.close(bethe.gf_d2_z(np.array(z * D), half_bandwidth=D) * D**2, d2, "d2 = second derivative of gf_z", rtol=1e-9, atol=1e-10)


POLES = {"1": [0.0], "2": [-1.0, 1.0], "3": [-2.0, 0.1, 0.5], "deg": [0.3, 0.3, 0.3], "cplx": [0.5 - 1j, 2 + 0.5j]}
WEIGHTS = [1.0, -0.5, 2 + 1j]


def poles(c):
    name = c.choose("poles", POLES)
    w = c.choose("weight", [[1.0, 1.0, 1.0], [0.2, -0.7, 3.0], [1j, 0.5, 1 - 1j], [0.0, 0.0, 0.0]])
    p = np.array(name)
    w = np.array(w)[:p.size]
    z = np.array([0.3 + 0.2j, -1 - 1j, 5j, -7 + 0.01j, 100.0 - 3j, 2.4, 1e6j])
    want = np.array([-np.sum(w / (v - p)**2) for v in z])
    for fct in (pole.gf_d1_z, gt.pole_gf_d1_z):
        c.close(fct(z, poles=p, weights=w), want, "pole derivative", rtol=1e-12, atol=1e-30)
        c.close(fct(z[2], poles=p, weights=w), want[2], "pole derivative, scalar", rtol=1e-12, atol=1e-30)
        c.close(fct(z.reshape(1, 7), poles=p, weights=w), want.reshape(1, 7), "pole derivative, 2d", rtol=1e-12, atol=1e-30)
    for i, v in enumerate(z):
        dist = min(abs(v - p))
        d1, _ = cauchy(lambda x: pole.gf_z(x, poles=p, weights=w), v, 0.5 * dist)
        c.close(want[i], d1, "pole derivative is that of gf_z", rtol=1e-9, atol=1e-14 * np.sum(abs(w)) / dist)


def stress(c):
    D = c.choose("D", DS)
    part = c.choose("part", range(4))
    z, g = table("square")
    keep = (z.imag > 0) & (abs(z) < 1e4)
    z, g = z[keep][part::4], g[keep][part::4]
    want = -0.5 * (z * g - 1)
    # independent: spectral integral of -eps/2 * dos(eps) with the product cos(a)+cos(b) k-sum
    c.close(square.stress_trafo(z * D, half_bandwidth=D), want, "stress tensor transform", rtol=0, atol=1e-10)
    c.close(square.stress_trafo(z.conj() * D, half_bandwidth=D), want.conj(), "stress tensor transform, advanced", rtol=0, atol=1e-10)


def stress_ksum(c):
    """T(xi) from the definition: k-average of (d^2 eps/dk_x^2)/(xi - eps) up to normalisation."""
    D = c.choose("D", DS)
    z = c.choose("z/D", [1.5 + 1j, 0.3 + 0.5j, -0.7 + 0.4j, 2j, -3 + 0.5j, 0.9j, 1 - 1j, -0.2 - 0.6j])
    k = (np.arange(400) + 0.5) / 400 * 2 * np.pi
    eps = np.cos(k)[:, None] / 2 + np.cos(k)[None, :] / 2
    want = np.mean(-0.5 * eps / (z - eps))
    c.close(square.stress_trafo(np.array(z * D), half_bandwidth=D), want, "stress tensor transform k-sum", rtol=0, atol=1e-11)


def fermi(c):
    beta = c.choose("beta", [1.0, 1, 0.1, 10, 137.0, -2.0])
    x = c.choose("beta*eps", list(np.r_[-800, -60, -37, -20, -5, -1, -0.1, 0, 0.1, 1, 5, 20, 37, 60, 300, 700, 800]))
    e = x / beta
    got = gt.fermi_fct_d1(np.array([e]), beta=beta)
    want = -beta / (4 * np.cosh(min(abs(x), 700) / 2)**2)
    c.close(got, [want], "Fermi derivative", rtol=1e-12, atol=2e-14 * abs(beta))
    c.close(float(gt.fermi_fct_d1(e, beta=beta)), want, "Fermi derivative, scalar", rtol=1e-12, atol=2e-14 * abs(beta))
    c.check(got[0] * beta <= 0, "sign")
    for im in (0.3, -0.7, 1.1, 2.0, -2.5):
        z = (x + 1j * im) / beta
        if abs(x) > 300:
            continue
        d1, _ = cauchy(lambda y: gt.fermi_fct(y, beta=beta), z, 0.4 * (np.pi - abs(im)) / abs(beta))
        c.close(gt.fermi_fct_d1(np.array([z]), beta=beta), [d1], "Fermi derivative, complex", rtol=1e-10, atol=3e-14 * abs(beta))


HARNESSES = dict(bethe_closed=bethe_closed, bethe_extended=bethe_extended, bethe_cauchy=bethe_cauchy, poles=poles, stress=stress,
                 stress_ksum=stress_ksum, fermi=fermi)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(bcc|bethe|bethez|box|fcc|honeycomb|kagome|lieb|onedim|rectangular|sc|square|triangular)\.(gf_d1_z|gf_d2_z|gf_z_inv|stress_trafo)$", units=r"^lattice\.(bethe\.derivatives|square\.stress_trafo)$")
