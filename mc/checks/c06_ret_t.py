"""C06: retarded-time lattice Green's functions."""
import numpy as np
from mpmath import mp, mpf

from gftool import lattice

BOUNDS = ("Bethe and box x 12 half-bandwidths x centers (units of D) of both signs and arrays x t = 0, +-1e-9..+-1e3 log grid with "
          "both sides of any small-argument switch x containers; Bessel/sine reference with 30 digits")
ASSUMPTIONS = ["mpmath besselj/sin as reference; independent DOS quadrature for moderate times"]
DS = [1.0, 1, 0.5, 0.37, 2, 3.0, 0.01, 10.0, 100.0, 7]
CENTER = [0, 0.0, 0.7, -0.7, 2, -3.0, 1e-3]


def ref(name, t, D, center):
    if t < 0:
        return 0j
    with mp.workdps(30):
        x = mpf(D) * mpf(t)
        if x == 0:
            val = mpf(1)
        elif name == "bethe":
            val = 2 * mp.besselj(1, x) / x
        else:
            val = mp.sin(x) / x
        return complex(-1j * val * mp.expj(-mpf(center) * x))


TT = np.r_[0.0, 10.0**np.arange(-9, 3.1, 0.25), 1.1e-4, 1.2e-4, 1.22e-4, 1.3e-4, 2.0, 7.5, 31.0]
TT = np.r_[TT, -TT[1:]]


def values(c):
    name = c.choose("lattice", ["bethe", "box"])
    D = c.choose("D", DS)
    center = c.choose("center", CENTER)
    gf = getattr(lattice, name).gf_ret_t
    tt = TT / c.choose("time unit", [1.0, float(D)])
    want = np.array([ref(name, t, D, center) for t in tt])
    got = gf(tt, half_bandwidth=D, center=center)
    # phase conditioning: center*t and D*t rounded to double
    atol = 1e-12 + 4e-16 * abs(tt) * (abs(center) + 1) * float(D) * 4
    c.close((got - want) / atol, np.zeros(tt.size), "G(t)", rtol=0, atol=1.0)
    if center == 0:
        c.close((gf(tt, half_bandwidth=D) - want) / atol, np.zeros(tt.size), "default center is 0", rtol=0, atol=1.0)
    c.check(np.all(got[tt < 0] == 0), "0 for negative times")
    c.close(gf(np.array([0.0]), half_bandwidth=D, center=center), np.array([-1j]), "-i at t=0", rtol=0, atol=1e-14)
    # relative precision of the deviation from -i at short times: no jump at a switch of expressions
    short = (tt > 0) & (tt * float(D) < 3e-2) & (center == 0)
    if short.any():
        x = tt[short] * float(D)
        dev = (got[short].imag + 1) / x**2
        lead = 1 / 8 if name == "bethe" else 1 / 6
        c.check(np.all(abs(dev - lead) < 2e-3 * lead + 5e-16 / x**2), "short-time curvature", dev=dev, x=x)


def dos_transform(c):
    """-i int dos(e) exp(-i(e + center*D) t): quadrature on Chebyshev/Legendre nodes of the code's own DOS."""
    name = c.choose("lattice", ["bethe", "box"])
    D = c.choose("D", DS)
    center = c.choose("center", CENTER)
    t = c.choose("D*t", [0.0, 0.1, 0.5, 1.0, 3.0, 10.0, 25.0]) / float(D)
    mod = getattr(lattice, name)
    if name == "bethe":
        x = np.cos((np.arange(1, 121)) * np.pi / 121)
        w = np.pi / 121 * np.sin(np.arange(1, 121) * np.pi / 121)
    else:
        x, w = np.polynomial.legendre.leggauss(80)
    want = -1j * np.sum(w * float(D) * mod.dos(x * D, D) * np.exp(-1j * (x + center) * float(D) * t))
    c.close(mod.gf_ret_t(np.array(t), half_bandwidth=D, center=center), want, "transform of dos", rtol=0, atol=1e-11)


def containers(c):
    name = c.choose("lattice", ["bethe", "box"])
    D = c.choose("D", [1.0, 2, 0.37])
    center = c.choose("center", [0, 0.4, -1])
    kind = c.choose("container", ["float", "np.float64", "0d", "2d", "strided", "readonly", "empty", "int scalar", "int array", "center array",
                                  "D array", "complex"])
    gf = getattr(lattice, name).gf_ret_t
    tt = np.array([0.0, 1e-6, 0.3, -0.2, 5.0, 11.0])
    w = np.array([ref(name, t, D, center) for t in tt])
    if kind in ("float", "np.float64", "0d"):
        mk = {"float": float, "np.float64": np.float64, "0d": np.array}[kind]
        got = [gf(mk(t), half_bandwidth=D, center=center) for t in tt]
        for g in got:
            c.equal(np.shape(g), (), "scalar")
        c.close(np.array([complex(g) for g in got]), w, "scalar", rtol=0, atol=1e-12)
    elif kind == "int scalar":
        for t in (-1, 0, 1, 4):
            c.close(complex(gf(t, half_bandwidth=D, center=center)), ref(name, t, D, center), "int", rtol=0, atol=1e-12)
    elif kind == "int array":
        t = np.array([-1, 0, 1, 4])
        c.close(gf(t, half_bandwidth=D, center=center), np.array([ref(name, int(v), D, center) for v in t]), "int array", rtol=0, atol=1e-12)
    elif kind == "center array":
        cen = np.array([0.0, 0.7, -2.0])
        got = gf(tt[:, None], half_bandwidth=D, center=cen)
        c.close(got, np.array([[ref(name, t, D, e) for e in cen] for t in tt]), "center array", rtol=0, atol=1e-12)
    elif kind == "D array":
        Ds = np.array([0.5, 1.0, 3.0])
        got = gf(tt[:, None], half_bandwidth=Ds, center=center)
        c.close(got, np.array([[ref(name, t, d, center) for d in Ds] for t in tt]), "half-bandwidth array", rtol=0, atol=1e-12)
    elif kind == "complex":
        c.close(gf(tt.astype(complex), half_bandwidth=D, center=center), w, "complex typed times", rtol=0, atol=1e-12)
    else:
        if kind == "strided":
            buf = np.zeros(12)
            buf[::2] = tt
            arg = buf[::2]
        else:
            arg = {"2d": tt.reshape(2, 3), "readonly": tt.copy(), "empty": tt[:0]}[kind]
        if kind == "readonly":
            arg.setflags(write=False)
        keep = arg.copy()
        c.close(gf(arg, half_bandwidth=D, center=center), w[:arg.size].reshape(arg.shape), kind, rtol=0, atol=1e-12)
        c.check(np.array_equal(arg, keep), "input kept")


HARNESSES = dict(values=values, dos_transform=dos_transform, containers=containers)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(bcc|bethe|bethez|box|fcc|honeycomb|kagome|lieb|onedim|rectangular|sc|square|triangular)\.gf_ret_t$", units=r"^lattice\..*gf_ret_t$")
