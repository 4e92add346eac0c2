"""C08: Fermi and Bose functions."""
import numpy as np
from mpmath import mp, mpc, mpf

import gftool as gt

BOUNDS = ("beta*eps on a signed log grid 1e-300..1e308 with all integers -800..800 step 7 and the neighbourhood of 700-746; 12 beta "
          "values of either sign; complex arguments in 5 strips; dtypes int/float/longdouble/float32/complex; containers; beta arrays")
ASSUMPTIONS = ["60-digit mpmath reference evaluated at the exact product of the doubles"]
BETA = [1.0, 1, 0.1, 10, 3, 137.0, 1e-3, 1e4, -1.0, -2, -0.3]
GRID = np.r_[0.0, 10.0**np.arange(-300, 1, 25), 10.0**np.arange(-16, 3.1, 0.5), np.arange(1, 800, 7), 690, 699, 699.99, 700, 700.01, 701,
             708, 709.7, 709.79, 710, 720, 740, 744, 745, 745.2, 746, 747, 800, 1e3, 1e4, 1e6, 1e10, 1e100]
GRID = np.r_[GRID, -GRID[1:]]


def _fermi(x):
    with mp.workdps(60):
        x = mpf(float(x))
        if x > 5000:
            return 0.0
        if x < -5000:
            return 1.0
        return float(1 / (mp.exp(x) + 1))


def _bose(x):
    with mp.workdps(60):
        x = mpf(float(x))
        if x == 0:
            return np.inf
        if x > 5000:
            return 0.0
        if x < -5000:
            return -1.0
        return float(1 / mp.expm1(x))


REF = {"fermi": _fermi, "bose": _bose}
FCT = {"fermi": gt.fermi_fct, "bose": gt.bose_fct}
FREF = {k: {float(x): fct(x) for x in GRID} for k, fct in REF.items()}


def real(c):
    fct = c.choose("fct", ["fermi", "bose"])
    beta = c.choose("beta", BETA)
    kind = c.choose("container", ["array", "scalar", "0d", "2d", "np.float64", "readonly", "strided"])
    eps = GRID / beta
    prod = eps * float(beta)
    want = np.array([FREF[fct].get(float(x), None) if float(x) in FREF[fct] else REF[fct](x) for x in prod])
    f = FCT[fct]
    if kind in ("scalar", "0d", "np.float64"):
        mk = dict(scalar=float)
        mk["0d"], mk["np.float64"] = np.array, np.float64
        got = [f(mk[kind](e), beta=beta) for e in eps]
        for g in got:
            c.check(np.shape(g) == (), "scalar in, scalar out")
        got = np.array([float(g) for g in got])
    else:
        arg = eps
        if kind == "2d":
            arg = eps[:200].reshape(8, 25)
            want = want[:200].reshape(8, 25)
        elif kind == "readonly":
            arg = eps.copy()
            arg.setflags(write=False)
        elif kind == "strided":
            buf = np.zeros(2 * eps.size)
            buf[::2] = eps
            arg = buf[::2]
        keep = arg.copy()
        got = f(arg, beta=beta)
        c.check(np.array_equal(arg, keep), "input kept")
    # relative precision; the conditioning |x| of exp(x) costs |x| ulp
    tol = 2e-14 * np.abs(want) * (1 + np.minimum(abs(GRID if kind != "2d" else GRID[:200].reshape(8, 25)), 1e3) * 1e-1) + 1e-307
    if fct == "bose":
        inf = np.isinf(want)
        c.check(np.all(np.isinf(got[inf])), "divergence at 0")
        got, want, tol = got[~inf], want[~inf], tol[~inf]
    c.check(np.all(np.isfinite(got)), "no overflow")
    c.close((got - want) / tol, np.zeros(got.shape), f"{fct} function", rtol=0, atol=1.0)


def symmetry(c):
    beta = c.choose("beta", BETA)
    eps = GRID / beta
    c.close(gt.fermi_fct(eps, beta=beta) + gt.fermi_fct(-eps, beta=beta), np.ones(eps.shape), "f(e)+f(-e)=1", rtol=0, atol=1e-14)
    nz = eps[abs(GRID) > 1e-290]
    b = gt.bose_fct(nz, beta=beta)
    c.close((b + gt.bose_fct(-nz, beta=beta) + 1) / (1 + abs(b)), np.zeros(nz.shape), "b(e)+b(-e)=-1", rtol=0, atol=1e-13)
    f = gt.fermi_fct(np.sort(GRID) / abs(beta), beta=abs(beta))
    c.check(np.all(np.diff(f) <= 0), "Fermi function decreases monotonically")
    c.check(np.all((f >= 0) & (f <= 1)), "0 <= f <= 1")


def inverse(c):
    beta = c.choose("beta", BETA)
    x = np.r_[np.linspace(-30, 30, 61), 100, 300, 700, -36]
    eps = x / beta
    f = gt.fermi_fct(eps, beta=beta)
    inv = gt.fermi_fct_inv(f, beta=beta)
    tol = 1e-12 + 8e-15 * np.exp(np.maximum(-x, 0)) / np.maximum(abs(x), 1)
    c.close((inv - eps) * abs(beta) / (1 + abs(x)) / tol, np.zeros(x.size), "fermi_fct_inv(fermi_fct(eps)) = eps", rtol=0, atol=1.0)
    fs = np.array([1e-300, 1e-20, 1e-3, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, 1 - 1e-12])
    c.close(gt.fermi_fct(gt.fermi_fct_inv(fs, beta=beta), beta=beta), fs, "fermi_fct(fermi_fct_inv(f)) = f", rtol=1e-10, atol=0)
    c.close(float(gt.fermi_fct_inv(0.25, beta=beta)), np.log(3) / beta, "scalar", rtol=1e-13, atol=0)


def cplx(c):
    fct = c.choose("fct", ["fermi", "bose"])
    beta = c.choose("beta", BETA)
    im = c.choose("im", [0.0, 0.1, 1.0, -1.0, 2.5, -2.9, 4.0, 9.0, -40.0])
    kind = c.choose("container", ["array", "scalar", "2d"])
    re = np.array([0.0, 1e-6, 0.3, -0.3, 1.0, -1.0, 5.0, -5.0, 30.0, -30.0, 300.0, -300.0, 699.0, 701.0, 760.0, -760.0, 1e4, -1e4, 1e6, -1e6, 0.7, -2.2])
    z = (re + 1j * im) / beta
    # exact pole (fermi: none of these; bose: 0)
    if fct == "bose" and im == 0:
        z, re = z[1:-1], re[1:-1]
    prod = z * float(beta)
    want = []
    for x in prod:
        with mp.workdps(60):
            x = mpc(complex(x))
            if x.real > 5000:
                want.append(0j)
            elif x.real < -5000:
                want.append(1 + 0j if fct == "fermi" else -1 + 0j)
            else:
                want.append(complex(1 / (mp.exp(x) + 1) if fct == "fermi" else 1 / (mp.exp(x) - 1)))
    want = np.array(want)
    f = FCT[fct]
    if kind == "scalar":
        got = np.array([complex(f(complex(v), beta=beta)) for v in z])
    elif kind == "2d":
        got = f(z.reshape(2, -1), beta=beta).ravel()
    else:
        got = f(z, beta=beta)
    c.check(np.all(np.isfinite(got)), "finite", got=got)
    c.close(got, want, f"{fct} function of complex argument", rtol=2e-12 * (1 + np.min([abs(re), 0 * re + 1e3], axis=0) / 50), atol=1e-300)


def dtypes(c):
    fct = c.choose("fct", ["fermi", "bose"])
    beta = c.choose("beta", [1, 2, 1.0, 0.5, 3])
    dt = c.choose("dtype", ["int", "np.int64", "int64[]", "int32[]", "float32[]", "longdouble[]", "complex[]", "longdouble"])
    xs = np.array([-9, -3, -2, -1, 1, 2, 3, 9, 40])
    want = np.array([REF[fct](float(x) * beta) for x in xs])
    f = FCT[fct]
    tol = 2e-6 if "32[]" in dt and "int" not in dt else 1e-13
    if dt in ("int", "np.int64", "longdouble"):
        mk = {"int": int, "np.int64": np.int64, "longdouble": np.longdouble}[dt]
        got = np.array([float(f(mk(x), beta=beta)) for x in xs])
    else:
        got = f(xs.astype(dt[:-2]), beta=beta)
    c.close(got, want, f"{fct} of {dt}", rtol=tol, atol=1e-36 if "float32" in dt else 0)
    zero = FCT[fct](0, beta=beta)
    c.check(float(zero) == (0.5 if fct == "fermi" else np.inf), "value at integer 0", got=zero)


def beta_array(c):
    fct = c.choose("fct", ["fermi", "bose"])
    shape = c.choose("shape", [((3,), ()), ((), (3,)), ((3,), (3,)), ((4, 1), (3,)), ((2, 1, 3), (4, 1)), ((0,), ()), ((1,), (2,))])
    eps = np.linspace(-2.1, 3.3, int(np.prod(shape[0]))).reshape(shape[0])
    beta = np.linspace(0.3, 7, int(np.prod(shape[1]))).reshape(shape[1])
    want = np.vectorize(REF[fct], otypes=[float])(eps * beta)
    c.close(FCT[fct](eps, beta=beta), want, "beta array", rtol=1e-12, atol=0)


def deriv(c):
    """f'(eps) = -beta f (1-f): relative precision where 1-f is representable, else relative to beta."""
    beta = c.choose("beta", BETA)
    kind = c.choose("container", ["array", "scalar", "2d", "int"])
    x = np.r_[0.0, 10.0**np.arange(-300, 1, 25), 10.0**np.arange(-10, 1, 1.0), np.arange(1, 80), 100, 300, 600, 700, 800, 1e4, 1e10]
    x = np.r_[x, -x[1:]]
    if kind == "int":
        x = beta * np.arange(-30, 31)
    eps = x / beta
    if kind == "int":
        eps = np.arange(-30, 31)
    prod = eps * float(beta)
    want = []
    for v in prod:
        with mp.workdps(60):
            want.append(float(-mpf(float(beta)) / (2 * mp.cosh(mpf(min(abs(v), 1e4)) / 2))**2))
    want = np.array(want)
    if kind == "scalar":
        got = np.array([float(gt.fermi_fct_d1(float(e), beta=beta)) for e in eps])
    elif kind == "2d":
        got = gt.fermi_fct_d1(np.stack([eps, eps]), beta=beta)[1]
    else:
        got = gt.fermi_fct_d1(eps, beta=beta)
    c.close(got, want, "derivative", rtol=1e-13 * (1 + np.minimum(abs(prod), 1e3)), atol=np.where(prod > 0, 1e-305, 2e-15) * abs(beta))
    c.check(np.all(got * np.sign(beta) <= 0), "never positive")


def flags(c):
    """No overflow (or invalid operation) occurs, not even one that is masked afterwards."""
    name = c.choose("fct", ["fermi", "bose", "d1"])
    beta = c.choose("beta", BETA)
    kind = c.choose("type", ["real", "complex"])
    c.require(name != "d1" or (beta > 0 and kind == "real"))
    x = GRID[abs(GRID) > 1e-290]
    x = np.r_[x, 709.9, -709.9, 709.85, 710.4, -745.1]
    f = {"fermi": gt.fermi_fct, "bose": gt.bose_fct, "d1": gt.fermi_fct_d1}[name]
    with np.errstate(over="raise", invalid="raise"):
        for k in range(x.size):
            e = x[k:k + 1] / beta
            try:
                f(e if kind == "real" else e + 0.3j / beta, beta=beta)
            except FloatingPointError as err:
                c.fail("overflow", x=x[k], error=str(err))
                return


HARNESSES = dict(flags=flags, deriv=deriv, real=real, symmetry=symmetry, inverse=inverse, cplx=cplx, dtypes=dtypes, beta_array=beta_array)
for _h in (real, cplx):
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^statistics\.(fermi|bose)", units=r"^statistics\.fermi$")
