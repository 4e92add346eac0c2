"""C15: extrapolating Laplace transforms (Pade, Hermite-Pade, linear prediction)."""
import itertools

import numpy as np
from gftool import fourier, hermpade
from gftool.hermpade import Hermite2

from .c24_linpred import MODES, AMP

BOUNDS = ("signals: all subsets of 1..3 modes of 6 (damped/undamped) x trapz/simps x grid lengths from the minimum up x time steps x degrees/orders x back-ends and "
          "solvers x retarded/advanced x time offset x batch shapes; reference: closed infinite-time geometric sums; option errors")
ASSUMPTIONS = ["closed form of the infinite quadrature sum for exponentials"]
Z = np.array([0.3 + 0.4j, -1.1 + 0.2j, 2.0 + 1j, 3j, 0.01 + 0.05j])


def infinite_sum(qs, amp, dt, z, quad):
    x = np.multiply.outer(np.exp(1j * z * dt), np.asarray(qs, complex))
    if quad == "trapz":
        w = dt * (1 / (1 - x) - 0.5)
    else:
        w = dt / 3 * ((2 + 4 * x) / (1 - x**2) - 1)
    return np.sum(w * amp, axis=-1)


def setup(c, nmax, pool=range(6)):
    sub = c.choose("modes", [s for r in range(1, nmax + 1) for s in itertools.combinations(pool, r)])
    qs = np.array([MODES[i] for i in sub], complex)
    quad = c.choose("quad", ["trapz", "simps"])
    return qs, AMP[:len(qs)], quad


def direction(c, qs, amp, dt, N):
    """Retarded or advanced data."""
    adv = c.choose("advanced", [False, True])
    k = np.arange(N)
    g = (amp * qs**k[:, None]).sum(-1)
    if adv:
        return -dt * k, g, Z.conj(), -dt
    return dt * k, g, Z, dt


PADE = {"default": {}, "pade": dict(pade=hermpade.pade), "fast": dict(fast=True), "pader": dict(pade=hermpade.pader), "lstsq": dict(pade=hermpade.pade_lstsq),
        "pader rcond": dict(pade=hermpade.pader, rcond=1e-12)}


def pade(c):
    qs, amp, quad = setup(c, c.pick(2, 3))
    need = len(qs) * (1 if quad == "trapz" else 2)
    N = 2 * need + 1 + c.choose("surplus", c.pick([0, 1, 4], [0, 1, 2, 3, 4, 9]))
    dt = c.choose("dt", [0.1, 1.0])
    opt = c.choose("pade", list(PADE))
    c.require(opt != "fast" or N == 2 * need + 1)      # Levinson needs a regular system
    deg = c.choose("degree", [None, -1, 0])
    tt, g, z, sdt = direction(c, qs, amp, dt, N)
    kw = dict(PADE[opt])
    if deg is not None:
        kw["degree"] = deg
    if c.choose("default quad", [False, True]):
        c.require(quad == "trapz")
    else:
        kw["quad"] = quad
    if deg == 0:    # numerator one degree higher: one more coefficient needed
        c.require(N >= 2 * need + 2)
    want = infinite_sum(qs, amp, sdt, z, quad)
    keep = g.copy()
    for f in (lambda: fourier.tt2z_pade(tt, g, z, **kw), lambda: fourier.tt2z(tt, g, z, laplace=fourier.tt2z_pade, **kw)):
        got = f()
        c.check(np.array_equal(g, keep), "input not modified")
        c.close(got / dt, want / dt, "infinite sum", rtol=0, atol=1e-7 * (1 + np.max(abs(want)) / dt))


def pade_args(c):
    """Degrees, coefficients and keywords handed to the Pade solver are the documented ones."""
    N = c.choose("N", range(2, 12))
    degree = c.choose("degree", [-3, -2, -1, 0, 1, 2])
    quad = c.choose("quad", ["trapz", "simps"])
    b = c.choose("batch", [(), (2,), (2, 2)])
    seen = []

    class Res:
        @staticmethod
        def eval(y):
            return np.asarray(y)**2

    def solver(an, num_deg, den_deg, **kw):
        seen.append((np.array(an), num_deg, den_deg, kw))
        return Res
    tt = 0.3 * np.arange(N)
    g = np.exp(1j * np.arange(N * int(np.prod(b, dtype=int))).reshape(*b, N)**1.3)
    got = fourier.tt2z_pade(tt, g, Z, degree=degree, pade=solver, quad=quad, extra=7)
    c.equal(got.shape, (*b, Z.size), "shape")
    c.close(got, np.broadcast_to(np.exp(0.3j * Z)**2, got.shape), "variable exp(i z dt)", rtol=1e-12, atol=1e-13)
    w = np.full(N, 0.3)
    w[0] /= 2
    if quad == "simps":
        w = np.full(N, 0.1)
        w[1::2] *= 4
        w[2::2] *= 2
    c.check(len(seen) >= int(np.prod(b, dtype=int)), "one approximant per function")
    rows = {np.round(r, 9).tobytes() for r in (g * w).reshape(-1, N)}
    for an, m, n, kw in seen:
        c.check(np.round(an, 9).tobytes() in rows or np.any(np.all(np.isclose(an, (g * w).reshape(-1, N), atol=1e-12), axis=-1)), "weighted coefficients")
        c.equal(m - n, degree + 1, "requested difference of the degrees, in terms of the sum")
        c.check(m + n + 1 <= N, "not more than the data")
        c.check(m + n + 2 >= N or n == 0, "all data is used")
        c.equal(kw, {"extra": 7}, "keywords")


def herm2(c):
    qs, amp, quad = setup(c, 2)
    # a function that solves a linear equation solves quadratic ones
    need = len(qs) * (1 if quad == "trapz" else 2)
    N = 3 * need + 2 + c.choose("surplus", c.pick([0, 1], [0, 1, 2, 3]))
    dt = c.choose("dt", [0.1, 1.0])
    h = c.choose("herm2", ["default", "from_taylor"])
    k = np.arange(N)
    g = (amp * qs**k[:, None]).sum(-1)
    kw = {} if h == "default" else dict(herm2=Hermite2.from_taylor)
    if quad == "simps" or h != "default":
        kw["quad"] = quad
    got = fourier.tt2z_herm2(dt * k, g, Z, **kw)
    want = infinite_sum(qs, amp, dt, Z, quad)
    c.close(got / dt, want / dt, "infinite sum", rtol=0, atol=1e-6 * (1 + np.max(abs(want)) / dt))


def herm2_args(c):
    N = c.choose("N", range(2, 15))
    quad = c.choose("quad", ["default", "trapz", "simps"])
    b = c.choose("batch", [(), (2,), (2, 2)])
    amp = c.choose("amplitude", [1.0, 1e4, 1e-9])
    zf = c.choose("size of z", [1.0, 1e-7])
    seen = []

    class Res:
        @staticmethod
        def eval(y):
            return np.asarray(y)**2

    def solver(an, deg_p, deg_q, deg_r, **kw):
        seen.append((np.array(an), (deg_p, deg_q, deg_r), kw))
        return Res
    tt = 0.3 * np.arange(N)
    g = np.exp(1j * np.arange(N * int(np.prod(b, dtype=int))).reshape(*b, N)**1.3)
    got = fourier.tt2z_herm2(tt, amp * g, zf * Z, herm2=solver, extra=7, **({} if quad == "default" else dict(quad=quad)))
    c.equal(got.shape, (*b, Z.size), "shape")
    c.close(got, np.broadcast_to(np.exp(0.3j * zf * Z)**2, got.shape), "variable exp(i z dt)", rtol=1e-12, atol=1e-13)
    c.close((got - 1) / zf, np.broadcast_to(np.expm1(0.6j * zf * Z) / zf, got.shape), "variable exp(i z dt) close to 1", rtol=1e-6, atol=1e-6)
    w = np.full(N, 0.3)
    w[0] /= 2
    if quad == "simps":
        w = np.full(N, 0.1)
        w[1::2] *= 4
        w[2::2] *= 2
    for an, degs, kw in seen:
        c.check(np.any(np.all(np.isclose(np.asarray(an) / amp, (g * w).reshape(-1, N), atol=1e-12), axis=-1)), "weighted coefficients")
        c.check(sum(degs) + 2 <= N, "not more than the data")
        c.check(sum(degs) + 5 > N, "all data is used")
        c.equal(kw, {"extra": 7}, "keywords")


def lpz(c):
    qs, amp, quad = setup(c, c.pick(2, 3))
    need = len(qs) * (1 if quad == "trapz" else 2) + 1     # the first coefficient is weighted differently
    extra = c.choose("order surplus", [0, 1, 2])
    N = 2 * (need + extra) + c.choose("surplus", [0, 1, 4])
    mode = c.choose("order", ["explicit", "default"])
    dt = c.choose("dt", [0.1, 1.0])
    tt, g, z, sdt = direction(c, qs, amp, dt, N)
    kw = {"quad": quad}
    if mode == "explicit":
        kw["order"] = need + extra
    elif quad == "trapz":
        kw = {}
    want = infinite_sum(qs, amp, sdt, z, quad)
    for f in (lambda: fourier.tt2z_lpz(tt, g, z, **kw), lambda: fourier.tt2z(tt, g, z, laplace=fourier.tt2z_lpz, **kw)):
        c.close(f() / dt, want / dt, "infinite sum", rtol=0, atol=1e-7 * (1 + np.max(abs(want)) / dt))


def lpz_long(c):
    """Long grids and high orders: the surplus order must not spoil the result."""
    qs, amp, quad = setup(c, 2)
    N = c.choose("N", c.pick([61, 100], [61, 100, 101, 151]))
    order = c.choose("order", [None, 10, 25, 27, 30])
    adv = c.choose("advanced", [False, True])
    sdt = -0.3 if adv else 0.3
    k = np.arange(N)
    g = (amp * qs**k[:, None]).sum(-1)
    z = Z.conj() if adv else Z
    want = infinite_sum(qs, amp, sdt, z, quad)
    got = fourier.tt2z_lpz(sdt * k, g, z, quad=quad, **({} if order is None else dict(order=order)))
    c.close(got, want, "infinite sum", rtol=0, atol=1e-6 * (1 + np.max(abs(want))))


def pade_long(c):
    """Long grids for the (Hermite-)Pade extrapolation."""
    qs, amp, quad = setup(c, 2)
    N = c.choose("N", c.pick([40, 61], [40, 61, 100, 101]))
    which = c.choose("fct", ["default", "pader", "lstsq"])
    k = np.arange(N)
    g = (amp * qs**k[:, None]).sum(-1)
    want = infinite_sum(qs, amp, 0.3, Z, quad)
    got = fourier.tt2z_pade(0.3 * k, g, Z, quad=quad, **PADE[which])
    c.close(got, want, "infinite sum", rtol=0, atol=1e-6 * (1 + np.max(abs(want))))


def lpz_offset(c):
    """Time grids starting after 0: the integral starts there, too."""
    qs, amp, quad = setup(c, 2)
    t0 = c.choose("first time", [0.3, 1.0, 2.7])
    order = c.choose("order", [None, 5, 6])
    adv = c.choose("advanced", [False, True])
    b = c.choose("batch", [(), (2,)])
    sgn = -1 if adv else 1
    k = np.arange(14)
    g = (amp * qs**k[:, None]).sum(-1)
    z = Z.conj() if adv else Z
    want = np.exp(1j * z * sgn * t0) * infinite_sum(qs, amp, sgn * 0.3, z, quad)
    got = fourier.tt2z(sgn * (t0 + 0.3 * k), np.broadcast_to(g, (*b, 14)), z, laplace=fourier.tt2z_lpz, quad=quad, **({} if order is None else dict(order=order)))
    c.close(got, np.broadcast_to(want, (*b, Z.size)), "infinite sum from tt[0]", rtol=0, atol=1e-7 * (1 + np.max(abs(want))))


def many_modes(c):
    """As many modes as the order/degree permits."""
    n = c.choose("modes", c.pick([8, 15, 35], [4, 8, 12, 15, 20, 28, 35, 48]))
    damp = c.choose("damping", [1.0, 0.995])
    surplus = c.choose("surplus", [0, 1, 6])
    which = c.choose("fct", ["lpz", "lpz default", "pade", "lstsq"])
    k = np.arange(2 * n + 3 + surplus)
    qs = damp * np.exp(2j * np.pi * (np.arange(n) + 0.3) / n)
    amp = np.linspace(1, 2, n)
    g = (amp * qs**k[:, None]).sum(-1)
    want = infinite_sum(qs, amp, 0.3, Z, "trapz")
    if which.startswith("lpz"):
        got = fourier.tt2z_lpz(0.3 * k, g, Z, **({} if "default" in which else dict(order=n + 1)))
    else:
        got = fourier.tt2z_pade(0.3 * k, g, Z, **PADE[dict(pade="default").get(which, which)])
    c.close(got, want, "infinite sum of " + which, rtol=0, atol=1e-6 * (1 + np.max(abs(want))))


def lpz_rcond(c):
    """Keywords reach the prediction: a strong cut-off keeps only the dominating mode."""
    quad = c.choose("quad", ["trapz", "simps"])
    order = c.choose("order", [3, 5])
    N = c.choose("N", [16, 21])
    k = np.arange(N)
    tt = 0.2 * k
    q = 0.97 * np.exp(-0.3j)
    g = q**k + 1e-6 * np.cos(k**2)
    got = fourier.tt2z_lpz(tt, g, Z, order=order, quad=quad, rcond=1e-3)
    ref = infinite_sum([q], np.ones(1), 0.2, Z, quad)
    c.close(got, ref, "noise is cut", rtol=0, atol=2e-2 * np.max(abs(ref)))


def batch(c):
    which = c.choose("fct", ["tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    bg, bz = c.choose("shapes", [((), ()), ((1,), ()), ((3,), ()), ((2, 3), ()), ((3,), (3,)), ((2, 1), (3,)), ((), (2,)), ((3,), (2, 1))])
    quad = c.choose("quad", ["trapz", "simps"])
    lay = c.choose("layout", ["C", "strided"])
    N = 18
    k = np.arange(N)
    n = int(np.prod(bg, dtype=int))
    qs = [np.array([0.9 * np.exp(0.3j * (i + 1)), 0.6 - 0.1j * i]) for i in range(n)]
    g = np.array([(AMP[:2] * q**k[:, None]).sum(-1) for q in qs]).reshape(*bg, N)
    if lay == "strided":
        g = np.repeat(g, 2, axis=-1)[..., ::2]
    z = np.broadcast_to(Z, (*bz, Z.size)) + 0.1 * np.arange(int(np.prod(bz, dtype=int))).reshape(*bz, 1)
    out = np.broadcast_shapes(bg, bz)
    kw = dict(order=7) if which == "tt2z_lpz" else {}
    if which == "tt2z_herm2":
        g = g[..., :14]
        N = 14
    got = getattr(fourier, which)(0.3 * k[:N], g, z, quad=quad, **kw)
    c.equal(got.shape, (*out, Z.size), "shape")
    QI = np.broadcast_to(np.arange(n).reshape(bg), out)
    ZB = np.broadcast_to(z, (*out, Z.size))
    for idx in np.ndindex(*out):
        want = infinite_sum(qs[QI[idx]], AMP[:2], 0.3, ZB[idx], quad)
        c.close(got[idx], want, "batched " + which, rtol=0, atol=1e-7 * (1 + np.max(abs(want))))


def reject(c):
    which = c.choose("fct", ["tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    quad = c.choose("quad", ["unknown", "", "Trapz", "simpson", "lin"])
    via = c.choose("via", ["direct", "tt2z"])
    tt = np.linspace(0, 3, 12)
    g = np.exp(-1j * tt)
    f = getattr(fourier, which)
    c.raises(ValueError, lambda: f(tt, g, Z, quad=quad) if via == "direct" else fourier.tt2z(tt, g, Z, laplace=f, quad=quad), "unknown quadrature")


def physical(c):
    """G(z) of few poles from short grids, to the quadrature error only (no truncation error)."""
    which = c.choose("fct", ["tt2z_pade", "tt2z_lpz", "tt2z_herm2"])
    poles = np.array(c.choose("poles", [[0.0], [0.5], [-0.8, 0.6], [-0.2, 0.1]]))
    dt = c.choose("dt", [0.2, 0.05])
    quad = c.choose("quad", ["trapz", "simps"])
    N = 16
    tt = dt * np.arange(N)
    w = np.linspace(1, 2, poles.size)
    g = -1j * np.sum(w * np.exp(-1j * np.multiply.outer(tt, poles)), axis=-1)
    want = np.sum(w / (Z[:, None] - poles), axis=-1)
    got = getattr(fourier, which)(tt, g, Z, quad=quad, **(dict(order=6) if which == "tt2z_lpz" else {}))
    x = np.max(abs(Z)) + 1
    err = 3 * ((x * dt)**2 / 12 if quad == "trapz" else (x * dt)**4 / 180) + (1e-4 if which == "tt2z_herm2" else 1e-5)
    c.close(got, want, "Green's function", rtol=0, atol=err * np.max(abs(want)))


HARNESSES = dict(pade=pade, pade_args=pade_args, herm2=herm2, herm2_args=herm2_args, lpz=lpz, lpz_long=lpz_long, pade_long=pade_long, lpz_rcond=lpz_rcond, lpz_offset=lpz_offset, many_modes=many_modes, batch=batch, reject=reject, physical=physical)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^fourier\.tt2z(_|\.tt2z_)(pade|herm2|lpz)", units=r"^fourier\.laplace\.", origin=r"^fourier\.laplace\.ext")
