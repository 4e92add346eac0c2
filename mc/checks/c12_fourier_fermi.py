"""C12: Matsubara <-> imaginary time transforms."""
import numpy as np
import gftool as gt
from gftool import fourier
from gftool.basis import PoleGf

BOUNDS = ("back-ends: every grid size N=1..10 (thorough 1..24) / n_tau=2..14 (2..30), the full basis of the input space "
          "(real and imaginary unit vectors), 8 temperatures, 6 batch layouts; 59 larger grids up to N=1025 (thorough 3000); iw2tau/tau2iw: 0..5 moments x 0..5 fitted poles x back-end x beta x batch x "
          "arbitrary pole functions with rigorous truncation bounds")
ASSUMPTIONS = ["direct summation of the documented finite sums; closed integral of the piecewise linear interpolant",
               "truncation bound: |tail of the Matsubara sum|, interpolation bound h^2/8 max|G''|"]
BETA = [1.0, 1, 0.1, 7, 17.3, 100.0, 1e3, 1e-2]


def iws_(n, beta):
    return 1j * np.pi * (2 * np.arange(n) + 1) / beta


def ref_dft(g, beta, j=None):
    """G(tau_j) = 1/beta sum_{n=-N}^{N-1} g_n exp(-i w_n tau_j), tau=linspace(0, beta, 2N+1)."""
    n = g.shape[-1]
    j = np.arange(2 * n + 1) if j is None else j
    ph = np.exp(-1j * np.pi * (((2 * np.arange(n)[:, None] + 1) * j) % (4 * n)) / (2 * n))
    return 2 / beta * np.real(np.sum(g[..., :, None] * ph, axis=-2))


def ref_soft(g, beta, j=None):
    n = g.shape[-1]
    tail = 0.5 * (np.cos(np.pi * np.arange(1, n + 1) / n) + 1)
    j = np.arange(2 * n + 1) if j is None else j
    return ref_dft(np.concatenate((g, tail * g[..., -1:]), axis=-1), beta, 2 * j)


def ref_tau_dft(g, beta):
    n = g.shape[-1]
    h = beta / (n - 1)
    w = np.arange(n // 2)
    ph = np.exp(1j * np.pi * (((2 * w[:, None] + 1) * np.arange(n - 1)) % (2 * (n - 1))) / (n - 1))
    return h * np.sum(g[..., None, :-1] * ph, axis=-1)


def lin_weights(x):
    """int_0^1 exp(x s) ds and int_0^1 s exp(x s) ds, by Gauss-Legendre."""
    s, w = np.polynomial.legendre.leggauss(30)
    s, w = 0.5 * (s + 1), 0.5 * w
    e = w * np.exp(x[:, None] * s)
    return e.sum(-1), (e * s).sum(-1)


def ref_tau_lin(g, beta):
    n = g.shape[-1]
    h = beta / (n - 1)
    k = np.arange(n // 2)
    x = 1j * np.pi * (2 * k + 1) / (n - 1)
    w0, w1 = lin_weights(x)
    ph = np.exp(1j * np.pi * (((2 * k[:, None] + 1) * np.arange(n - 1)) % (2 * (n - 1))) / (n - 1))
    a, b = g[..., None, :-1], g[..., None, 1:]
    return h * (np.sum(ph * a, -1) * (w0 - w1) + np.sum(ph * b, -1) * w1)


IWFT = dict(iw2tau_dft=(fourier.iw2tau_dft, ref_dft), iw2tau_dft_soft=(fourier.iw2tau_dft_soft, ref_soft))
TAUFT = dict(tau2iw_dft=(fourier.tau2iw_dft, ref_tau_dft), tau2iw_ft_lin=(fourier.tau2iw_ft_lin, ref_tau_lin))


def layout(c, g):
    """The batch of vectors g (k, n) in every layout."""
    lay = c.choose("layout", ["single", "stack", "stack3", "fortran", "strided", "readonly", "empty"])
    if lay == "single":
        return [g[i] for i in range(len(g))], lambda out: np.array(out)
    if lay == "empty":
        return [g[:0]], lambda out: out[0]
    if lay == "stack3":
        return [g[:, None, :] * np.array([1.0, -2.0, 0.5])[:, None]], lambda out: out[0][:, 1] / -2
    a = g
    if lay == "fortran":
        a = np.asfortranarray(g)
    elif lay == "strided":
        buf = np.zeros((g.shape[0], 2 * g.shape[1]), g.dtype)
        buf[:, ::2] = g
        a = buf[:, ::2]
    elif lay == "readonly":
        a = g.copy()
        a.setflags(write=False)
    return [a], lambda out: out[0]


def iw_backend(c):
    name = c.choose("fct", list(IWFT))
    n = c.choose("N", range(1, c.pick(10, 24) + 1))
    dtype = c.choose("dtype", ["complex", "real"])
    beta = c.choose("beta", BETA)
    f, ref = IWFT[name]
    g = np.concatenate((np.eye(n), 1j * np.eye(n), [np.cos(1 + np.arange(n)) + 1j * np.sin(np.arange(n)**2)]))
    if dtype == "real":
        g = g.real
    calls, col = layout(c, g)
    got = col([f(a, beta=beta) for a in calls])
    want = ref(g if got.shape[0] else g[:0], beta)
    c.check(np.isrealobj(got), "imaginary time data is real")
    c.close(got * beta, want * beta, name, rtol=0, atol=1e-12 * n)


def tau_backend(c):
    name = c.choose("fct", list(TAUFT))
    n = c.choose("n_tau", range(2, c.pick(14, 30) + 1))
    beta = c.choose("beta", BETA)
    f, ref = TAUFT[name]
    g = np.concatenate((np.eye(n), [np.cos(1 + np.arange(n))]))
    if name == "tau2iw_ft_lin":   # documented precondition: the 1/z tail (jump G(0) + G(beta)) is removed
        g[[0, -2]] = g[0] - g[-2]
        g[-1, -1] = -g[-1, 0]
    calls, col = layout(c, g)
    got = col([f(a, beta=beta) for a in calls])
    c.close(got / beta, ref(g if got.shape[0] else g[:0], beta) / beta, name, rtol=0, atol=1e-12)


# ---------------------------------------------------------------- composite
POLES = {"centre": ([0.0], [1.0]), "sym": ([-0.5, 0.5], [0.5, 0.5]), "asym": ([-0.9, 0.1, 0.7], [0.3, 0.6, 0.1]), "wide": ([-3.0, 2.0], [0.4, 0.6]),
         "neg": ([-1.3, 0.2], [1.5, -0.5]), "norm2": ([0.6, -0.4, 1.1], [1.0, 0.5, 0.5])}


def gf_iw(p, w, n, beta):
    return np.sum(np.array(w) / (iws_(n, beta)[:, None] - np.array(p)), axis=-1)


def gf_tau(p, w, n, beta):
    tau = np.linspace(0, 1, n)[:, None]
    p = np.array(p) * beta
    ex = np.where(p >= 0, -tau * p, (1 - tau) * p)
    return -np.sum(np.array(w) * np.exp(ex) / (1 + np.exp(-abs(p))), axis=-1)


def mom(p, w, m):
    return np.array([np.sum(np.array(w) * np.array(p, float)**k) for k in range(m)])


def iw2tau_exact(c):
    """Functions whose poles are the tail poles are transformed exactly, whatever the back-end does with 0."""
    m = c.choose("n_mom", [1, 2, 3, 4, 5])
    n_fit = c.choose("n_fit", [0, 1, 2, 3, 5])
    c.require(m + n_fit <= 7)   # the weighted fit is too ill-conditioned beyond
    ft = c.choose("fourier", ["default", "dft", "soft", "zero"])
    beta = c.choose("beta", [1.0, 3, 10.0, 50.0])
    n = c.choose("N", [16, 17, 33])
    bt = c.choose("batch", [(), (2,), (2, 3), "moments shared"])
    # moments as container
    poles = PoleGf.from_moments(np.ones(m) if not n_fit else np.eye(1, m + n_fit)[0]).poles
    c.equal(np.shape(poles), (m + n_fit,), "number of poles")
    nb = int(np.prod(bt, dtype=int)) if bt != "moments shared" else 3
    res = np.array([np.cos(0.3 + np.arange(m + n_fit) * (1 + i)) for i in range(nb)])
    if bt == "moments shared":   # second function has the same moments: add a null vector of the moments
        c.require(n_fit > 0)
        V = np.vander(poles, m, increasing=True).T
        null = np.linalg.svd(V)[2][m]
        res = res[0] + np.arange(3)[:, None] * null
    g = np.array([gf_iw(poles, r, n, beta) for r in res])
    t = np.array([gf_tau(poles, r, 2 * n + 1, beta) for r in res])
    mm = np.array([mom(poles, r, m) for r in res])
    if bt == "moments shared":
        mm, bs = mm[0], (3,)
    else:
        bs = bt
        mm = mm.reshape(*bs, m)
    g, t = g.reshape(*bs, n), t.reshape(*bs, 2 * n + 1)
    kw = dict(default={}, dft=dict(fourier=fourier.iw2tau_dft), soft=dict(fourier=fourier.iw2tau_dft_soft),
              zero=dict(fourier=lambda g, beta: np.zeros((*g.shape[:-1], 2 * g.shape[-1] + 1))))[ft]
    fct = c.choose("alias", [gt.fourier.iw2tau])
    keep = g.copy()
    got = fct(g, beta=beta, moments=mm, n_fit=n_fit, **kw)
    c.check(np.array_equal(keep, g), "input not modified")
    scale = 1 + np.max(abs(res))
    c.close(got / scale, t / scale, f"exact on its model class {m}+{n_fit}", rtol=0, atol=1e-10 if not n_fit else (1e-7 if m + n_fit <= 5 else 2e-3))
    if m == 1 and n_fit == 0 and bs == ():
        # default moments (1.,)
        c.close(fct(g / mm[..., 0], beta=beta, **kw), t / mm[..., 0], "default moments", rtol=0, atol=1e-9)
    c.close((got[..., 0] + got[..., -1] + mm[..., 0]) / scale, np.zeros(bs), "jump is -m1", rtol=0, atol=1e-10)


def iw2tau_general(c):
    """Arbitrary pole functions: linear, and within the truncation error of the Matsubara sum."""
    name = c.choose("gf", list(POLES))
    m = c.choose("n_mom", [1, 2, 3, 4])
    beta = c.choose("beta", [1.0, 10.0, 50.0])
    n = c.choose("N", c.pick([128, 513], [64, 128, 513, 1024, 2049]))
    ft = c.choose("fourier", ["default", "dft", "soft"])
    p, w = POLES[name]
    kw = dict(default={}, dft=dict(fourier=fourier.iw2tau_dft), soft=dict(fourier=fourier.iw2tau_dft_soft))[ft]
    g, mm = gf_iw(p, w, n, beta), mom(p, w, m)
    got = fourier.iw2tau(g, beta=beta, moments=mm, **kw)
    want = gf_tau(p, w, 2 * n + 1, beta)
    # remainder: difference to the function with the same m moments; |rem| <= sum_k>m |dm_k| / w^k
    wc = np.pi * (2 * n) / beta
    tp = np.cos(np.pi * (np.arange(m) + 0.5) / m)
    tw = np.linalg.solve(np.vander(tp, m, increasing=True).T, mm)
    r = max(max(abs(np.array(p))), 1.0)
    A = np.sum(abs(np.array(w))) + np.sum(abs(tw))
    c.require(wc > 3 * r)
    # |rem(iw)| <= A r^m / w^(m+1) * 1/(1 - r/w)
    bound = A * r**m / wc**m / np.pi / m * 1.5 * (1 if ft != "soft" else 3)
    bound += 1e-12 * A
    c.close((got - want) / bound, np.zeros(2 * n + 1), "within the truncation error", rtol=0, atol=2.0)
    # linearity
    lin = fourier.iw2tau(2.5 * g, beta=beta, moments=2.5 * mm, **kw)
    c.close(lin, 2.5 * got, "homogeneous", rtol=0, atol=1e-11)
    n_fit = c.choose("n_fit", [1, 2, 4])
    fit = fourier.iw2tau(g, beta=beta, moments=mm, n_fit=n_fit, **kw)
    c.close((fit - want) / (bound + 1e-9), np.zeros(2 * n + 1), "fitting the tail does not deteriorate", rtol=0, atol=20.0)
    c.close(fit[0] + fit[-1], -mm[0], "jump with fit", rtol=0, atol=1e-9)


def tau2iw_exact(c):
    m = c.choose("moments", [None, 1, 2, 3, 4])
    n_pole = c.choose("n_pole", [None, 1, 2, 3, 5])
    ft = c.choose("fourier", ["default", "dft", "lin", "zero"])
    beta = c.choose("beta", [1.0, 3, 10.0])
    n = c.choose("n_tau", [40, 41, 64])
    bt = c.choose("batch", [(), (2,), (2, 3)])
    nm = 1 if m is None else m
    npole = nm if n_pole is None else n_pole
    c.require(npole >= nm)
    poles = PoleGf.from_moments(np.eye(1, npole)[0]).poles
    nb = int(np.prod(bt, dtype=int))
    res = np.array([np.cos(0.3 + np.arange(npole) * (1 + i)) for i in range(nb)])
    g = np.array([gf_tau(poles, r, n, beta) for r in res]).reshape(*bt, n)
    mm = np.array([mom(poles, r, nm) for r in res]).reshape(*bt, nm)
    kw = dict(default={}, dft=dict(fourier=fourier.tau2iw_dft), lin=dict(fourier=fourier.tau2iw_ft_lin),
              zero=dict(fourier=lambda g, beta: np.zeros((*g.shape[:-1], g.shape[-1] // 2), dtype=complex)))[ft]
    if n_pole is not None:
        kw["n_pole"] = n_pole
    if m is not None:
        kw["moments"] = mm
    keep = g.copy()
    got = fourier.tau2iw(g, beta=beta, **kw)
    c.check(np.array_equal(keep, g), "input not modified")
    want = np.array([gf_iw(poles, r, n // 2, beta) for r in res]).reshape(*bt, n // 2)
    c.close(got / beta, want / beta, "exact on its model class", rtol=0, atol=1e-8)


def tau2iw_general(c):
    name = c.choose("gf", list(POLES))
    m = c.choose("moments", [None, 1, 2, 3])
    n_pole = c.choose("n_pole", [None, 2, 5])
    beta = c.choose("beta", [1e-7, 1.0, 5.0, 20.0, 150.0])
    n = c.choose("n_tau", c.pick([65, 128, 1025], [65, 128, 513, 1025, 2048, 4097]))
    ft = c.choose("fourier", ["default", "lin", "dft"])
    c.require(n_pole is None or m is None or n_pole >= m)
    p, w = POLES[name]
    g = gf_tau(p, w, n, beta)
    kw = dict(default={}, lin=dict(fourier=fourier.tau2iw_ft_lin), dft=dict(fourier=fourier.tau2iw_dft))[ft]
    if m is not None:
        kw["moments"] = mom(p, w, m)
    if n_pole is not None:
        kw["n_pole"] = n_pole
    got = fourier.tau2iw(g, beta=beta, **kw)
    want = gf_iw(p, w, n // 2, beta)
    h = beta / (n - 1)
    r = max(max(abs(np.array(p))), 1.0)
    # residues of the LSQ tail are bounded for these functions: factor 10
    A = np.sum(abs(np.array(w))) * 10
    if ft == "dft":
        # left Riemann sum; the end points of the remainder cancel (its jump is 0), aliasing of 1/w^2
        bound = A * (r * beta) * h
    else:
        bound = A * beta * h**2 / 8 * r**2
    c.close((got - want) / (bound + 1e-12), np.zeros(n // 2), "within the interpolation error", rtol=0, atol=1.0)
    for x in (-1.5, 500.0, 1e-8):
        lin = fourier.tau2iw(x * g, beta=beta, **{**kw, **({"moments": x * kw["moments"]} if m else {})})
        c.close(lin / x, got, "homogeneous", rtol=0, atol=1e-9 * beta)


def round_trip(c):
    """tau2iw(iw2tau(g)) = g with the back-ends that are exact discrete inverses on low frequencies."""
    name = c.choose("gf", list(POLES))
    beta = c.choose("beta", [1.0, 5.0, 20.0])
    n = c.choose("N", [100, 257])
    bt = c.choose("batch", [(), (1,), (2, 2)])
    p, w = POLES[name]
    sc = np.ones(bt) + np.arange(int(np.prod(bt, dtype=int))).reshape(bt)
    g = sc[..., None] * gf_iw(p, w, n, beta)
    mm = sc[..., None] * mom(p, w, 3)
    tau = fourier.iw2tau(g, beta=beta, moments=mm)
    back = fourier.tau2iw(tau, beta=beta, moments=mm, n_pole=3)
    c.equal(back.shape, (*bt, n), "shape")
    c.close(back[..., :20] / beta, g[..., :20] / beta, "round trip", rtol=0, atol=1e-2)


SIZES = [*range(15, 41), 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 601, 1000, 1001, 1024, 1025]


def large(c):
    """Every back-end on long grids, dense data without any smoothness."""
    name = c.choose("fct", [*IWFT, *TAUFT])
    n = c.choose("N", c.pick(SIZES, SIZES + [*range(41, 63), 150, 1500, 2000, 2048, 2049, 3000]))
    cplx = c.choose("data", ["complex", "imaginary", "real"] if name in IWFT else ["real"])
    beta = 12.5
    f, ref = {**IWFT, **TAUFT}[name]
    i = np.arange(n)
    g = np.cos(0.3 * i * i + i) + (1j * np.sin(0.7 * i * i) if name in IWFT else 0)
    if cplx != "complex":
        g = g.real if cplx == "real" else 1j * g.real
    if name == "tau2iw_ft_lin":
        g[-1] = -g[0]
    sel = slice(None)
    if name in IWFT:
        if n > 64:      # reference is quadratic: all residues of the last bits, the edges and the centre
            sel = np.unique(np.r_[:9, n - 4:n + 5, 2 * n - 8:2 * n + 1, np.arange(0, 2 * n + 1, max(n // 16, 1))])
        want = ref(g, beta, np.arange(2 * n + 1)[sel])
    else:
        want = ref(g, beta)
    got = f(g, beta=beta)
    c.equal(got.shape, (2 * n + 1 if name in IWFT else n // 2,), "size")
    c.close(got[sel], want, name, rtol=0, atol=1e-12 * n)
    two = f(np.stack([g, -3 * g]), beta=beta)
    c.close(two, np.stack([got, -3 * got]), name + " batch", rtol=0, atol=3e-12 * n)


HARNESSES = dict(large=large, iw_backend=iw_backend, tau_backend=tau_backend, iw2tau_exact=iw2tau_exact, iw2tau_general=iw2tau_general,
                 tau2iw_exact=tau2iw_exact, tau2iw_general=tau2iw_general, round_trip=round_trip)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^fourier\.(iw2tau|tau2iw)", units=r"^fourier\.(iw2tau|tau2iw)$")
