"""C16: transforms between Pade frequencies and imaginary time."""
import numpy as np
import gftool as gt
from gftool import fourier

from .c12_fourier_fermi import gf_tau, mom

BOUNDS = ("all sets of 1..2 poles of a 5-point (thorough: 1..3 of a 9-point) energy grid x weight patterns x beta x number of Pade frequencies x number of moments x occ/weights; "
          "both directions")
ASSUMPTIONS = ["accuracy bound of the pole fit calibrated on the unchanged tree over the enumerated inputs (a factor >= 20 above the largest error)"]
GRID = [-1.0, -0.75, -0.5, -0.2, 0.0, 0.2, 0.5, 0.75, 1.0]
QUICK = [0, 3, 4, 6, 8]
WP = {"equal": [1.0, 1.0, 1.0, 1.0], "mixed": [0.2, 1.0, 0.5, 0.7], "skew": [3.0, 0.1, 0.4, 1.0]}


def acc(beta, nz):
    """Accuracy of the pole fit (even numbers of poles have none at 0 and fit worse)."""
    return 2e-2 if beta > 10 and nz < 19 else 1e-5


def functions(c, nmax):
    n = c.choose("n_pole", range(1, nmax + 1))
    idx, lo = [], 0
    for k in range(n):
        i = c.choose(f"pole{k}", [j for j in c.pick(QUICK, range(len(GRID))) if j >= lo])
        lo = i + 1
        idx.append(i)
    w = np.array(WP[c.choose("weights", c.pick(["skew"], ["mixed", "skew"]) if n > 1 else ["equal"])])[:n]
    norm = c.choose("norm", [1.0, 2.5] if n == 1 else [1.0])
    return np.array([GRID[i] for i in idx]), norm * w / w.sum()


def izp2tau(c):
    p, w = functions(c, c.pick(2, 3))
    beta = c.choose("beta", [5.0, 20])
    nz = c.choose("N_izp", c.pick([9, 12, 25], [9, 12, 19, 25]))
    m = c.choose("n_mom", [1, 2, 3])
    izp, __ = gt.pade_frequencies(nz, beta=beta)
    g = np.sum(w / (izp[:, None] - p), axis=-1)
    tau = np.linspace(0, beta, 21)
    got = fourier.izp2tau(izp, g, tau, beta=beta, moments=mom(p, w, m))
    want = gf_tau(p, w, 21, beta)
    c.check(np.isrealobj(got), "real")
    c.close(got, want, "G(tau)", rtol=0, atol=acc(beta, nz))
    c.close(got[0] + got[-1], -w.sum(), "jump", rtol=0, atol=1e-8)
    if m == 1 and w.sum() == 1:
        c.close(fourier.izp2tau(izp, g, tau, beta=beta), want, "default moment", rtol=0, atol=acc(beta, nz))
    c.close(fourier.izp2tau(izp, g, tau[3:4], beta=beta, moments=mom(p, w, m)), want[3:4], "single time", rtol=0, atol=acc(beta, nz))


def tau2izp(c):
    p, w = functions(c, c.pick(2, 3))
    beta = c.choose("beta", [5.0, 20])
    nz = c.choose("N_izp", c.pick([9, 12, 25], [9, 12, 19, 25]))
    m = c.choose("moments", [None, 1, 3])
    opt = c.choose("options", ["none", "occ", "weight"])
    c.require(c.thorough or (m, opt) in [(None, "none"), (None, "occ"), (1, "weight"), (3, "none"), (1, "occ")])
    izp, __ = gt.pade_frequencies(nz, beta=beta)
    g = gf_tau(p, w, 301, beta)
    kw = {}
    if m is not None:
        kw["moments"] = mom(p, w, m)
    if opt == "occ":
        kw["occ"] = -g[-1]
    elif opt == "weight":
        kw["weight"] = 1 + 0.5 * np.cos(np.arange(301))
    got = fourier.tau2izp(g, beta, izp, **kw)
    want = np.sum(w / (izp[:, None] - p), axis=-1)
    c.close(got, want, "G(izp)", rtol=0, atol=acc(beta, nz))
    # high frequencies: the first moment is exact
    far = fourier.tau2izp(g, beta, np.r_[izp, 1e6j], **kw)
    c.close(far[-1] * 1e6j, w.sum(), "first moment", rtol=0, atol=1e-3)


def constraints(c):
    """Values given by the caller are satisfied by the result, even where they disagree with the fitted data."""
    fct = c.choose("fct", ["tau2izp", "izp2tau"])
    p, w = c.choose("function", {"two": ([-0.5, 0.2], [0.4, 0.6]), "one": ([0.5], [1.0]), "low": ([-1.0, 0.0], [0.9, 0.1]), "high": ([0.2, 0.75], [1.0, 0.5])})
    p, w = np.array(p), np.array(w)
    beta = c.choose("beta", [5.0, 20.0])
    nz = c.choose("N_izp", [12, 25])
    m = c.choose("n_mom", [None, 1, 2, 3])
    what = c.choose("off", ["nothing", "occ", "m0", "m1", "m2"])
    izp, rp = gt.pade_frequencies(nz, beta=beta)
    c.require(not what.startswith("m") or (m is not None and int(what[1]) < m))
    moments = mom(p, w, m or 1)
    if what.startswith("m"):
        moments = moments + 0.05 * np.eye(m)[int(what[1])]
    kw = {} if m is None else dict(moments=moments)
    if fct == "tau2izp":
        g = gf_tau(p, w, 301, beta)
        occ = -g[-1] + 0.03 * (what == "occ")
        with_occ = what == "occ" or c.choose("occ", [False, True])
        if with_occ:
            kw["occ"] = occ
        got = fourier.tau2izp(g, beta, izp, **kw)
        if with_occ:
            c.close(gt.density_iw(izp, got, beta, weights=rp, moments=moments[:1]), occ, "prescribed occupation", rtol=0, atol=2e-3)
        if what == "occ":
            return
        z = 1j * np.array([1e3, 2e3, 4e3])
        tail = fourier.tau2izp(g, beta, np.r_[izp, z], **kw)[nz:]
        c.close((tail * z).real, moments[0] + np.zeros(3), "prescribed 1/z moment", rtol=0, atol=2e-3 if what == "nothing" else 0.01)
        if moments.size > 1 and what in ("nothing", "m1"):
            c.close((z * (tail * z - moments[0])).real[:2], moments[1] + np.zeros(2), "prescribed 1/z^2 moment", rtol=0, atol=2e-3 if what == "nothing" else 0.01)
        if moments.size > 2 and what in ("nothing", "m2"):
            zz = 1j * np.array([300.0, 600.0])
            tail = fourier.tau2izp(g, beta, np.r_[izp, zz], **kw)[nz:]
            c.close((zz**2 * (tail * zz - moments[0])).real, moments[2] + np.zeros(2), "prescribed 1/z^3 moment", rtol=0, atol=3e-3 if what == "nothing" else 0.04)
        return
    c.require(what != "occ" and (m is not None or w.sum() == 1))
    g = np.sum(w / (izp[:, None] - p), axis=-1)
    h = 3e-4
    tau = np.r_[0, h, 2 * h, beta - 2 * h, beta - h, beta]
    got = fourier.izp2tau(izp, g, tau, beta=beta, **kw)
    a, b = got[:3], got[3:]
    c.close(a[0] + b[2], -moments[0], "prescribed 1/z moment", rtol=0, atol=1e-6)
    if what == "m0":   # contradictory data: broad pole distributions, no finite differences
        return
    if moments.size > 1:
        d1 = (-1.5 * a[0] + 2 * a[1] - 0.5 * a[2]) / h + (1.5 * b[2] - 2 * b[1] + 0.5 * b[0]) / h
        c.close(d1, moments[1], "prescribed 1/z^2 moment", rtol=0, atol=2e-3)
    if moments.size > 2 and what in ("nothing", "m2"):
        d2 = (a[0] - 2 * a[1] + a[2] + b[0] - 2 * b[1] + b[2]) / h**2
        c.close(d2, -moments[2], "prescribed 1/z^3 moment", rtol=0, atol=1e-2)


def weights(c):
    """Corrupted points of G(tau) with vanishing weight do not matter."""
    p, w = c.choose("function", {"two": ([-0.5, 0.2], [0.4, 0.6]), "one": ([0.5], [1.0]), "low": ([-1.0, 0.0], [0.9, 0.1]), "high": ([0.2, 0.75], [1.0, 0.5])})
    p, w = np.array(p), np.array(w)
    beta = c.choose("beta", [5.0, 20.0])
    nz = c.choose("N_izp", [19, 25])
    bad = c.choose("corrupted", {"one": [77], "three": [3, 150, 297], "range": range(200, 230)})
    m = c.choose("moments", [None, 1, 3])
    izp, __ = gt.pade_frequencies(nz, beta=beta)
    g = gf_tau(p, w, 301, beta)
    weight = np.ones(301)
    weight[list(bad)] = 1e-7
    g[list(bad)] += 0.3
    kw = {} if m is None else dict(moments=mom(p, w, m))
    want = np.sum(w / (izp[:, None] - p), axis=-1)
    with_ = np.max(abs(fourier.tau2izp(g, beta, izp, weight=weight, **kw) - want))
    without = np.max(abs(fourier.tau2izp(g, beta, izp, **kw) - want))
    # the pole-spread is chosen for all data, therefore the error does not vanish
    c.check(with_ < without / 3 and with_ < 0.03, "points without weight are ignored", got=with_, without=without)


def scales(c):
    """Amplitude, temperature, and number and size of the points at which the result is wanted."""
    fct = c.choose("fct", ["izp2tau", "tau2izp"])
    p, w = c.choose("function", {"two": ([-0.5, 0.2], [0.4, 0.6]), "high": ([0.2, 0.75], [1.0, 0.5])})
    p, w = np.array(p), np.array(w)
    beta = c.choose("beta", [1.0, 5.0, 20.0, 80.0])
    amp = c.choose("amplitude", [1.0, 400.0, 1e-3, 1e-9])
    m = c.choose("n_mom", c.pick([1], [1, 3]))
    nz = 45
    izp, __ = gt.pade_frequencies(nz, beta=beta)
    moments = amp * mom(p, w, m)
    if fct == "izp2tau":
        tau = np.r_[0, beta * 10.0 ** np.arange(-9, -1), np.linspace(0, beta, 202)[1:]]
        got = fourier.izp2tau(izp, amp * np.sum(w / (izp[:, None] - p), axis=-1), tau, beta=beta, moments=moments)
        want = -np.sum(w / (1 + np.exp(-beta * p)) * np.exp(-tau[:, None] * p), axis=-1)
    else:
        z = np.r_[izp, 1j * np.linspace(20, 500, 60), 1e4j, 1e7j]
        got = fourier.tau2izp(amp * gf_tau(p, w, 401, beta), beta, z, moments=moments) * z
        want = np.sum(w / (z[:, None] - p), axis=-1) * z
    c.close(got / amp, want, "scaled function", rtol=0, atol=1e-6)


HARNESSES = dict(izp2tau=izp2tau, tau2izp=tau2izp, constraints=constraints, weights=weights, scales=scales)
for _h in HARNESSES.values():
    _h.shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^fourier\.(izp2tau|tau2izp)")
