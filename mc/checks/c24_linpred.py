"""C24: linear prediction."""
import itertools
import warnings

import numpy as np
from gftool import linearprediction as lp

BOUNDS = ("signals: all subsets of 1..4 (thorough 1..5) of 8 modes (damped, undamped, growing, real, complex) x amplitudes x every order from the number of modes "
          "to N//2 x lengths x steps 0..25 x batches; companion: all coefficient vectors over a small alphabet; Burg: every order on 6 signals; orders up to 250, signals up to 1000")
ASSUMPTIONS = ["sum of exponentials evaluated directly"]
MODES = [0.9, -0.8, 1.0, np.exp(0.5j), 0.7 * np.exp(-1.1j), 0.95j, 1.05, 1.02 * np.exp(-0.9j)]
AMP = np.array([1.0, -0.6, 0.8 + 0.5j, 1.2j, 0.7, -0.4j])


def signal(qs, n, amp=AMP):
    k = np.arange(n)
    return sum(a * np.asarray(q, complex)**k for a, q in zip(amp, qs))


def subsets(nmax, grow=True):
    modes = range(len(MODES) if grow else 6)
    return [s for r in range(1, nmax + 1) for s in itertools.combinations(modes, r)]


def covar(c):
    sub = c.choose("modes", subsets(c.pick(3, 4)))
    n = len(sub)
    order = n + c.choose("surplus order", [0, 1, 3])
    N = 2 * order + c.choose("surplus data", [0, 1, 7])
    real = c.choose("dtype", ["complex", "real"])
    qs = [MODES[i] for i in sub]
    if real == "real":
        c.require(all(np.isreal(q) for q in qs))
    full = signal(qs, N + 20, AMP if real == "complex" else AMP.real + 0.3)
    if real == "real":
        full = full.real
    x = full[:N]
    a, err = lp.pcoeff_covar(x, order=order)
    c.equal(a.shape, (order,), "shape")
    c.equal(np.shape(err), (), "shape of the error")
    # the recurrence holds: vanishing residual at every data point
    res = np.array([x[k] + sum(a[j] * x[k - 1 - j] for j in range(order)) for k in range(order, N)])
    c.close(res, np.zeros(N - order), "recurrence", rtol=0, atol=1e-9)
    c.close(err, 0.0, "vanishing error", rtol=0, atol=1e-9)
    if order == n:
        c.close(np.r_[1, a], np.poly(qs), "coefficients are those of the characteristic polynomial", rtol=0, atol=1e-6)
    for num in (0, 1, 2, 20):
        got = lp.predict(x, a, num=num)
        c.equal(got.shape, (N + num,), "length")
        c.close(got[:N], x, "data is kept", rtol=0, atol=0)
        c.close(got[N:], full[N:N + num], "signal is continued", rtol=0, atol=2e-5 * (1 + max(abs(full))))
    if all(abs(q) < 0.9999 for q in qs) and order == n:
        got = lp.predict(x, a, num=20, stable=True)
        c.close(got, full, "stable prediction of a damped signal", rtol=0, atol=2e-5 * (1 + max(abs(full))))


def lsq(c):
    """For data without recurrence, covar is the least-squares minimum and its norm is reported."""
    N = c.choose("N", range(2, c.pick(9, 14)))
    order = c.choose("order", range(1, 8))
    kind = c.choose("data", ["real", "complex", "alternating"])
    c.require(order < N)
    k = np.arange(N)
    x = dict(real=np.cos(k**2 + 0.3), complex=np.exp(1j * k**1.5) + 0.2 * np.sin(k**2), alternating=(-1.0)**k * (1 + 0.1 * np.cos(k**2)))[kind]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, err = lp.pcoeff_covar(x, order=order)
    X = np.array([[x[i - 1 - j] for j in range(order)] for i in range(order, N)])
    y = x[order:]
    c.close(X.conj().T @ (y + X @ a), np.zeros(order), "normal equations", rtol=0, atol=1e-9)
    c.close(err, np.linalg.norm(y + X @ a), "error is the norm of the residual", rtol=0, atol=1e-11)
    c.close(a, -np.linalg.pinv(X) @ y, "minimum norm solution", rtol=0, atol=1e-6)


def rcond(c):
    """Singular values below rcond are dropped."""
    N = c.choose("N", [8, 12])
    order = c.choose("order", [2, 3, 4])
    rc = c.choose("rcond", [1e-3, 0.1, 0.5])
    k = np.arange(N)
    x = 0.9**k + 1e-2 * np.cos(k**2)
    X = np.array([[x[i - 1 - j] for j in range(order)] for i in range(order, N)])
    u, s, vh = np.linalg.svd(X, full_matrices=False)
    keep = s > rc * s[0]
    want = -vh[keep].conj().T @ ((u[:, keep].conj().T @ x[order:]) / s[keep])
    a, err = lp.pcoeff_covar(x, order=order, rcond=rc)
    c.close(a, want, "truncated solution", rtol=0, atol=1e-10)
    c.close(err, np.linalg.norm(x[order:] + X @ a), "error", rtol=0, atol=1e-12)


def predict_steps(c):
    """predict evaluates the recurrence for arbitrary coefficients; stable drops exactly the growing modes."""
    order = c.choose("order", [1, 2, 3, 4])
    roots = c.choose("roots", [s for s in itertools.combinations(range(len(MODES)), order)])
    N = order + c.choose("surplus", [0, 1, 4])
    num = c.choose("num", [0, 1, 2, 7, 25])
    stable = c.choose("stable", [False, True])
    qs = np.array([MODES[i] for i in roots], complex)
    c.require(not stable or not np.any(abs(abs(qs) - 1) < 1e-9))    # |root| = 1: either side
    a = np.poly(qs)[1:].astype(complex)
    x = np.exp(1j * np.arange(N)**2) + 0.1
    # amplitudes of the modes from the last `order` data points
    V = np.array([qs**k for k in range(order)])
    amp = np.linalg.solve(V, x[-order:])
    c.require(np.linalg.cond(V) < 1e4)
    if stable:
        amp = np.where(abs(qs) > 1, 0, amp)
    want = np.r_[x, [np.sum(amp * qs**(order + i)) for i in range(num)]]
    keep = x.copy()
    got = lp.predict(x, a, num=num, stable=stable)
    c.check(np.array_equal(x, keep), "input not modified")
    c.close(got, want, "prediction", rtol=0, atol=1e-8 * (1 + np.max(abs(want))))
    pos = lp.predict(x, a, num, stable)
    c.close(pos, want, "positional", rtol=0, atol=1e-8 * (1 + np.max(abs(want))))


def near_unit(c):
    """Only modes that really grow are removed, however slowly modes decay or grow; long predictions."""
    rad = [0.5, 0.99, 0.999, 0.9999, 0.99999, 1 - 1e-7, 1 + 1e-7, 1.00001, 1.0001, 1.001, 1.01, 1.3]
    order = c.choose("order", [1, 2, 3])
    idx = c.choose("radii", list(itertools.combinations(range(len(rad)), order)))
    ph = c.choose("phases", [(0.0, 1.3, -2.0), (np.pi, 0.0, 0.6), (2.5, -2.5, 1.0)])
    num = c.choose("num", [5, 60])
    qs = np.array([rad[i] * np.exp(1j * ph[k]) for k, i in enumerate(idx)])
    a = np.poly(qs)[1:].astype(complex)
    x = signal(qs, order + 2, AMP + 0.5)
    amp = (AMP + 0.5)[:order] * np.where(abs(qs) > 1, 0, 1)
    k = np.arange(order + 2, order + 2 + num)
    want = np.r_[x, np.sum(amp * qs**k[:, None], axis=-1)]
    got = lp.predict(x, a, num=num, stable=True)
    c.close(got, want, "stable prediction", rtol=0, atol=1e-7 * (1 + np.max(abs(want))))


def unit_root(c):
    """A root on the unit circle neither grows nor decays: the stable prediction continues it for ever."""
    q = c.choose("root", {"1": 1.0, "-1": -1.0, "i": 1j, "-i": -1j})
    N = c.choose("N", [1, 2, 5])
    num = c.choose("num", [0, 1, 3, 200])
    shape = c.choose("batch", [(), (1,), (3,)])
    dtype = complex if isinstance(q, complex) or c.choose("complex", [False, True]) else float
    amp = (np.arange(1, 1 + int(np.prod(shape))) * 0.7).reshape(shape)[..., np.newaxis]
    full = (amp * np.array([q**k for k in range(N + num)])).astype(dtype)
    x, a = full[..., :N].copy(), np.full(shape + (1,), -q, dtype=dtype)
    for stable in (False, True):
        c.close(lp.predict(x, a, num=num, stable=stable), full, f"stable={stable}", rtol=1e-12, atol=1e-12)


def real_pairs(c):
    """Real signals with complex-conjugate roots, high orders."""
    pairs = c.choose("pairs", [s for r in (1, 2, 3) for s in itertools.combinations([0.9 * np.exp(0.4j), 0.97 * np.exp(1.5j), 0.99999 * np.exp(2.2j), 1.03 * np.exp(1.0j), 0.6 * np.exp(2.9j)], r)])
    order = 2 * len(pairs) + c.choose("surplus order", [0, 2, 14])
    N = 2 * order + c.choose("surplus data", [0, 9])
    k = np.arange(N + 30)
    full = sum((a * q**k).real for a, q in zip((1.0 + 0.5j, -0.7j, 0.4 - 1j), pairs))
    x = full[:N]
    a, err = lp.pcoeff_covar(x, order=order)
    c.check(np.isrealobj(a), "real coefficients for real data")
    c.close(err, 0.0, "vanishing error", rtol=0, atol=1e-9)
    got = lp.predict(x, a, num=30)
    c.check(np.isrealobj(got), "real prediction for real data")
    c.close(got, full, "signal is continued", rtol=0, atol=1e-6 * (1 + max(abs(full))))
    if order == 2 * len(pairs):
        stab = sum((a * q**k).real for a, q in zip((1.0 + 0.5j, -0.7j, 0.4 - 1j), pairs) if abs(q) < 1) + 0 * full
        got = lp.predict(x, a, num=30, stable=True)
        c.close(got, np.r_[x, stab[N:]], "stable prediction", rtol=0, atol=1e-6 * (1 + max(abs(full))))


def batch(c):
    shape = c.choose("batch", [(1,), (2,), (3,), (2, 3)])
    order = c.choose("order", [1, 2, 3])
    what = c.choose("what", ["covar", "predict", "stable", "predict shared", "stable shared", "burg", "companion"])
    lay = c.choose("layout", ["C", "F", "strided"])
    k = np.arange(9)
    n = int(np.prod(shape))
    x = np.array([np.exp(1j * (k + i)**1.7) + 0.3 * i for i in range(n)]).reshape(*shape, 9)
    a = np.array([np.poly(0.5 + 0.9 * np.exp(1j * (np.arange(order) + i)))[1:] for i in range(n)]).reshape(*shape, order)
    if lay == "F":
        x, a = np.asfortranarray(x), np.asfortranarray(a)
    elif lay == "strided":
        x, a = np.repeat(x, 2, axis=-1)[..., ::2], np.repeat(a, 2, axis=-1)[..., ::2]
    a0 = a.reshape(n, order)[0]
    if what == "covar":
        got, err = lp.pcoeff_covar(x, order=order)
        c.equal(got.shape, (*shape, order), "shape")
        c.equal(err.shape, shape, "shape of the errors")
        for i in np.ndindex(shape):
            w = lp.pcoeff_covar(np.ascontiguousarray(x[i]), order=order)
            c.close(got[i], w[0], what, rtol=1e-9, atol=1e-12)
            c.close(err[i], w[1], what, rtol=1e-9, atol=1e-12)
    elif what == "burg":
        got, err = lp.pcoeff_burg(x, order=order)
        c.equal(got.shape, (*shape, order), "shape")
        c.equal(err.shape, shape, "shape of the errors")
        for i in np.ndindex(shape):
            w = lp.pcoeff_burg(np.ascontiguousarray(x[i]), order=order)
            c.close(got[i], w[0], what, rtol=1e-9, atol=1e-12)
            c.close(err[i], w[1], what, rtol=1e-9, atol=1e-12)
    elif what == "companion":
        full = np.concatenate((np.full((*shape, 1), 2.0), a), axis=-1)
        got = lp.companion(full)
        c.equal(got.shape, (*shape, order, order), "shape")
        for i in np.ndindex(shape):
            c.close(got[i], lp.companion(full[i]), what, rtol=0, atol=1e-14)
    else:
        shared = what.endswith("shared")
        st = what.startswith("stable")
        got = lp.predict(x, a0 if shared else a, num=4, stable=st)
        c.equal(got.shape, (*shape, 13), "shape")
        for i in np.ndindex(shape):
            ai = np.ascontiguousarray(a0 if shared else a[i])
            qs = np.roots(np.r_[1, ai])
            amp = np.linalg.solve(np.array([qs**m for m in range(order)]), x[i][-order:])
            if st:
                amp = np.where(abs(qs) > 1, 0, amp)
            want = np.r_[x[i], [np.sum(amp * qs**(order + m)) for m in range(4)]]
            c.close(got[i], want, what, rtol=1e-8, atol=1e-8)


def companion(c):
    n = c.choose("n", range(1, c.pick(4, 5) + 1))
    a0 = c.choose("a0", [1.0, -2.0, 0.5j, 1, 3])
    rest = [c.choose(f"a{i + 1}", [0, 1, -1.5, 2j]) for i in range(n)]
    kind = c.choose("container", ["array", "list"])
    a = [a0, *rest] if kind == "list" else np.array([a0, *rest])
    got = lp.companion(a)
    c.equal(got.shape, (n, n), "shape")
    c.close(got[0], -np.array(rest) / a0, "first row", rtol=0, atol=1e-14)
    c.close(got[1:], np.eye(n)[:-1], "sub-diagonal", rtol=0, atol=0)
    coeffs = np.poly(got)
    c.close(coeffs, np.array([a0, *rest]) / a0, "characteristic polynomial", rtol=1e-9, atol=1e-9)


def reject(c):
    what = c.choose("what", ["order N", "order N+1", "num -1", "num -5 stable", "companion 1", "companion 0d", "companion batch 1", "companion a0=0",
                             "companion batch a0=0"])
    n = c.choose("N", [2, 3, 6])
    b = c.choose("batch", [(), (2,)])
    x = np.cos(np.arange(n * int(np.prod(b, dtype=int)))).reshape(*b, n)
    a = np.full((*b, 1), 0.5)
    f = {"order N": lambda: lp.pcoeff_covar(x, order=n), "order N+1": lambda: lp.pcoeff_covar(x, order=n + 1), "num -1": lambda: lp.predict(x, a, num=-1),
         "num -5 stable": lambda: lp.predict(x, a, num=-5, stable=True), "companion 1": lambda: lp.companion([1.0]),
         "companion 0d": lambda: lp.companion(2.0), "companion batch 1": lambda: lp.companion(np.ones((n, 1))),
         "companion a0=0": lambda: lp.companion(np.r_[0.0, x.ravel()]), "companion batch a0=0": lambda: lp.companion(np.array([[1.0, 2], [0.0, 2]]))}[what]
    c.raises(ValueError, f, what)


def warns(c):
    N = c.choose("N", range(3, 9))
    order = c.choose("order", range(1, 8))
    c.require(order < N)
    x = np.cos(np.arange(N)**2.0)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        lp.pcoeff_covar(x, order=order)
    c.equal(bool(w), order > N // 2, "under-determined orders are reported")


def burg(c):
    """Stage by stage minimiser of forward + backward error (Levinson recursion), all roots inside the unit circle."""
    kind = c.choose("data", ["real", "complex", "damped", "noisy", "growing", "two"])
    N = c.choose("N", c.pick([6, 9, 16], [5, 6, 9, 16, 33]))
    order = c.choose("order", c.pick([1, 2, 3, 4, 10, 12], list(range(1, 14)) + [20]))
    c.require(order < N - 1)
    k = np.arange(N)
    x = dict(real=np.cos(k**2 + 0.3), complex=np.exp(1j * k**1.5) + 0.2 * np.sin(k**2), damped=0.9**k * np.exp(1j * k) + 0.1 * np.cos(k**2),
             noisy=np.sin(0.4 * k) + 1e-2 * np.cos(k**3), growing=1.1**k + np.cos(k**2), two=np.exp(0.3j * k) + np.exp(-1.3j * k) + 0.05 * np.cos(k**2))[kind]
    a, rho = lp.pcoeff_burg(x, order=order)
    c.equal(a.shape, (order,), "shape")
    prev, rprev = (lp.pcoeff_burg(x, order=order - 1) if order > 1 else (np.zeros(0), np.mean(abs(x)**2)))
    pa = np.r_[1, prev]
    m = order - 1
    # errors of the previous stage, over all points with full support of this stage
    f = np.array([sum(pa[j] * x[i - j] for j in range(m + 1)) for i in range(m + 1, N)])
    b = np.array([sum(np.conj(pa[j]) * x[i - 1 - m + j] for j in range(m + 1)) for i in range(m + 1, N)])
    kk = a[-1]

    def E(q):
        return np.sum(abs(f + q * b)**2) + np.sum(abs(b + np.conj(q) * f)**2)
    opt = -2 * np.sum(f * np.conj(b)) / (np.sum(abs(f)**2) + np.sum(abs(b)**2))
    c.close(kk, opt, "reflection coefficient", rtol=0, atol=1e-9)
    for d in (1e-3, -1e-3, 1e-3j, -1e-3j):
        c.check(E(kk) <= E(kk + d), "minimum")
    if order > 1:
        c.close(a[:-1], prev + kk * np.conj(prev[::-1]), "Levinson recursion", rtol=0, atol=1e-9)
    c.close(rho, (1 - abs(kk)**2) * rprev, "variance", rtol=1e-9, atol=1e-12)
    c.check(np.all(abs(np.roots(np.r_[1, a])) <= 1 + 1e-9), "roots inside the unit circle")
    ext = lp.predict(x.astype(complex), a.astype(complex), num=200)
    c.check(np.all(np.isfinite(ext)) and np.max(abs(ext[-50:])) < 1e4 * np.max(abs(x)), "bounded prediction")


def burg_direct(x, order):
    """Burg's recursion, straight from the definition."""
    f, b = np.array(x, complex)[1:], np.array(x, complex)[:-1]
    a, rho = np.ones(1, complex), np.mean(abs(np.asarray(x))**2)
    for __ in range(order):
        k = -2 * np.sum(f * np.conj(b)) / np.sum(abs(f)**2 + abs(b)**2)
        a = np.r_[a, 0] + k * np.r_[a, 0][::-1].conj()
        rho *= 1 - abs(k)**2
        f, b = (f + k * b)[1:], (b + np.conj(k) * f)[:-1]
    return a[1:], rho


def sizes(c):
    """High orders and long signals."""
    N = c.choose("N", [20, 40, 64, 129, 300, 1000])
    order = c.choose("order", [1, 8, 15, 16, 21, 33, 60, 100, 250])
    kind = c.choose("data", ["real", "complex"])
    shape = c.choose("batch", [(), (2,)])
    c.require(order <= N // 3)
    k = np.arange(N)
    base = np.cos(0.31 * k) * 0.995**k + 0.3 * np.cos(k**2 + 0.3) + 0.2 * np.sin(1.7 * k)
    if kind == "complex":
        base = base + 1j * np.sin(0.2 * k) + 0.2j * np.cos(0.7 * k**2)
    x = base if shape == () else np.stack([base, base[::-1] * 0.7 + 0.1])
    a, err = lp.pcoeff_covar(x, order=order)
    ab, rho = lp.pcoeff_burg(x, order=order)
    c.equal(a.shape, (*shape, order), "shape of the coefficients")
    c.equal(ab.shape, (*shape, order), "shape of the coefficients")
    for i in np.ndindex(shape):
        X = np.lib.stride_tricks.sliding_window_view(x[i], order)[:-1, ::-1]
        y = x[i][order:]
        c.close(X.conj().T @ (y + X @ a[i]), np.zeros(order), "normal equations", rtol=0, atol=1e-8 * N)
        c.close(err[i], np.linalg.norm(y + X @ a[i]), "error is the norm of the residual", rtol=1e-9, atol=1e-9)
        wb, wr = burg_direct(x[i], order)
        c.close(ab[i], wb, "Burg coefficients", rtol=0, atol=1e-8)
        c.close(rho[i], wr, "Burg variance", rtol=1e-8, atol=1e-12)
    num = c.pick(50, 200)
    got = lp.predict(x, ab, num=num)
    want = x
    for __ in range(num):
        want = np.concatenate((want, -np.sum(ab * want[..., :-order - 1:-1], axis=-1, keepdims=True)), axis=-1)
    c.close(got, want, "recurrence", rtol=0, atol=1e-8 * (1 + np.max(abs(want))))


def scales(c):
    """The coefficients do not depend on the unit of the signal; errors and predictions are proportional to it."""
    fct = c.choose("fct", ["covar", "burg", "predict", "stable"])
    scale = c.choose("scale", {"1e-45": 2.0**-150, "1e-12": 2.0**-40, "1e-3": 2.0**-10, "1e6": 2.0**20, "1e30": 2.0**100})
    x = c.choose("data", {"noise": np.cos(1.0 + np.arange(24.0)**2), "complex": np.exp(1j * np.arange(24)**1.5) + 0.2 * np.sin(np.arange(24)**2),
                          "modes": signal([0.9, 0.7 * np.exp(-1.1j), 0.95j], 24) + 1e-3 * np.cos(np.arange(24)**2), "decaying": np.exp(-np.arange(24.0)) * (1 + 0.1 * np.cos(np.arange(24)**2))})
    order = c.choose("order", [1, 2, 3, 6, 9])
    a, err = lp.pcoeff_covar(x, order=order)
    if fct == "covar":
        b, err2 = lp.pcoeff_covar(scale * x, order=order)
        c.close(b, a, "coefficients", rtol=0, atol=1e-7 * np.max(abs(a)))
        c.close(err2 / scale, err, "error", rtol=1e-7, atol=1e-12)
    elif fct == "burg":
        a, rho = lp.pcoeff_burg(x, order=order)
        b, rho2 = lp.pcoeff_burg(scale * x, order=order)
        c.close(b, a, "coefficients", rtol=0, atol=1e-9 * np.max(abs(a)))
        c.close(rho2 / scale**2, rho, "variance", rtol=1e-8, atol=0)
    else:
        num = c.choose("num", [1, 30])
        q = lp.predict(scale * x, a, num=num, stable=fct == "stable") / scale
        p = lp.predict(x, a, num=num, stable=fct == "stable")
        c.close(q, p, "prediction", rtol=0, atol=1e-9 * np.max(abs(p)))


HARNESSES = dict(scales=scales, sizes=sizes, covar=covar, lsq=lsq, rcond=rcond, predict_steps=predict_steps, near_unit=near_unit, unit_root=unit_root, real_pairs=real_pairs, batch=batch, companion=companion, reject=reject, warns=warns, burg=burg)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^linearprediction\.", units=r"^linearprediction$")
