"""C28: Taylor Pade and quadratic Hermite-Pade approximants."""
import itertools

import numpy as np
from gftool import hermpade
from gftool.hermpade import Hermite2

BOUNDS = ("Pade: all degree pairs 0..5 (thorough 0..8) x 14 series (generic, sparse, even, leading zeros, complex, rational, polynomial) x 0..3 surplus "
          "coefficients x 4 algorithms; Hermite-Pade: all degree triples 0..3 (0..4) x series x algorithms x every fixed coefficient; branch equations; degrees up to 40")
ASSUMPTIONS = ["order condition evaluated by direct convolution; uniqueness of the Pade approximant makes it decisive"]


def binom(al, n):
    out = [1.0]
    for k in range(1, n):
        out.append(out[-1] * (al - k + 1) / k)
    return np.array(out)


def rational(num, den, n):
    """Taylor coefficients of num/den."""
    out = np.zeros(n, dtype=complex)
    num = np.r_[num, np.zeros(n)]
    for k in range(n):
        acc = num[k] - sum(den[j] * out[k - j] for j in range(1, min(k, len(den) - 1) + 1))
        out[k] = acc / den[0]
    return out if np.any(out.imag) else out.real


def series(name, n):
    k = np.arange(n)
    with np.errstate(all="ignore"):
        return {
            "cbrt": lambda: binom(1 / 3, n),
            "sqrt": lambda: binom(0.5, n),
            "log": lambda: np.r_[0, -(-1.0)**k[1:] / k[1:]],
            "exp": lambda: np.cumprod(np.r_[1, 1 / k[1:]]),
            "generic": lambda: np.cos(1 + k**2),
            "complex": lambda: np.exp(1j * k**2) * (1 + 0.1 * k),
            "even": lambda: np.where(k % 2 == 0, 0.8**k, 0),
            "sparse": lambda: np.where(k % 3 == 0, np.cos(k), 0),
            "lead0": lambda: np.where(k < 2, 0, np.cos(k)),
            "geom": lambda: rational([1.0], [1, -0.7], n),
            "geomc": lambda: rational([1.0, 2j], [1, -0.7j], n),
            "two": lambda: rational([0.3, 1.0], [1, 0.2, -0.4], n),
            "three": lambda: rational([0.5, 0.1, 1.0], [1, 0.2, -0.4, 0.3], n),
            "poly": lambda: np.r_[[1.0, -2.0, 0.5], np.zeros(n)][:n],
            "const": lambda: np.r_[3.0, np.zeros(n)][:n],
        }[name]()


RAT = dict(geom=([1.0], [1, -0.7]), geomc=([1.0, 2j], [1, -0.7j]), two=([0.3, 1.0], [1, 0.2, -0.4]), three=([0.5, 0.1, 1.0], [1, 0.2, -0.4, 0.3]),
           poly=([1.0, -2.0, 0.5], [1.0]), const=([3.0], [1.0]))
NAMES = ["cbrt", "log", "exp", "generic", "complex", "even", "sparse", "lead0", *RAT]
ALGO = dict(pade=lambda a, m, n: hermpade.pade(a, num_deg=m, den_deg=n), fast=lambda a, m, n: hermpade.pade(a, num_deg=m, den_deg=n, fast=True),
            lstsq=lambda a, m, n: hermpade.pade_lstsq(a, num_deg=m, den_deg=n), pader=lambda a, m, n: hermpade.pader(a, num_deg=m, den_deg=n))


def order_residual(pol_coefs, powers, order):
    """Coefficients 0..order-1 of sum_i p_i(x) f_i(x), relative to the size of the terms."""
    acc, size = np.zeros(order, complex), 1e-300
    for co, f in zip(pol_coefs, powers):
        full = np.convolve(np.r_[co, np.zeros(order)], np.r_[f, np.zeros(order)])[:order]
        acc += full
        size += np.linalg.norm(co) * np.linalg.norm(f)
    return acc / size


def toep(a, m, n):
    get = lambda i: a[i] if 0 <= i < len(a) else 0
    return np.array([[get(m + 1 + i - j) for j in range(n + 1)] for i in range(len(a) - m - 1)]).reshape(len(a) - m - 1, n + 1)


def pade_order(c):
    algo = c.choose("algorithm", list(ALGO))
    name = c.choose("series", NAMES)
    m = c.choose("num_deg", range(c.pick(5, 8) + 1))
    n = c.choose("den_deg", range(c.pick(5, 8) + 1))
    extra = c.choose("extra", [0, 1, 3])
    cont = c.choose("container", ["array", "list"])
    L = m + n + 1
    a = series(name, L + extra)
    use = a if algo == "lstsq" else a[:L]
    if algo == "fast" and n:
        A = toep(a[:L], m, n)[:, :-1]
        c.require(all(np.linalg.cond(A[:k, :k]) < 1e6 for k in range(1, n + 1)))
    if algo == "lstsq" and n:
        A = toep(a, m, n)
        sol = np.linalg.lstsq(A[:, 1:], -A[:, 0], rcond=None)
        c.require(np.linalg.norm(A[:, 1:] @ sol[0] + A[:, 0]) < 1e-12 * np.linalg.norm(A) and np.linalg.norm(sol[0]) < 1e4)   # q_0 = 1 admissible
    got = ALGO[algo](a if cont == "array" else list(a), m, n)
    p, q = got.numer.coef, got.denom.coef
    c.check(p.size <= m + 1 and q.size <= n + 1, "degrees at most the requested ones", p=p, q=q)
    c.check(np.any(abs(q) > 0) and np.all(np.isfinite(q)) and np.all(np.isfinite(p)), "denominator is not 0")
    if algo != "pader":
        res = order_residual([q, -p], [use[:L], np.eye(1)[0]], L)
        c.close(res, np.zeros(L), "q f - p = O(x^(num+den+1))", rtol=0, atol=1e-9)
        if algo == "lstsq":
            c.close(q[0], 1.0, "normalised denominator", rtol=0, atol=1e-9)
    else:
        # the robust version may reduce the degrees
        Lr = p.size + q.size - 1
        res = order_residual([q, -p], [use[:Lr], np.eye(1)[0]], Lr)
        c.close(res, np.zeros(Lr), "q f - p = O(x^(reduced degrees + 1))", rtol=0, atol=1e-9)
        nz = np.any(abs(a[:m + 1]) > 1e-14 * np.linalg.norm(a[:L]))
        c.equal(bool(np.any(abs(p) > 0)), bool(nz), "the approximant vanishes only if f = O(x^(num_deg+1))")
    if name in RAT and (algo != "lstsq" or n <= 3):
        num, den = RAT[name]
        if m >= len(num) - 1 and n >= len(den) - 1:
            x = np.array([0.3, -0.4, 0.2 + 0.1j, 2.0, -3.0 + 1j])
            fx = np.polyval(np.array(num)[::-1], x) / np.polyval(np.array(den)[::-1], x)
            c.close(got.eval(x), fx, "rational function recovered", rtol=0, atol=1e-5 * (1 + abs(fx)))


def pade_agree(c):
    """All algorithms give the same (unique) approximant."""
    name = c.choose("series", ["cbrt", "log", "exp", "generic", "complex"])
    m = c.choose("num_deg", range(5))
    n = c.choose("den_deg", range(5))
    a = series(name, m + n + 1)
    A = toep(a, m, n)
    c.require(n == 0 or (all(np.linalg.cond(A[:k, :k]) < 1e5 for k in range(1, n + 1)) and np.linalg.cond(A[:, 1:]) < 1e5))
    x = np.array([0.1, -0.2, 0.25j, 0.3 - 0.1j, 0.5])
    # reference: q by a direct solve
    q = np.r_[1, np.linalg.solve(A[:, 1:], -A[:, 0])] if n else np.array([1.0])
    p = np.convolve(q, a)[:m + 1]
    ref = np.polyval(p[::-1], x) / np.polyval(q[::-1], x)
    c.require(np.all(abs(np.polyval(q[::-1], x)) > 1e-3 * np.linalg.norm(q)))
    for k, f in ALGO.items():
        c.close(f(a, m, n).eval(x), ref, "approximant " + k, rtol=1e-7, atol=1e-8)


def robust(c):
    """pader reduces the degrees to those of the function; noise below rcond does not create poles."""
    name = c.choose("series", ["geom", "geomc", "two", "three"])
    m = c.choose("num_deg", range(9))
    n = c.choose("den_deg", range(1, 9))
    noise, rcond = c.choose("noise, rcond", [(0, None), (0, 1e-10), (1e-9, 1e-5)])
    num, den = RAT[name]
    # the rank deficiency of the (num, den) entry of the Pade table is the smaller of both surplus degrees
    c.require(m - (len(num) - 1) >= n - (len(den) - 1) >= 0)
    a = series(name, m + n + 1)
    a = a + noise * np.cos(np.arange(m + n + 1)**2)
    got = hermpade.pader(a, m, n) if rcond is None else hermpade.pader(a, num_deg=m, den_deg=n, rcond=rcond)
    c.equal(got.denom.coef.size, len(den), "denominator degree reduced to that of the function")
    c.check(got.numer.coef.size <= m - (n - len(den) + 1) + 1, "numerator degree reduced alike")
    x = np.array([0.3, -0.4, 0.2 + 0.1j])
    fx = np.polyval(np.array(num)[::-1], x) / np.polyval(np.array(den)[::-1], x)
    c.close(got.eval(x), fx, "function recovered", rtol=0, atol=1e-9 + 1e4 * noise)


def homogeneous(c):
    """Scaling the series scales the approximant: degrees, reduction and function values do not depend on the units."""
    name = c.choose("series", ["geom", "two", "three", "cbrt", "exp", "complex"])
    m, n = c.choose("num_deg", range(c.pick(4, 5))), c.choose("den_deg", range(c.pick(4, 5)))
    scale = c.choose("scale", c.pick({"1e-20": 1e-20, "-1e25": -1e25, "2j": 2j}, {"1e-20": 1e-20, "1e-7": 1e-7, "1e9": 1e9, "-1e25": -1e25, "2j": 2j}))
    algo = c.choose("algorithm", list(ALGO))
    if name in RAT:
        num, den = RAT[name]
        c.require(m - (len(num) - 1) >= n - (len(den) - 1) >= 0)
        c.require(algo == "pader" or n == len(den) - 1)
    a = series(name, m + n + 1)
    A = toep(a, m, n)
    c.require(name in RAT or n == 0 or (all(np.linalg.cond(A[:k, :k]) < 1e5 for k in range(1, n + 1)) and np.linalg.cond(A[:, 1:]) < 1e5))
    x = np.array([0.1, -0.2, 0.25j, 0.3 - 0.1j])
    one, two = ALGO[algo](a, m, n), ALGO[algo](scale * a, m, n)
    c.equal(two.denom.coef.size, one.denom.coef.size, "denominator degree does not depend on the scale")
    ref = one.eval(x)
    c.require(np.all(abs(ref) < 1e3))
    c.close(two.eval(x) / scale, ref, "function scales", rtol=1e-7, atol=1e-8)


def retarded(c):
    """The retarded variant returns the branch of positive spectral weight where it is unique, one of both branches always."""
    b1, b2 = c.choose("im 1", [-0.7, -1e-6, 0.3, 2.0]), c.choose("im 2", [-0.4, -1e-3, 1e-5, 1.0])
    r1, r2 = c.choose("re 1", [-0.5, 0.3]), c.choose("re 2", [-0.6, 0.1, 1.5])
    lead = c.choose("r", {"1": 1.0, "-2": -2.0, "j": 1j})
    f1, f2 = r1 + 1j * b1, r2 + 1j * b2
    h = hermpade._Hermite2Ret(p=np.polynomial.Polynomial([lead * f1 * f2]), q=np.polynomial.Polynomial([-lead * (f1 + f2)]), r=np.polynomial.Polynomial([lead]))
    z = np.array([0.1, 0.2j, -0.3])
    got = h.eval(z)
    want = f1 if b1 < 0 < b2 else f2 if b2 < 0 < b1 else None
    if want is not None:
        c.close(got, np.full(3, want), "branch of positive spectral weight", rtol=1e-9, atol=0)
    c.close(np.minimum(abs(got - f1), abs(got - f2)), np.zeros(3), "one of the branches", rtol=0, atol=1e-9)
    h = hermpade._Hermite2Ret.from_taylor(np.cos(np.arange(9.0)) + 1j, deg_p=2, deg_q=1, deg_r=3)
    c.equal((h.p.coef.size, h.q.coef.size, h.r.coef.size), (3, 2, 4), "degrees by keyword")
    h2 = hermpade._Hermite2Ret.from_taylor_lstsq(np.cos(np.arange(9.0)) + 1j, deg_p=2, deg_q=1, deg_r=3)
    c.equal((h2.p.coef.size, h2.q.coef.size, h2.r.coef.size), (3, 2, 4), "degrees by keyword (lstsq)")


def options(c):
    """rcond and fix_qr reach both the Hermite-Pade approximant and the Pade approximant of the selection."""
    rcond = c.choose("rcond", [None, 1e-12, 1e-6, 1e-3, 1e-1])
    fix = c.choose("fix_qr", [None, 0, 1, 3, -1])
    name = c.choose("series", ["cbrt", "log", "generic"])
    degs = c.choose("degrees", [(1, 1, 1), (2, 2, 2), (3, 2, 1), (2, 3, 3)])
    a = series(name, sum(degs) + 2)
    a = a + 1e-4 * np.cos(np.arange(a.size)**2)
    h = Hermite2.from_taylor_lstsq(a, *degs, rcond=rcond, fix_qr=fix)
    p, q, r = hermpade.hermite2_lstsq(a, *degs, rcond=rcond, fix_qr=fix)
    for x, y, w in ((h.p, p, "p"), (h.q, q, "q"), (h.r, r, "r")):
        c.close(x.coef, y.coef, w, rtol=1e-10, atol=1e-12)
    md, nd = h.pade.numer.coef.size - 1, h.pade.denom.coef.size - 1
    ref = hermpade.pade_lstsq(a, md, nd, rcond=rcond)
    x = np.array([0.1, -0.2, 0.25j])
    c.close(h.pade.eval(x), ref.eval(x), "Pade of the selection with the same cutoff", rtol=1e-8, atol=1e-10)


def too_short(c):
    f = c.choose("fct", ["pade", "fast", "lstsq", "pader", "hermite2", "hermite2_lstsq", "Hermite2", "Hermite2_lstsq"])
    m, n, r = c.choose("m", range(4)), c.choose("n", range(4)), c.choose("r", range(3))
    short = c.choose("missing", [1, 2])
    if f in ALGO:
        c.require(r == 0)
        L = m + n + 1 - short
        c.require(L >= 0)
        c.raises(ValueError, lambda: ALGO[f](np.cos(np.arange(L)), m, n), "too few coefficients")
        return
    L = m + n + r + 2 - short
    fct = dict(hermite2=hermpade.hermite2, hermite2_lstsq=hermpade.hermite2_lstsq, Hermite2=Hermite2.from_taylor, Hermite2_lstsq=Hermite2.from_taylor_lstsq)[f]
    c.raises(ValueError, lambda: fct(np.cos(np.arange(L)), m, n, r), "too few coefficients")


def herm_order(c):
    algo = c.choose("algorithm", ["hermite2", "lstsq"])
    name = c.choose("series", ["cbrt", "sqrt", "log", "exp", "generic", "complex", "two", "lead0", "even"])
    top = c.pick(3, 4)
    dp, dq, dr = (c.choose(k, range(top + 1)) for k in ("p_deg", "q_deg", "r_deg"))
    extra = c.choose("extra", [0, 2]) if algo == "hermite2" else 0
    kw = c.choose("keywords", [False, True])
    L = dp + dq + dr + 2
    a = series(name, L + extra) * (c.choose("scale", [1.0, 200.0, -1e-3]) if algo == "hermite2" else 1.0)
    f2 = np.convolve(a, a)[:L]
    if algo == "hermite2":
        p, q, r = hermpade.hermite2(a, p_deg=dp, q_deg=dq, r_deg=dr) if kw else hermpade.hermite2(a, dp, dq, dr)
    else:
        fix = c.choose("fix_qr", [None, *range(dq + dr + 2), -1])
        A = np.concatenate((toep(a[:L], dp, dq), toep(f2, dp, dr)), axis=-1)
        if fix is None:
            c.require(np.linalg.matrix_rank(A, tol=1e-9 * np.linalg.norm(A)) == dq + dr + 1)
            null = np.linalg.svd(A)[2][-1]
            c.require(np.all(abs(null) > 1e-3))
        else:
            B = np.delete(A, fix % (dq + dr + 2), axis=-1)
            sol = np.linalg.lstsq(B, -A[:, fix], rcond=None)[0]
            c.require(np.linalg.norm(B @ sol + A[:, fix]) < 1e-12 * np.linalg.norm(A) and np.linalg.norm(sol) < 1e4)
        p, q, r = hermpade.hermite2_lstsq(a, dp, dq, dr, fix_qr=fix) if not kw else hermpade.hermite2_lstsq(
            an=list(a), p_deg=dp, q_deg=dq, r_deg=dr, rcond=None, fix_qr=fix)
        if fix is not None:
            c.close(np.r_[q.coef, r.coef][fix], 1.0, "fixed coefficient", rtol=0, atol=1e-12)
    c.check(p.coef.size <= dp + 1 and q.coef.size <= dq + 1 and r.coef.size <= dr + 1, "degrees")
    c.check(np.linalg.norm(q.coef) + np.linalg.norm(r.coef) > 1e-6, "not trivial")
    res = order_residual([p.coef, q.coef, r.coef], [np.eye(1)[0], a[:L], f2], L)
    c.close(res, np.zeros(L), "p + q f + r f^2 = O(x^(sum+2))", rtol=0, atol=1e-9)


ZB = {"real": np.linspace(-0.9, 1.7, 9), "complex": np.linspace(-2, 2, 9) + 0.5j, "lower": np.linspace(-2, 2, 9) - 0.5j,
      "2d": (np.linspace(-2, 2, 8) + 0.1j).reshape(2, 4)}


def branches(c):
    """eval_branches gives both roots; eval the one closer to the Pade approximant."""
    cls = c.choose("constructor", ["from_taylor", "from_taylor_lstsq"])
    name = c.choose("series", ["cbrt", "log", "exp", "generic", "complex"])
    degs = c.choose("degrees", [d for d in itertools.product(range(1, c.pick(4, 6)), repeat=3)])
    z = c.choose("z", ZB)
    a = series(name, sum(degs) + 2)
    h = getattr(Hermite2, cls)(a, *degs) if c.choose("kw", [0, 1]) else getattr(Hermite2, cls)(an=a, deg_p=degs[0], deg_q=degs[1], deg_r=degs[2])
    c.check(h.p.coef.size == degs[0] + 1 and h.q.coef.size == degs[1] + 1 and h.r.coef.size == degs[2] + 1, "degrees")
    pb, mb = h.eval_branches(z)
    P, Q, R = h.p(z), h.q(z), h.r(z)
    scale = abs(Q)**2 + abs(4 * P * R)
    c.equal(pb.shape, z.shape, "shape")
    ok = (abs(R) > 1e-6 * (abs(Q) + abs(P))) & (abs(P) > 1e-9 * scale)
    c.require(ok.any())
    big = np.where(abs(pb) > abs(mb), pb, mb)
    for F in (pb, mb):
        res = (P + Q * F + R * F**2) / (abs(P) + abs(Q * F) + abs(R * F**2) + 1e-300)
        c.close(res[ok], np.zeros(ok.sum()), "branches are roots", rtol=0, atol=1e-9)
    # both roots (Vieta), positive sign first
    c.close(((pb + mb) * R + Q)[ok] / (abs(Q) + abs(R * big))[ok], np.zeros(ok.sum()), "sum of the roots", rtol=0, atol=1e-9)
    disc = np.emath.sqrt(Q**2 - 4 * P * R)
    c.close(((pb - mb) * R - disc)[ok] / (abs(disc) + abs(Q) + abs(R * big))[ok], np.zeros(ok.sum()), "order of the branches", rtol=0, atol=1e-7)
    got = h.eval(z)
    pd = h.pade.eval(z)
    dp, dm = abs(pb - pd), abs(mb - pd)
    want = np.where(dp < dm, pb, mb)
    clear = ok & (abs(dp - dm) > 1e-9 * (dp + dm))
    c.close(got[clear], want[clear], "branch closer to the Pade approximant", rtol=1e-9, atol=1e-12)
    # the Pade approximant used for the decision satisfies its order condition
    p, q = h.pade.numer.coef, h.pade.denom.coef
    if cls == "from_taylor":
        L = p.size + q.size - 1
        c.check(sum(degs) <= L <= sum(degs) + 2 or L >= sum(degs) - 1, "Pade uses the data", L=L)
        c.close(order_residual([q, -p], [a[:L], np.eye(1)[0]], L), np.zeros(L), "Pade of the selection", rtol=0, atol=1e-9)


def quad_exact(c):
    """Functions that solve a quadratic equation are reproduced (on the principal branch near 0)."""
    cls = c.choose("constructor", ["from_taylor", "from_taylor_lstsq"])
    kind = c.choose("function", ["sqrt", "sqrt+x", "x*sqrt", "1/sqrt", "semi"])
    degs = c.choose("degrees", [d for d in itertools.product(range(2, c.pick(4, 6)), repeat=3)])
    c.require(kind != "x*sqrt" or degs[0] >= 3)
    n = sum(degs) + 2
    s = binom(0.5, n)
    a = {"sqrt": s, "sqrt+x": s + np.r_[0.3, 1.0, np.zeros(n)][:n], "x*sqrt": np.r_[0, s][:n], "1/sqrt": binom(-0.5, n),
         "semi": 2 * np.array([binom(0.5, 2 * n + 4)[k // 2 + 1] * (-1)**(k // 2 + 1) * -1 if k % 2 == 0 else 0.0 for k in range(n)])}[kind]
    x = np.linspace(-0.4, 0.4, 9) + 0.05j
    f = {"sqrt": lambda x: np.sqrt(1 + x), "sqrt+x": lambda x: np.sqrt(1 + x) + 0.3 + x, "x*sqrt": lambda x: x * np.sqrt(1 + x),
         "1/sqrt": lambda x: 1 / np.sqrt(1 + x), "semi": lambda x: 2 * (1 - np.sqrt(1 - x**2)) / x**2}[kind]
    # the default heuristic for the fixed coefficient may pick one that has to vanish: fix r_0 (or q_0)
    h = getattr(Hermite2, cls)(a, *degs, **(dict(fix_qr=0 if kind == "semi" else degs[1] + 1) if cls == "from_taylor_lstsq" else {}))
    c.close(h.eval(x), f(x), "square root function", rtol=0, atol=2e-4)
    far = np.linspace(-5, 5, 8) + 1j
    if kind == "semi":
        return
    pb, mb = h.eval_branches(far)
    err = np.minimum(abs(pb - f(far)), abs(mb - f(far)))
    c.close(err, np.zeros(8), "one of the branches is the function everywhere", rtol=0, atol=2e-3)


def branch_scales(c):
    """Both roots to full relative precision, whatever their ratio, size and phase; selection by distance to the Pade approximant."""
    ratio = c.choose("ratio", [1.0, 0.5, 1e-3, 1e-8, 1e-14, 1e-60])
    size = c.choose("size", [1.0, 1e-6, 1e8])
    ph1, ph2 = c.choose("phase large", range(8)), c.choose("phase small", range(8))
    lead = c.choose("r", {"1": 1.0, "-2": -2.0, "j": 1j, "poly": None})
    zk = c.choose("z", ["array", "single", "scalar", "python"] if c.pick(ph1 < 2, True) else ["array"])
    off = c.choose("offset", [0.1, 0.0]) if lead == 1.0 and zk == "array" and size == 1 else 0.1
    big, small = size * np.exp(0.25j * np.pi * ph1 + 1j * off), size * ratio * np.exp(0.25j * np.pi * ph2 - 2j * off)
    real = c.choose("real", [False, True]) if ph1 % 4 == 0 and ph2 % 4 == 0 and off else False
    if real:
        big, small = size * (1 - ph1 // 2), size * ratio * (1 - ph2 // 2)
    c.require(abs(big - small) > 1e-3 * abs(big) and (not real or not isinstance(lead, complex)))
    z = np.array([0.4, -0.3]) if real else np.array([0.4 + 0.1j, -0.3 - 0.2j])
    if lead is None:   # roots depend on z: r = 1 + z, p and q proportional to it
        R = np.polynomial.Polynomial([1.0, 1.0])
        P, Q = np.polynomial.Polynomial([big * small, big * small]), np.polynomial.Polynomial([-(big + small), -(big + small)])
    else:
        R, P, Q = np.polynomial.Polynomial([lead]), np.polynomial.Polynomial([lead * big * small]), np.polynomial.Polynomial([-lead * (big + small)])
    near = c.choose("closer to", ["large", "small"])
    target = big if near == "large" else small
    h = Hermite2(p=P, q=Q, r=R, pade=hermpade.RatPol(np.polynomial.Polynomial([target * (1 + 1e-3)]), np.polynomial.Polynomial([1.0])))
    zz = {"array": z, "single": z[:1], "scalar": z[0], "python": z[0].item()}[zk]
    pb, mb = h.eval_branches(zz)
    c.equal((np.shape(pb), np.shape(mb)), (np.shape(zz),) * 2, "shape")
    pb, mb = np.asarray(pb), np.asarray(mb)
    one = abs(pb - big) < abs(mb - big)
    c.close(np.where(one, pb, mb), big + 0 * pb, "root of larger modulus", rtol=1e-9, atol=0)
    c.close(np.where(one, mb, pb), small + 0 * pb, "root of smaller modulus", rtol=1e-9, atol=0)
    got = h.eval(zz)
    c.close(got, target + 0 * pb, "selected branch", rtol=1e-9, atol=0)


def sizes(c):
    """High degrees: the order condition still holds (backward stable), extra coefficients are ignored."""
    what = c.choose("what", ["pade", "fast", "lstsq", "pader", "hermite2", "hermite2_lstsq"])
    name = c.choose("series", ["cbrt", "generic", "complex", "two"])
    degs = [6, 9, 12, 17, 25, 40]
    m, n = c.choose("num_deg", degs), c.choose("den_deg", degs)
    if what.startswith("hermite2"):
        dr = c.choose("r_deg", [0, 5, 11])
        L = m + n + dr + 2
        a = series(name, L)
        f2 = np.convolve(a, a)[:L]
        A = np.concatenate((toep(a, m, n), toep(f2, m, dr)), axis=-1)
        if what == "hermite2_lstsq":
            B = A[:, 1:]
            sol = np.linalg.lstsq(B, -A[:, 0], rcond=None)[0]
            c.require(np.linalg.norm(B @ sol + A[:, 0]) < 1e-11 * np.linalg.norm(A) and np.linalg.norm(sol) < 1e4)
            p, q, r = hermpade.hermite2_lstsq(a, m, n, dr, fix_qr=0)
        else:
            p, q, r = hermpade.hermite2(a, m, n, dr)
        c.check(p.coef.size <= m + 1 and q.coef.size <= n + 1 and r.coef.size <= dr + 1, "degrees")
        c.check(np.linalg.norm(q.coef) + np.linalg.norm(r.coef) > 1e-6, "not trivial")
        res = order_residual([p.coef, q.coef, r.coef], [np.eye(1)[0], a, f2], L)
        c.close(res, np.zeros(L), "p + q f + r f^2 = O(x^(sum+2))", rtol=0, atol=1e-8)
        return
    L = m + n + 1
    a = series(name, L)
    if what == "fast":
        A = toep(a, m, n)[:, :-1]
        c.require(all(np.linalg.cond(A[:k, :k]) < 1e5 for k in range(1, n + 1)))
    elif what == "lstsq":
        A = toep(a, m, n)
        sol = np.linalg.lstsq(A[:, 1:], -A[:, 0], rcond=None)[0]
        c.require(np.linalg.norm(A[:, 1:] @ sol + A[:, 0]) < 1e-12 * np.linalg.norm(A) and np.linalg.norm(sol) < 1e4)
    got = ALGO[what](a, m, n)
    p, q = got.numer.coef, got.denom.coef
    c.check(p.size <= m + 1 and q.size <= n + 1, "degrees at most the requested ones")
    if what == "pader":    # the degrees may be reduced
        L = p.size + q.size - 1
        a = a[:L]
        c.check(name == "two" or L > min(m + n, 10), "a series that is not rational is not reduced to low degrees", L=L)
    res = order_residual([q, -p], [a, np.eye(1)[0]], L)
    c.close(res, np.zeros(L), "q f - p = O(x^(num+den+1))", rtol=0, atol=1e-8)


def far(c):
    """Branches and selection far outside and deep inside the unit disk, for many points at once."""
    kind = c.choose("polynomials", {"quadratic": ([1.0, -0.3, 0.2], [0.5, 1.0, -0.1], [0.7, 0.4, 1.1]), "cubic": ([0.4, 1.0, 0.0, 0.3], [1.0, -0.2, 0.8], [0.9, 0.1]),
                                    "complex": ([1.0 + 0.3j, 0.2j, 0.5], [0.3, 1j, -0.7], [1 - 1j, 0.4]), "constant": ([0.6], [-1.7], [1.0])})
    size = c.choose("size of z", [1e-12, 1e-7, 1e-3, 1.0, 60.0, 1e4, 1e7])
    n = c.choose("number", [1, 39, 41, 64, 257])
    layout = c.choose("layout", ["flat", "column", "grid"])
    swap = c.choose("Pade", [0, 1])
    scale = c.choose("scale of f", [1.0, 1e4, 1e-5])
    k = np.arange(n)
    z = size * np.exp(2j * np.pi * (k + 0.31) / n) * (1 + 0.5 * np.cos(k * k))
    z = z[:, np.newaxis] if layout == "column" else np.stack([z, -z]) if layout == "grid" else z
    P, Q, R = (np.asarray(x) / scale**i for i, x in enumerate(kind))
    at = lambda co: np.polyval(co[::-1], z)
    p, q, r = at(P), at(Q), at(R)
    disc = np.sqrt(q * q - 4 * p * r + 0j)
    lead = np.where(abs(-q + disc) > abs(-q - disc), -q + disc, -q - disc)
    big = lead / (2 * r)
    small = 2 * p / lead
    ok = (abs(big - small) > 1e-2 * abs(big)) & (abs(r * big) > 1e-3 * (abs(q) + 0)) & (abs(r) > 1e-3 * np.polyval(abs(R)[::-1], abs(z))) & (abs(p) > 1e-3 * np.polyval(abs(P)[::-1], abs(z)))
    c.require(ok.any())
    pol = np.polynomial.Polynomial
    target = pol([0.0]) if swap else pol([1e6 * scale])
    h = Hermite2(p=pol(P), q=pol(Q), r=pol(R), pade=hermpade.RatPol(target, pol([1.0])))
    pb, mb = h.eval_branches(z)
    c.equal((pb.shape, mb.shape), (z.shape, z.shape), "shape")
    one = abs(pb - big) < abs(mb - big)
    c.close(np.where(one, pb, mb)[ok], big[ok], "root of larger modulus", rtol=1e-8, atol=0)
    c.close(np.where(one, mb, pb)[ok], small[ok], "root of smaller modulus", rtol=1e-8, atol=0)
    ref = 0.0 if swap else 1e6 * scale
    db, ds = abs(big - ref), abs(small - ref)
    clear = ok & (abs(db - ds) > 1e-6 * (db + ds))
    c.close(h.eval(z)[clear], np.where(db < ds, big, small)[clear], "branch closer to the Pade approximant", rtol=1e-8, atol=0)
    val = hermpade.RatPol(pol(P), pol(R)).eval(z)
    c.close(val[ok], (p / r)[ok], "rational polynomial", rtol=1e-8, atol=0)


def construct(c):
    """The constructors use the series as given: any size of the coefficients, any length."""
    cls = c.choose("class", {"Hermite2": Hermite2, "Ret": hermpade._Hermite2Ret})
    how = c.choose("constructor", ["from_taylor", "from_taylor_lstsq"])
    name = c.choose("series", ["cbrt", "log", "generic", "complex"])
    scale = c.choose("scale", [1.0, 300.0, -1e-3, 1e-8])
    degs = c.choose("degrees", [(1, 2, 1), (2, 2, 2), (5, 4, 3), (14, 13, 12), (3, 20, 25)])
    extra = c.choose("surplus", [0, 1, 4])
    n = sum(degs) + 2
    a = scale * series(name, n + extra)
    lstsq = how.endswith("lstsq")
    kw = dict(deg_p=degs[0], deg_q=degs[1], deg_r=degs[2])
    if lstsq:
        kw["fix_qr"] = c.choose("fix_qr", [None, 0])
    h = getattr(cls, how)(a, **kw)
    c.equal((h.p.coef.size, h.q.coef.size, h.r.coef.size), tuple(d + 1 for d in degs), "degrees")
    m, k = (h.pade.numer.coef.size - 1, h.pade.denom.coef.size - 1) if cls is Hermite2 else (0, 0)
    if not lstsq:
        a = a[:n]
        f2 = np.convolve(a, a)[:n]
        c.close(order_residual([h.p.coef, h.q.coef, h.r.coef], [np.eye(1)[0], a, f2], n), np.zeros(n), "p + q f + r f^2 = O(x^(sum+2))", rtol=0, atol=1e-8)
        if cls is Hermite2:
            c.close(order_residual([h.pade.denom.coef, -h.pade.numer.coef], [a[:m + k + 1], np.eye(1)[0]], m + k + 1), np.zeros(m + k + 1), "Pade of the selection", rtol=0, atol=1e-8)
        return
    # p is the low-order part of -(q f + r f^2); q and r minimise the remaining orders
    full = a.size
    f2 = np.convolve(a, a)[:full]
    q, r = h.q.coef, h.r.coef
    low = np.convolve(np.r_[q, np.zeros(full)], a)[:full] + np.convolve(np.r_[r, np.zeros(full)], f2)[:full]
    size = np.linalg.norm(q) * np.linalg.norm(a) + np.linalg.norm(r) * np.linalg.norm(f2)
    c.close((low[:degs[0] + 1] + h.p.coef) / size, np.zeros(degs[0] + 1), "p from the low orders", rtol=0, atol=1e-11)
    ref = hermpade.hermite2_lstsq(a, *degs, fix_qr=kw["fix_qr"])
    x = np.array([0.1, -0.2, 0.25j])
    for g, w, lab in zip((h.p, h.q, h.r), ref, "pqr"):
        c.close(g.coef, w.coef, lab, rtol=1e-9, atol=1e-12 * np.max(abs(w.coef)))
    if cls is Hermite2:
        c.close(h.pade.eval(x), hermpade.pade_lstsq(a, m, k).eval(x), "Pade of the selection", rtol=1e-8, atol=1e-10 * abs(scale))
    if kw["fix_qr"] == 0 and extra == 0:
        A = np.concatenate((toep(a, degs[0], degs[1]), toep(f2, degs[0], degs[2])), axis=-1)
        if np.linalg.cond(A[:, 1:]) < 1e9:
            c.close(q[0], 1.0, "normalisation", rtol=0, atol=1e-9)
            c.close((A @ np.r_[q, r]) / size, np.zeros(len(A)), "order condition (lstsq)", rtol=0, atol=1e-7)


HARNESSES = dict(construct=construct, far=far, sizes=sizes, pade_order=pade_order, pade_agree=pade_agree, robust=robust, too_short=too_short, homogeneous=homogeneous, retarded=retarded, options=options, herm_order=herm_order, branches=branches, branch_scales=branch_scales, quad_exact=quad_exact)
for _h in HARNESSES.values():
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^hermpade\.", units=r"^hermpade")
