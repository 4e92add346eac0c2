"""C11: pole fits: exact constraints, optimal residues."""
import numpy as np

from gftool.basis import PoleFct, PoleGf, pole
from gftool.fourier import matsubara_frequencies

BOUNDS = ("from_moments: n_mom 0..7 x 5 widths incl. None x 5 moment vectors x batch; from_z/from_tau: n_pole 1..6 x n_mom 0..n_pole+1 x width x "
          "weights (none, uniform, power, batched) x occupation (none, 0, value) x data inside/outside the model class x batch shapes; up to 25 moments")
ASSUMPTIONS = ["reference optimum by an SVD null-space solution written here; optimality compared by objective value"]


def cheb(n):
    return np.sin(0.5 * np.pi / n * np.arange(-n + 1, n + 1, 2))


MOM = [[1.0, 0.3, 1.2, -0.4, 2.0, 0.1, 3.0], [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 2.0, 0.0, 1.0, 0.0],
       [2.0, -1.5, 0.7, 0.0, 0.3, -2.0, 1.0], [1.0, 0.05, 0.5, 0.1, 0.3, 0.0, 0.2]]
WIDTH = {"1": 1.0, "0.5": 0.5, "3": 3, "None": None, "7.5": 7.5}


def width_rule(width, mom, nmax_pole):
    """Documented: None -> largest pole matches the second moment unless it is small."""
    if width is not None:
        return float(width)
    if len(mom) <= 1 or abs(mom[1]) < 0.1:
        return 1.0
    return abs(mom[1]) / nmax_pole


def from_moments(c):
    n = c.choose("n_mom", range(8))
    width = c.choose("width", WIDTH)
    batch = c.choose("batch", ["none", "1", "5", "5x1", "list", "int"])
    rows = np.array(MOM)[:, :n]
    fct = c.choose("call", [pole.gf_from_moments, PoleFct.from_moments, PoleGf.from_moments])
    if batch in ("none", "list", "int"):
        for r in rows:
            if batch == "int":
                r = np.round(r).astype(int)
            p = fct(r.tolist() if batch == "list" else r, width=width)
            one(c, np.asarray(p.poles), np.asarray(p.residues), r, n, width)
        return
    r = dict(zip(("1", "5", "5x1"), (rows[:1], rows, rows[:, None])))[batch]
    p = fct(r, width=width)
    c.equal(p.residues.shape, r.shape, "residues batched like the moments")
    ps = np.broadcast_to(p.poles, r.shape)
    for idx in np.ndindex(r.shape[:-1]):
        one(c, ps[idx], p.residues[idx], r[idx], n, width)


def one(c, poles, res, mom, n, width):
    c.equal(poles.shape, (n,), "one pole per moment")
    if n == 0:
        return
    w = width_rule(width, mom, cheb(n)[-1] if n > 1 else 1)
    if n > 1 or width is not None:
        c.close(poles, w * cheb(n), "Chebyshev poles", rtol=0, atol=1e-12 * w)
    got = np.array([np.sum(res * poles**m) for m in range(n)])
    sc = np.array([np.sum(abs(res) * abs(poles)**m) for m in range(n)]) + 1
    c.close((got - mom) / sc, np.zeros(n), "moments reproduced", rtol=0, atol=1e-11)


def kkt(A, b, C, d):
    """min |Ax-b| s.t. Cx=d: value of the optimum and the minimiser."""
    if C.shape[0]:
        u, s, vt = np.linalg.svd(C)
        r = np.sum(s > 1e-12 * s[0])
        x0 = np.linalg.lstsq(C, d, rcond=1e-13)[0]
        N = vt[r:].T
    else:
        x0, N = np.zeros(A.shape[1]), np.eye(A.shape[1])
    if N.shape[1]:
        y = np.linalg.lstsq(A @ N, b - A @ x0, rcond=1e-15)[0]
        x0 = x0 + N @ y
    return np.linalg.norm(A @ x0 - b), x0


def weights(c, n):
    name = c.choose("weight", ["none", "ones", "power", "alternating"])
    return {"none": None, "ones": np.ones(n), "power": (1.0 + np.arange(n))**2, "alternating": 1.0 + (np.arange(n) % 2) * 9.0}[name]


def target(kind, poles, eval_fct):
    if kind == "model":
        res = np.cos(1.0 + np.arange(poles.size)) + 0.3
        return eval_fct(poles, res), res
    if kind == "outside":
        return eval_fct(np.array([-2.1, 0.35, 1.4]), np.array([0.2, 0.5, 0.3])), None
    return eval_fct(np.array([0.77]), np.array([1.0])), None


def judge(c, got_res, poles, A, b, wt, C, d, true):
    if wt is not None:
        A, b = A * wt[:, None], b * wt
    if C.shape[0]:
        sc = abs(C) @ abs(got_res) + abs(d) + 1e-3
        c.close((C @ got_res - d) / sc, np.zeros(C.shape[0]), "constraints satisfied exactly", rtol=0, atol=1e-10)
    best, _ = kkt(A, b, C, d)
    mine = np.linalg.norm(A @ got_res - b)
    c.check(mine <= best * (1 + 1e-6) + 1e-9 * (np.linalg.norm(b) + 1e-3), "least-squares optimal", mine=mine, best=best)
    if true is not None:
        cond = np.linalg.cond(A)
        if cond < 1e6:
            c.close(got_res, true, "representable data recovered", rtol=0, atol=1e-14 * cond * 300 + 1e-9)


def from_z(c):
    n_pole = c.choose("n_pole", range(1, 7))
    n_mom = c.choose("n_mom", range(n_pole + 2))
    width = c.choose("width", {"1": 1.0, "3": 3, "0.5": 0.5, "None": None})
    data = c.choose("data", ["model", "outside", "single"])
    grid = c.choose("grid", ["matsubara", "complex"])
    z = matsubara_frequencies(range(9), beta=5) if grid == "matsubara" else np.array([1j, -1 + 0.5j, 2 + 1j, -0.3 - 1j, 4j, 3 - 2j, 0.2 + 0.8j])
    wt = weights(c, z.size)

    def ev(p, r):
        return (r / (z[:, None] - p)).sum(-1)

    w = width
    guess = np.array([1.0, 0.4, 0.9, -0.2, 0.5, 0.1, 0.0])[:n_mom]
    wv = width_rule(width, guess, cheb(n_pole)[-1] if n_pole > 1 else 1)
    if width is None and n_mom > 1 and n_pole == 1:
        c.raises((ValueError, ZeroDivisionError, Exception), lambda: pole.gf_from_z(z, ev(np.array([0.0]), np.ones(1)), n_pole=1, moments=guess,
                                                                                 width=None), "over-constrained")
        return
    poles = wv * cheb(n_pole)
    val, true = target(data, poles, ev)
    mom = np.array([np.sum(true * poles**m) for m in range(n_mom)]) if true is not None else guess
    if width is None and true is not None:
        wv2 = width_rule(None, mom, cheb(n_pole)[-1] if n_pole > 1 else 1)
        poles = wv2 * cheb(n_pole)
        true = None
    if n_mom > n_pole:
        c.raises(ValueError, lambda: pole.gf_from_z(z, val, n_pole=n_pole, moments=mom, width=w, weight=wt), "over-constrained requests raise")
        return
    keep = (z.copy(), val.copy())
    res = PoleFct.from_z(z, val, n_pole=n_pole, moments=mom, width=w, weight=wt)
    c.check(np.array_equal(keep[0], z) and np.array_equal(keep[1], val), "input kept")
    c.close(res.poles, poles, "Chebyshev poles", rtol=0, atol=1e-12 * max(1, abs(poles).max()))
    c.check(np.isrealobj(res.residues), "real residues")
    M = 1 / (z[:, None] - poles)
    A, b = np.concatenate([M.real, M.imag]), np.concatenate([val.real, val.imag])
    w2 = None if wt is None else np.concatenate([wt, wt])
    judge(c, res.residues, poles, A, b, w2, np.power.outer(poles, np.arange(n_mom)).T, mom, true)


def from_tau(c):
    n_pole = c.choose("n_pole", range(1, 7))
    n_mom = c.choose("n_mom", range(n_pole + 2))
    occ_kind = c.choose("occ", ["none", "value", "zero", "one"])
    width = c.choose("width", {"1": 1.0, "3": 3, "0.5": 0.5})
    data = c.choose("data", ["model", "outside"])
    beta = c.choose("beta", [1.0, 8])
    n_tau = c.choose("n_tau", [12, 21])
    wt = weights(c, n_tau)
    tau = np.linspace(0, beta, n_tau)

    def ev(p, r):
        return -(r * np.exp(-tau[:, None] * p) / (1 + np.exp(-beta * p))).sum(-1)

    poles = width * cheb(n_pole)
    val, true = target(data, poles, ev)
    mom = np.array([np.sum(true * poles**m) for m in range(n_mom)]) if true is not None else np.array([1.0, 0.4, 0.9, -0.2, 0.5, 0.1, 0.0])[:n_mom]
    f = 1 / (np.exp(beta * poles) + 1)
    kw = {}
    C, d = np.power.outer(poles, np.arange(n_mom)).T, mom
    if occ_kind != "none":
        occ = {"value": float(np.sum(true * f)) if true is not None else 0.43, "zero": 0.0, "one": 1.0}[occ_kind]
        if occ_kind != "value":
            true = None
        kw["occ"] = occ
        C, d = np.concatenate([C, f[None]]), np.append(mom, occ)
    if n_mom + len(kw) > n_pole:
        c.raises(ValueError, lambda: pole.gf_from_tau(val, n_pole=n_pole, beta=beta, moments=mom, width=width, weight=wt, **kw),
                 "over-constrained requests raise")
        return
    # linearly dependent constraints (n = 1/2 sum w for symmetric poles ...) are not constraints of one solution: only independent ones
    s = np.linalg.svd(C, compute_uv=False) if len(C) else np.ones(1)
    c.require(s[-1] > 1e-5 * s[0])
    res = PoleGf.from_tau(val, n_pole=n_pole, beta=beta, moments=mom, width=width, weight=wt, **kw)
    c.close(res.poles, poles, "Chebyshev poles", rtol=0, atol=1e-12 * width)
    c.check(np.isrealobj(res.residues), "real residues")
    A = -np.exp(-tau[:, None] * poles) / (1 + np.exp(-beta * poles))
    judge(c, res.residues, poles, A, val, wt, C, d, true)
    if kw:
        c.close((res.occ(beta) - kw["occ"]) / (np.sum(abs(res.residues) * f) + 1e-3), 0.0, "occupation", rtol=0, atol=1e-10)


def batch(c):
    """Batched fits equal the separate fits."""
    what = c.choose("what", ["z", "tau"])
    shape = c.choose("batch", [(1,), (3,), (2, 2), (0,)])
    n_mom = c.choose("n_mom", [0, 1, 2])
    mom_b = c.choose("moments batched", [True, False])
    wb = c.choose("weight", ["none", "shared", "batched"])
    zb = c.choose("z batched", [False, True])
    width = c.choose("width", {"1.5": 1.5, "None": None})
    c.require(what == "z" or (width is not None and not zb))
    c.require(wb == "none" or np.prod(shape) > 0)
    n_pole, beta = 3, 5.0
    num = int(np.prod(shape))
    k = np.arange(num).reshape(shape)
    n = 9
    mom = (np.array([1.0, 0.4])[:n_mom] + 0.1 * k[..., None]) if mom_b else np.array([1.0, 0.4])[:n_mom]
    wt = {"none": None, "shared": 1.0 + np.arange(n), "batched": 1.0 + np.arange(n) * (1 + k[..., None])}[wb]
    if what == "z":
        z = matsubara_frequencies(range(n), beta=beta)
        z = z + (0.1 * k[..., None] if zb else 0)
        val = 0.6 / (z - 0.3 - 0.2 * k[..., None]) + 0.4 / (z + 1.1)

        def f(z, v, m, w):
            return pole.gf_from_z(z, v, n_pole=n_pole, moments=m, width=width, weight=w)
    else:
        tau = np.linspace(0, beta, n)
        e = 0.3 + 0.2 * k[..., None]
        z = tau
        val = -0.6 * np.exp(-tau * e) / (1 + np.exp(-beta * e)) - 0.4 * np.exp(-tau * 1.1) / (1 + np.exp(-beta * 1.1))

        def f(z, v, m, w):
            return pole.gf_from_tau(v, n_pole=n_pole, beta=beta, moments=m, width=width, weight=w)
    c.require(num > 0)
    got = f(z, val, mom, wt)
    c.equal(got.residues.shape, (*shape, n_pole), "shape of residues")
    for idx in np.ndindex(shape):
        one_ = f(z[idx] if zb else z, val[idx], mom[idx] if mom_b else mom, wt[idx] if wb == "batched" else wt)
        c.close(got.residues[idx], one_.residues, "batched = separate", rtol=1e-8, atol=1e-8)
        c.close(np.broadcast_to(got.poles, (*shape, n_pole))[idx], one_.poles, "batched poles", rtol=1e-12, atol=1e-14)


def defaults(c):
    """Omitted options have their documented values: width 1, no moments, no occupation, uniform weight."""
    n = c.choose("n_pole", range(1, 7))
    n_mom = c.choose("n_mom", range(0, 4))
    c.require(n_mom <= n)
    what = c.choose("what", ["from_moments", "from_z", "from_tau"])
    cls = c.choose("call", ["function", "PoleFct", "PoleGf"])
    mom = np.array(MOM[0])[:n_mom]
    beta = 2.5
    iws = 1j * np.pi * (2 * np.arange(40) + 1) / beta
    tau = np.linspace(0, beta, 41)
    eps, w = np.array([-0.6, 0.2, 0.9]), np.array([0.3, 0.5, 0.2])
    giw = np.sum(w / (iws[:, None] - eps), -1)
    gtau = -np.sum(w * np.exp(-np.multiply.outer(tau, eps)) / (1 + np.exp(-beta * eps)), -1)
    mk = {} if n_mom == 0 else dict(moments=mom)
    if what == "from_moments":
        f = dict(function=pole.gf_from_moments, PoleFct=PoleFct.from_moments, PoleGf=PoleGf.from_moments)[cls]
        a, b = f(mom), f(mom, width=1.0)
        m = n_mom
    elif what == "from_z":
        f = dict(function=pole.gf_from_z, PoleFct=PoleFct.from_z, PoleGf=PoleGf.from_z)[cls]
        a, b = f(iws, giw, n_pole=n, **mk), f(iws, giw, n_pole=n, moments=mom, width=1.0, weight=np.ones(40))
        m = n
    else:
        c.require(cls != "PoleFct")
        f = dict(function=pole.gf_from_tau, PoleGf=PoleGf.from_tau)[cls]
        a, b = f(gtau, n, beta, **mk), f(gtau, n_pole=n, beta=beta, moments=mom, occ=None, width=1.0, weight=np.ones(41))
        m = n
    c.check(isinstance(a, PoleGf if cls == "PoleGf" else PoleFct), "type of the result")
    c.close(a.poles, cheb(m) if m else np.zeros(0), "unit width", rtol=0, atol=1e-12)
    c.close(a.eval_z(iws), b.eval_z(iws), "defaults", rtol=0, atol=1e-9)


def large(c):
    """Many poles: still the Chebyshev points of the interval, constraints and data reproduced."""
    n = c.choose("n_pole", [16, 50, 128, 129, 200, 300])
    what = c.choose("what", ["from_z", "from_tau"])
    width = c.choose("width", [1.0, 2.5])
    n_mom = c.choose("n_mom", [0, 1, 3])
    beta = c.choose("beta", [4.0, 20.0])
    p0, r0 = np.array([-0.83, -0.2, 0.41, 0.7]), np.array([0.2, 0.3, 0.1, 0.4])
    mom = np.array([np.sum(r0 * p0**k) for k in range(n_mom)])
    z = matsubara_frequencies(range(400), beta=beta)
    tau = np.linspace(0, beta, 801)
    if what == "from_z":
        val = (r0 / (z[:, None] - p0)).sum(-1)
        got = PoleFct.from_z(z, val, n_pole=n, moments=mom, width=width)
        back = (got.residues / (z[:, None] - got.poles)).sum(-1)
    else:
        val = -(r0 * np.exp(-tau[:, None] * p0) / (1 + np.exp(-beta * p0))).sum(-1)
        got = PoleGf.from_tau(val, n_pole=n, beta=beta, moments=mom, width=width)
        back = -(got.residues * np.exp(-tau[:, None] * got.poles) / (1 + np.exp(-beta * got.poles))).sum(-1)
    c.equal(np.shape(got.poles), (n,), "number of poles")
    c.close(np.sort(got.poles), width * cheb(n), "Chebyshev poles", rtol=0, atol=1e-12 * width)
    c.close(np.array([np.sum(got.residues * got.poles**k) for k in range(n_mom)]), mom, "constraints", rtol=0, atol=1e-9)
    c.close(back, val, "data reproduced", rtol=0, atol=1e-5 if n > 16 else 5e-3)


def moments_large(c):
    """Many moments."""
    n = c.choose("n_mom", [8, 9, 10, 12, 16, 20, 25])
    width = c.choose("width", [1.0, 0.4, 3.0, None] if n <= 10 else [1.0, None])   # powers of the width spoil the conditioning
    batch = c.choose("batch", [(), (3,)])
    p0 = np.array([-0.9, -0.35, 0.1, 0.55, 0.8]) * (1.0 if width is None else width)
    w0 = np.array([0.1, 0.3, 0.2, 0.25, 0.15])
    mom = np.array([np.sum(w0 * p0**k) for k in range(n)])
    rows = mom if batch == () else np.stack([mom, 0.5 * mom, mom * (-1.0)**np.arange(n)])
    got = pole.gf_from_moments(rows, width=width)
    for i in np.ndindex(batch):
        one(c, np.broadcast_to(got.poles, rows.shape)[i], got.residues[i], rows[i], n, width)


HARNESSES = dict(moments_large=moments_large, large=large, defaults=defaults, from_moments=from_moments, from_z=from_z, from_tau=from_tau, batch=batch)
for _h in (from_z, from_tau):
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^pole\.(gf_from|PoleFct\.from|PoleGf\.from)", units=r"^pole\.from")
