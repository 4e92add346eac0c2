"""C19: coherent potential approximation."""
from functools import partial

import numpy as np
import gftool as gt
from gftool import cpa

BOUNDS = ("equations: 1..3 components x concentrations x energies x self-energies x 5 lattices; solve_root: components 1..3 x 4 concentrations (incl. 0 and 1) x energies x "
          "lattices x 3 frequency contours x restricted/unrestricted x start values x solver options; frequency dependent on-site energies; all batch layouts of z/e_onsite/"
          "concentration; restriction to the lower half-plane; solve_fxdocc_root: occupations x disorder x start mu x Matsubara/Pade/fit; occupation = density_iw of the given weights and n_fit 0..3 for 8, 20, 50 frequencies; forced non-convergence; up to 20 components and 300 frequencies")
ASSUMPTIONS = ["reference: fixed-point iteration of the averaged locator equation (independent implementation) to 1e-13",
               "solver accuracy: default tolerance 5e-4 on G, tight (fatol=1e-12) 1e-8; a positive imaginary part is only penalised with 1e-3 (documented), hence 1e5 fatol"]


def bethe(z, d=1.0):
    zr = z / d
    return 2 / d / zr / (1 + np.sqrt(1 - zr**-2))


def onedim(z, d=1.0):
    return 1 / (z * np.sqrt(1 - (d / z)**2))


def box(z, d=1.0):
    return 0.5 / d * np.log((z + d) / (z - d))


LAT = dict(
    bethe=(partial(gt.bethe_gf_z, half_bandwidth=1.0), bethe),
    bethe2=(partial(gt.bethe_hilbert_transform, half_bandwidth=2.0), partial(bethe, d=2.0)),
    onedim=(partial(gt.onedim_gf_z, half_bandwidth=1.0), onedim),
    box=(partial(gt.lattice.box.gf_z, half_bandwidth=1.0), box),
    atom=(lambda z: 1 / z, lambda z: 1 / z),
)


def ref_solve(z, eps, conc, hilbert, itr=4000):
    """Fixed point Sigma = z-shifted locator: 1/G_avg - 1/G + Sigma."""
    z, eps, conc = np.asarray(z), np.asarray(eps, complex), np.asarray(conc, float)
    sig = np.sum(eps * conc, axis=-1) + 0 * z
    for __ in range(itr):
        g = hilbert(z - sig)
        xi = 1 / g + sig                 # inverse of the impurity bath function
        avg = np.sum(conc / (xi[..., None] - eps), axis=-1)
        new = xi - 1 / avg
        diff = np.max(np.abs(new - sig), initial=0)
        sig = new
        if diff < 1e-14:
            break
    return sig, diff


def converge(fct, *args, **kw):
    """Root search; as single searches may fail (documented), slightly different ones have a second chance."""
    opt = kw.get("options")
    if opt and "method" not in kw:
        kw["options"] = opt = dict(opt, maxiter=60)
    try:
        return fct(*args, **kw)
    except RuntimeError:
        pass
    for factor, shift in [(3, 0.0), (10, 0.02), (100, -0.03)]:
        if opt:
            kw["options"] = {k: v * factor if k.endswith("tol") else v for k, v in opt.items()}
        if fct is cpa.solve_fxdocc_root:
            kw["mu0"] = kw.get("mu0", 0.0) + shift
        elif "self_cpa_z0" in kw:
            kw["self_cpa_z0"] = kw["self_cpa_z0"] + shift
        try:
            return fct(*args, **kw)
        except RuntimeError as err:
            last = err
    raise last


def equations(c):
    hil, ref = c.choose("lattice", LAT)
    n = c.choose("components", [1, 2, 3])
    eps = np.array(c.choose("e_onsite", [[0.0, 0.0, 0.0], [-0.5, 0.5, 0.1], [1.0, -2.0, 0.3], [0.2 - 0.3j, -0.4 - 0.1j, 0.1]])[:n])
    conc = np.array(c.choose("concentration", [[0.5, 0.5, 0.0], [0.3, 0.6, 0.1], [1.0, 0.0, 0.0]])[:n])
    z = np.array(c.choose("z", [0.1 + 0.2j, -1.3 + 0.05j, 2j, -0.4 - 0.3j]))
    sig = np.array(c.choose("self-energy", [0.3 - 0.1j, -0.7 - 1.2j, 0.0j, 0.2 + 0.4j]))
    g = ref(z - sig)
    got = cpa.gf_cmpt_z(z, sig, eps, hilbert_trafo=hil)
    want = 1 / (1 / g + sig - eps)
    c.close(got, want, "component Green's function", rtol=1e-9, atol=1e-11)
    T = np.sum(conc * (eps - sig) / (1 - (eps - sig) * g))
    c.require(abs(1 + T * g) > 1e-6)
    r = T / (1 + T * g)
    got = cpa.self_root_eq(sig, z, eps, conc, hilbert_trafo=hil)
    c.close(got, r, "root equation", rtol=1e-8, atol=1e-10)
    c.close(cpa.self_fxdpnt_eq(sig, z, eps, conc, hilbert_trafo=hil), sig + r, "fixed-point equation", rtol=1e-8, atol=1e-10)
    res = cpa.restrict_self_root_eq(sig.copy(), z, eps, conc, hilbert_trafo=hil)
    if sig.imag <= 0:
        c.close(res, r, "physical self-energies are not restricted", rtol=1e-8, atol=1e-10)
    else:
        c.check(abs(res) > 1e-6, "unphysical self-energies are no roots", got=res)


def restrict_batch(c):
    """Every pattern of physical/unphysical entries of an array."""
    pat = c.choose("pattern", [tuple((k >> i) & 1 for i in range(3)) for k in range(8)])
    eps, conc = np.array([-0.4, 0.7]), np.array([0.35, 0.65])
    hil, ref = LAT["bethe"]
    z = np.array([0.2 + 0.3j, -0.5 + 0.2j, 1j])
    good = np.array([0.1 - 0.2j, -0.3 - 0.05j, 0.2 - 0.4j])
    sig = np.where(pat, good.conj(), good)
    base = cpa.self_root_eq(np.where(pat, good.real, good), z, eps, conc, hil)
    res = cpa.restrict_self_root_eq(sig.copy(), z, eps, conc, hil)
    for i, p in enumerate(pat):
        if not p:
            c.close(res[i], base[i], "physical entries keep their residue", rtol=1e-10, atol=1e-12)
        else:
            c.check(abs(res[i]) > 1e-6, "unphysical entry is no root")
    # even the exact root with flipped sign is rejected
    exact, __ = ref_solve(z, eps, conc, ref)
    flip = np.where(pat, exact.conj(), exact)
    res = cpa.restrict_self_root_eq(flip.copy(), z, eps, conc, hil)
    for i, p in enumerate(pat):
        c.check((abs(res[i]) < 1e-8) == (not p), "exactly the physical roots are roots")


CONC = {1: [[1.0]], 2: [[0.5, 0.5], [0.2, 0.8], [1.0, 0.0], [0.0, 1.0]], 3: [[0.3, 0.3, 0.4], [0.1, 0.0, 0.9], [0.0, 1.0, 0.0]]}
EPS = {1: [[0.0], [-0.7]], 2: [[0.0, 0.0], [-0.3, 0.3], [0.6, -0.6], [0.4, 1.1]], 3: [[-0.5, 0.0, 0.5], [0.7, -0.2, -0.2]]}
ZZ = dict(iw=1j * np.pi * (2 * np.arange(6) + 1) / 5, shift=np.linspace(-2, 2, 7) + 0.2j, single=np.array(0.3 + 0.25j), grid=np.linspace(-2, 2, 6).reshape(2, 3) + 0.4j)


def solve(c):
    lat = c.choose("lattice", ["bethe", "bethe2", "onedim", "box"])
    n = c.choose("components", [1, 2, 3])
    conc = c.choose("concentration", CONC[n])
    eps = c.choose("e_onsite", EPS[n])
    zk = c.choose("z", c.pick(["iw", "shift", "single"], list(ZZ)))
    opt = c.choose("options", c.pick(["default", "tight", "unrestricted", "start"], ["default", "tight", "unrestricted", "start", "start scalar", "krylov"] ))
    hil, ref = LAT[lat]
    z = ZZ[zk]
    want, diff = ref_solve(z, eps, conc, ref)
    c.require(diff < 1e-10)
    kw, tol = {}, 5e-4
    if opt == "tight":
        kw["options"], tol = dict(fatol=1e-12), 1e-8
    elif opt == "unrestricted":
        kw["restricted"] = False
        c.require(zk in ("iw", "grid"))
    elif opt == "start":
        kw["options"], tol = dict(fatol=1e-11), 1e-6
        kw["self_cpa_z0"] = np.full(z.shape, np.mean(eps) - 0.1j)
    elif opt == "start scalar":
        kw["options"], tol = dict(fatol=1e-11), 1e-6
        kw["self_cpa_z0"] = np.array(np.mean(eps) + 0.0j)
    elif opt != "default":
        kw["method"] = opt
    # a self-energy on the boundary of the restriction is only reliably found from the default start
    c.require(not opt.startswith("start") or np.all(want.imag < -1e-3))
    e = np.array(eps)
    got = converge(cpa.solve_root, z, e, conc, hil, **kw)
    c.close(got, want, f"self-energy {opt}", rtol=0, atol=tol * 10)
    g = hil(z - got)
    gc = cpa.gf_cmpt_z(z, got, e, hil)
    c.close(np.sum(np.array(conc) * gc, axis=-1), g, f"average {opt}", rtol=0, atol=tol)
    c.check(np.all(got.imag <= tol), "physical sign")
    if np.count_nonzero(conc) == 1:
        c.close(got, np.full(z.shape, e[np.argmax(conc)]), "pure component", rtol=0, atol=tol * 10)
    if len(set(eps)) == 1:
        c.close(got, np.full(z.shape, e[0]), "no disorder", rtol=0, atol=tol * 10)


def batches(c):
    """Broadcasting of z, e_onsite and concentration; lists; local self-energies."""
    zsh = c.choose("z shape", [(), (4,), (2, 4), (2, 1)])
    esh = c.choose("e_onsite batch", [(), (4,), (2, 1), (2, 4)])
    csh = c.choose("concentration batch", [(), (4,), (2, 1)])
    cplx = c.choose("e_onsite", ["real", "complex"])
    start = c.choose("start", [False, True])
    out = np.broadcast_shapes(zsh, esh, csh)
    size = lambda sh: int(np.prod(sh))  # noqa: E731
    z = np.linspace(-0.8, 0.9, max(size(zsh), 2))[:size(zsh)].reshape(zsh) + 0.5j
    e = np.array([-0.4, 0.5]) + 0.2 * np.cos(np.arange(size(esh))).reshape(esh + (1,)) * np.array([1, -0.5])
    if cplx == "complex":
        e = e - 0.1j * np.array([1, 2.0])
    x = np.linspace(0.2, 0.7, max(size(csh), 2))[:size(csh)].reshape(csh)
    conc = np.stack([x, 1 - x], axis=-1)
    hil, ref = LAT["bethe"]
    kw = dict(self_cpa_z0=np.full(out, 0.1 - 0.2j)) if start else {}
    if start is False:
        c.require(np.broadcast_shapes(esh, csh, zsh) == out)
    got = converge(cpa.solve_root, z, e, conc, hil, options=dict(fatol=1e-10), **kw)
    zb = np.broadcast_to(z, out)
    eb, cb = np.broadcast_to(e, out + (2,)), np.broadcast_to(conc, out + (2,))
    want, diff = ref_solve(zb, eb, cb, ref)
    c.require(diff < 1e-10)
    c.close(got, want, "self-energy", rtol=0, atol=1e-6)
    if esh == ():
        got = converge(cpa.solve_root, z, e if start else e.tolist(), conc.tolist(), hil, options=dict(fatol=1e-10), **kw)
        c.close(got, want, "lists", rtol=0, atol=1e-6)


def no_conv(c):
    it = c.choose("maxiter", [1, 2])
    restricted = c.choose("restricted", [True, False])
    fct = c.choose("function", ["solve_root", "solve_fxdocc_root"])
    hil = LAT["bethe"][0]
    iws = 1j * np.pi * (2 * np.arange(30) + 1) / 20
    if fct == "solve_root":
        c.raises(RuntimeError, lambda: cpa.solve_root(np.linspace(-1, 1, 20) + 1e-2j, [-0.5, 0.5], [0.4, 0.6], hil, restricted=restricted,
                                                      options=dict(maxiter=it, fatol=1e-14)), "RuntimeError")
    else:
        c.raises(RuntimeError, lambda: cpa.solve_fxdocc_root(iws, [-0.5, 0.9], [0.4, 0.6], hil, beta=20, occ=0.3, restricted=restricted,
                                                             options=dict(maxiter=it, fatol=1e-14)), "RuntimeError")


def fxdocc(c):
    occ = c.choose("occ", [0.2, 0.5, 0.85])
    delta = c.choose("disorder", [0.0, 0.8, 1.6])
    conc = c.choose("concentration", [[0.5, 0.5], [0.3, 0.7], [1.0, 0.0]])
    off = c.choose("offset", [0.0, -0.9])
    freq = c.choose("frequencies", ["iw", "iw fit", "izp"])
    opt = c.choose("options", c.pick(["default", "mu0", "start"], ["default", "mu0", "start", "unrestricted"]))
    beta = 6.0
    hil, ref = LAT["bethe"]
    kw = {}
    if freq == "izp":
        iws, rp = gt.pade_frequencies(25, beta=beta)
        kw["weights"] = rp
    else:
        iws, rp = gt.matsubara_frequencies(range(200), beta=beta), 1.0
        if freq == "iw fit":
            kw["n_fit"] = 1
    eps = np.array([-0.5 * delta, 0.5 * delta]) + off
    if opt == "mu0":
        kw["mu0"] = -0.8
    elif opt == "start":
        kw["mu0"] = 0.3
        kw["self_cpa_iw0"] = np.full(iws.shape, np.sum(eps * conc) - 0.3 - 0.05j)
    elif opt == "unrestricted":
        kw["restricted"] = False
    sol = converge(cpa.solve_fxdocc_root, iws, eps, conc, hil, beta=beta, occ=occ, options=dict(fatol=1e-10), **kw)
    sig, mu = sol
    c.check(sol.mu == mu and np.array_equal(sol.self_cpa, sig), "named result")
    c.check(isinstance(mu, float), "mu is a float")
    c.equal(sig.shape, iws.shape, "shape")
    want, diff = ref_solve(iws, eps - mu, conc, ref)
    c.require(diff < 1e-10)
    c.close(sig, want, "CPA self-energy at e_onsite - mu", rtol=0, atol=1e-6)
    # independent occupation: very accurate Pade summation of the reference solution
    izp, r = gt.pade_frequencies(40, beta=beta)
    ref_s, __ = ref_solve(izp, eps - mu, conc, ref)
    n_ref = 0.5 + 2 / beta * np.sum(r * np.real(ref(izp - ref_s)))
    c.close(n_ref, occ, f"occupation {freq}", rtol=0, atol=dict(izp=1e-7).get(freq, 1e-5))


def fxdocc_batch(c):
    shape = c.choose("batch", [(1,), (2,), (3,)])
    occ = c.choose("total occ", [0.3, 0.6])
    share = c.choose("concentration", ["shared", "batched"])
    nb = shape[0]
    beta = 6.0
    hil, ref = LAT["bethe"]
    izp, rp = gt.pade_frequencies(25, beta=beta)
    eps = np.array([-0.4, 0.4]) + 0.3 * np.arange(nb)[:, None]
    x = 0.3 + 0.2 * np.arange(nb)
    conc = np.stack([x, 1 - x], axis=-1) if share == "batched" else np.array([0.3, 0.7])
    sig, mu = converge(cpa.solve_fxdocc_root, izp, eps[:, None, :], conc, hil, beta=beta, occ=occ * nb, weights=rp, options=dict(fatol=1e-10))
    c.equal(sig.shape, (nb, izp.size), "shape")
    want, diff = ref_solve(np.broadcast_to(izp, (nb, izp.size)), eps[:, None, :] - mu, conc[..., None, :] if share == "batched" else conc, ref)
    c.close(sig, want, "CPA self-energies", rtol=0, atol=1e-6)
    n = 0.5 + 2 / beta * np.sum(rp * np.real(ref(izp - want)), axis=-1)
    c.close(np.sum(n), occ * nb, "total occupation", rtol=0, atol=1e-6)


def restrict_exact(c):
    """Roots with positive imaginary part are roots of the unrestricted equation only."""
    hil, ref = c.choose("lattice", LAT)
    re = c.choose("real", [0.0, 0.3, -0.8])
    im = c.choose("imag", [1e-2, 0.2, 0.9, 3.0])
    z = np.array(c.choose("z", [0.1 + 0.2j, -1.3 + 0.05j, 2j]))
    way = c.choose("conflict", ["level", "self-energy", "batch"])
    conc = np.array([1.0, 0.0])
    sig = np.array(re + 1j * im)
    c.require(abs((z - sig).imag) > 1e-2)
    if way == "level":      # exact root in the upper half-plane
        eps = np.array([re + 1j * im, 0.4])
        c.check(abs(cpa.self_root_eq(sig.copy(), z, eps, conc, hil)) < 1e-12, "root of the unrestricted equation")
        c.check(abs(cpa.restrict_self_root_eq(sig.copy(), z, eps, conc, hil)) > 5e-4 * im, "no root of the restricted equation")
    elif way == "self-energy":      # the projection onto the boundary is a root
        eps = np.array([re, 0.4])
        c.check(abs(cpa.restrict_self_root_eq(sig.copy(), z, eps, conc, hil)) > 5e-4 * im, "penalty for positive imaginary part")
        c.check(abs(cpa.restrict_self_root_eq(np.array(re - 0j), z, eps, conc, hil)) < 1e-12, "boundary is allowed")
    else:
        eps = np.array([re, 0.4])
        res = cpa.restrict_self_root_eq(np.array([re, re + 1j * im, re - 0.1j]), z, eps, conc, hil)
        c.check(abs(res[0]) < 1e-12 and abs(res[1]) > 5e-4 * im and abs(res[2]) > 1e-3, "only the boundary entry is a root", got=res)


def restrict_solve(c):
    """A single level in the upper half-plane is found by the unrestricted search only."""
    lat = c.choose("lattice", ["bethe", "box"])
    re = c.choose("real", [0.0, 0.3, -0.8])
    im = c.choose("imag", [0.1, 0.4])
    restricted = c.choose("restricted", ["default", True, False])
    fct = c.choose("function", ["solve_root", "solve_fxdocc_root"])
    hil, ref = LAT[lat]
    eps, conc = np.array([re + 1j * im, 0.4]), np.array([1.0, 0.0])
    kw = {} if restricted == "default" else dict(restricted=restricted)
    kw["options"] = dict(fatol=1e-10, maxiter=60)
    iws = gt.matsubara_frequencies(range(30), beta=5)
    if fct == "solve_root":
        solve_ = partial(cpa.solve_root, np.array([0.2 + 1j, -0.3 + 2j]), eps, conc, hil, **kw)
    else:
        solve_ = partial(cpa.solve_fxdocc_root, iws, eps, conc, hil, beta=5, occ=0.4, **kw)
    if restricted is False:
        res = solve_()
        sig, mu = (res, 0) if fct == "solve_root" else res
        c.close(sig, np.full(np.shape(sig), eps[0] - mu), "unrestricted root", rtol=0, atol=1e-6)
    else:
        try:
            res = solve_()
        except RuntimeError:
            return
        sig = res if fct == "solve_root" else res.self_cpa
        c.check(np.all(sig.imag <= 1e-5), "restricted search returns no self-energy in the upper half-plane", got=sig)


def fxdocc_density(c):
    """`occ` is the density of `density_iw` with the weights and fit given by the user, even if few frequencies make it inaccurate."""
    occ = c.choose("occ", c.pick([0.25], [0.25, 0.6]))
    lat = c.choose("lattice", ["bethe", "box"])
    delta = c.choose("disorder", [0.5, 1.4])
    nfreq = c.choose("frequencies", c.pick([8, 50], [8, 20, 50]))
    fit = c.choose("n_fit", ["default", 0, 1, 2, 3])
    wei = c.choose("weights", ["default", "pade", "array of 1"])
    method = c.choose("method", ["default", "hybr"] if nfreq == 8 else c.pick(["default"], ["default", "hybr"]))
    beta = 4.0
    hil, ref = LAT[lat]
    if wei == "pade":
        nfreq = min(nfreq, 20)
        iws, rp = gt.pade_frequencies(nfreq, beta=beta)
        kw = dict(weights=rp)
    else:
        iws = gt.matsubara_frequencies(range(nfreq), beta=beta)
        kw = {} if wei == "default" else dict(weights=np.ones(nfreq))
    if fit != "default":
        kw["n_fit"] = fit
    eps, conc = np.array([-0.5, 0.5]) * delta + 0.2, np.array([0.35, 0.65])
    seen = []
    if method != "default":
        sol_kw = dict(method=method)
    else:
        sol_kw = dict(callback=lambda x, f: seen.append(np.max(np.abs(f))))
    sig, mu = converge(cpa.solve_fxdocc_root, iws, eps, conc, hil, beta=beta, occ=occ, options=dict(fatol=1e-10) if method == "default" else dict(xtol=1e-11), **sol_kw, **kw)
    c.check(method != "default" or len(seen) > 0, "callback of the user is called")
    want, diff = ref_solve(iws, eps - mu, conc, ref)
    c.require(diff < 1e-10)
    c.close(sig, want, "CPA self-energy at e_onsite - mu", rtol=0, atol=1e-6)
    n = gt.density_iw(iws, ref(iws - want), beta=beta, moments=[1, want[-1].real], **kw)
    c.close(n, occ, "occupation as given by density_iw", rtol=0, atol=1e-6)


def sizes(c):
    """Many components, many frequencies."""
    n = c.choose("components", [4, 5, 6, 7, 9, 12, 20])
    nz = c.choose("n_z", [1, 40, 300])
    lat = c.choose("lattice", ["bethe", "box"])
    what = c.choose("what", ["equations", "solve"])
    hil, ref = LAT[lat]
    eps = np.cos(1.0 + 1.3 * np.arange(n)**2)
    conc = 1.0 + 0.5 * np.sin(np.arange(n))
    conc = conc / np.sum(conc)
    z = np.linspace(-2, 2, nz + 1)[1:] + 0.5j
    if what == "equations":
        sig = 0.3 * np.cos(np.arange(nz)) - 0.2j
        g = ref(z - sig)
        d = eps - sig[:, None]
        c.close(cpa.gf_cmpt_z(z, sig, eps, hilbert_trafo=hil), 1 / (1 / g[:, None] - d), "component Green's functions", rtol=1e-9, atol=1e-11)
        T = np.sum(conc * d / (1 - d * g[:, None]), axis=-1)
        c.close(cpa.self_root_eq(sig, z, eps, conc, hilbert_trafo=hil), T / (1 + T * g), "root equation", rtol=1e-8, atol=1e-10)
        c.close(cpa.self_fxdpnt_eq(sig, z, eps, conc, hilbert_trafo=hil), sig + T / (1 + T * g), "fixed-point equation", rtol=1e-8, atol=1e-10)
        return
    want, diff = ref_solve(z, eps, conc, ref)
    c.require(diff < 1e-10)
    got = converge(cpa.solve_root, z, eps, conc, hil, options=dict(fatol=1e-10))
    c.close(got, want, "self-energy", rtol=0, atol=1e-6)


def ranges(c):
    """The equations over many orders of magnitude of on-site energies, concentrations, self-energies and frequencies."""
    lat = c.choose("lattice", ["bethe", "box"])
    hil, ref = LAT[lat]
    eps = c.choose("e_scale", [1e-9, 1e-4, 0.3, 50.0, 1e6]) * np.array([1.0, -0.4, 0.7])
    conc = c.choose("concentration", {"mixed": [0.5, 0.2, 0.3], "dilute": [1 - 2e-6, 1e-6, 1e-6], "very": [1 - 3e-12, 1e-12, 2e-12], "none": [0.6, 0.4, 0.0]})
    conc = np.array(conc)
    s = c.choose("self_energy", [0.0, 1e-9, 1e-4, 0.2, 5.0, 1e4])
    direction = c.choose("direction", {"imag": -1j, "real": 1.0, "both": -0.6 - 0.8j})
    c.require(s != 0 or direction == -1j)
    sig = s * direction * np.array([1.0, 0.5, 2.0, 1.0, 1.5, 1.0])
    z = np.array([0.1 + 0.3j, -0.7 + 1e-3j, 2.0 + 0.5j, 30j, 1e4 + 1j, -400 + 1e-2j])
    g = ref(z - sig)
    d = eps - sig[:, None]
    den = 1 - d * g[:, None]
    cond = np.max((1 + abs(d * g[:, None])) / abs(den))
    c.require(cond < 1e3)
    c.close(cpa.gf_cmpt_z(z, sig, eps, hilbert_trafo=hil) / (g[:, None] / den), np.ones(den.shape), "component Green's functions", rtol=0, atol=1e-9)
    part = conc * d / den
    T = np.sum(part, axis=-1)
    size = np.sum(abs(part), axis=-1)
    end = 1 + T * g
    c.require(np.all(abs(end) > 1e-3 * (1 + size * abs(g))))
    root = T / end
    tol = 1e-9 * (1 + size * abs(g)) * size / abs(end)**2 + 1e-300
    c.check(np.all(abs(cpa.self_root_eq(sig, z, eps, conc, hilbert_trafo=hil) - root) <= tol), "root equation", got=cpa.self_root_eq(sig, z, eps, conc, hilbert_trafo=hil), want=root)
    c.check(np.all(abs(cpa.self_fxdpnt_eq(sig, z, eps, conc, hilbert_trafo=hil) - (sig + root)) <= tol + 1e-12 * abs(sig)), "fixed-point equation", want=sig + root)
    # sum rule: the average of the components at the fixed point, and the identity of pure systems
    c.close(cpa.self_root_eq(sig, z, eps[:1], [1.0], hilbert_trafo=hil) + sig, eps[0] + 0 * sig, "pure system", rtol=0, atol=1e-9 * cond**2 * np.max(abs(d)) + 1e-300)


HARNESSES = dict(ranges=ranges, sizes=sizes, equations=equations, restrict_exact=restrict_exact, restrict_solve=restrict_solve, fxdocc_density=fxdocc_density, restrict_batch=restrict_batch, solve=solve, batches=batches, no_conv=no_conv, fxdocc=fxdocc, fxdocc_batch=fxdocc_batch)
for _h in ("ranges", "equations", "fxdocc_density", "restrict_solve", "solve", "batches", "fxdocc"):
    HARNESSES[_h].shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^cpa\.", units=r"^cpa\.", origin=r"^cpa$")
