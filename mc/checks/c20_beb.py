"""C20: Blackman-Esterling-Berk formalism."""
import itertools
from functools import partial

import numpy as np
import gftool as gt
from gftool import beb
from gftool.matrix import decompose_her

from .c19_cpa import ref_solve, bethe

BOUNDS = ("gf_loc_z: all Hermitian hopping matrices 1x1, 2x2 (6 diagonals x 5 off-diagonals) and 12 3x3 (full rank, rank deficient, negative, complex) x self-energies x z x 3 lattices x "
          "diag/full; solve_root: hopping x concentrations x energies x contours x restricted x start x batch; restriction to the lower half-plane; cut-off; SpecDec: truncation for every rank and cut-off; hopping matrices up to 10x10 of every kind of rank")
ASSUMPTIONS = ["reference: Gauss quadrature of the matrix resolvent over the density of states (exponentially convergent away from the real axis)"]

N_Q = 600
_k = np.arange(1, N_Q + 1)
_x_u, _w_u = np.cos(np.pi * _k / (N_Q + 1)), 2 / (N_Q + 1) * np.sin(np.pi * _k / (N_Q + 1))**2
_x_t, _w_t = np.cos(np.pi * (_k - 0.5) / N_Q), np.full(N_Q, 1 / N_Q)
_x_l, _w_l = np.polynomial.legendre.leggauss(300)
LAT = dict(
    bethe=(partial(gt.bethe_hilbert_transform, half_bandwidth=1.0), _x_u, _w_u),
    onedim=(partial(gt.onedim_gf_z, half_bandwidth=1.0), _x_t, _w_t),
    box=(partial(gt.lattice.box.gf_z, half_bandwidth=1.0), _x_l, 0.5 * _w_l),
)


def ref_gloc(z, sig, hop, lat):
    __, x, w = LAT[lat]
    n = len(hop)
    kern = np.asarray(z)[..., None, None, None] * np.eye(n) - np.asarray(sig)[..., None, :, :] - x[:, None, None] * hop
    return np.sum(w[:, None, None] * np.linalg.inv(kern), axis=-3)


H2 = [np.array([[a, t], [np.conj(t), b]]) for a, b in [(1.0, 1.0), (1.0, 0.5), (0.7, -0.4), (-1.0, -0.6), (0.0, 0.8), (0.0, 0.0)] for t in (0.0, 0.3, -1.0, 0.5j, 0.2 - 0.4j)]
_v = np.array([1.0, -0.5, 0.8])
_vc = np.array([1.0, 0.5j, 0.8 - 0.2j])
H3 = [np.ones((3, 3)), np.outer(_v, _v), np.outer(_vc, _vc.conj()), -np.outer(_v, _v), np.diag([1.0, 0.5, -0.3]), np.diag([1.0, 0.0, 0.4]), np.eye(3),
      np.array([[1.0, 0.3, 0.2], [0.3, 0.8, -0.1], [0.2, -0.1, 1.2]]), np.array([[1.0, 0.3j, 0.2], [-0.3j, 0.8, 0.1 - 0.1j], [0.2, 0.1 + 0.1j, 1.2]]),
      np.outer(_v, _v) + np.diag([0.0, 0.0, 0.5]), np.outer(_vc, _vc.conj()) - np.outer(_v, _v), np.zeros((3, 3))]
H1 = [np.array([[1.0]]), np.array([[-0.6]]), np.array([[0.0]]), np.array([[2]])]
HOP = H1 + H2 + H3
SIG = [np.diag([0.2 - 0.3j, -0.1 - 0.4j, 0.3 - 0.35j]),
       np.array([[0.178 - 0.53j, 0.1 + 0.1j, 0.05], [0.1 + 0.1j, -0.38 - 0.46j, -0.1j], [0.05, -0.1j, 0.1 - 0.3j]]),
       np.array([[0.1 - 0.53j, 0.2 + 0.1j, 0.05], [-0.1 + 0.1j, 0.38 - 0.46j, -0.1j], [0.15, 0.1j, 0.1 - 0.3j]])]


def good(hop, z, sig):
    """Diagonalisable problems only."""
    n = len(hop)
    __, vec = np.linalg.eig(np.linalg.inv(z * np.eye(n) - sig) @ hop)
    return np.linalg.cond(vec) < 1e5


def gf_loc(c):
    hop = HOP[c.choose("hopping", range(len(HOP)))]
    sig = SIG[c.choose("self-energy", range(len(SIG)))][:len(hop), :len(hop)]
    z = np.array(c.choose("z", [0.3j, 0.4 + 0.3j, -1.2 + 0.5j, 2j]))
    lat = c.choose("lattice", list(LAT))
    c.require(good(hop, z, sig))
    hil = LAT[lat][0]
    want = ref_gloc(z, sig, hop, lat)
    full = beb.gf_loc_z(z, sig, hop, hilbert_trafo=hil, diag=False)
    c.close(full, want, "full matrix", rtol=0, atol=1e-8)
    c.close(beb.gf_loc_z(z, sig, hop, hilbert_trafo=hil), np.diag(want), "diagonal (default)", rtol=0, atol=1e-8)
    c.close(beb.gf_loc_z(z, sig, hop, hilbert_trafo=hil, diag=True), np.diag(want), "diagonal", rtol=0, atol=1e-8)
    if not np.iscomplexobj(hop):
        c.close(beb.gf_loc_z(z, sig, hop.tolist(), hilbert_trafo=hil, diag=False), want, "hopping as list", rtol=0, atol=1e-8)


def gf_loc_batch(c):
    hop = HOP[c.choose("hopping", [4 + 6, 4 + 1, len(HOP) - 5, len(HOP) - 11])]
    zsh = c.choose("z shape", [(), (3,), (2, 3), (0,)])
    ssh = c.choose("self-energy batch", [(), (3,), (2, 1)])
    diag = c.choose("diag", [True, False])
    n = len(hop)
    z = np.asarray(0.3j + 0.2 * np.arange(int(np.prod(zsh))).reshape(zsh))
    if 0 in zsh:
        c.require(ssh != (3,))
    sig = SIG[1][:n, :n] + 0.1 * np.arange(int(np.prod(ssh))).reshape(ssh + (1, 1)) * np.eye(n)
    got = beb.gf_loc_z(z, sig, hop, hilbert_trafo=LAT["bethe"][0], diag=diag)
    out = np.broadcast_shapes(zsh, ssh)
    want = ref_gloc(np.broadcast_to(z, out), np.broadcast_to(sig, out + (n, n)), hop, "bethe")
    c.close(got, np.diagonal(want, axis1=-2, axis2=-1) if diag else want, "batch", rtol=0, atol=1e-8)


def gf_loc_rcond(c):
    """Singular values below rcond are treated as zero."""
    small = c.choose("small value", [1e-3, -1e-3, 1e-6])
    rc = c.choose("rcond", [None, 1e-8, 1e-2])
    diag = c.choose("diag", [True, False])
    u = np.array([[0.8, -0.6], [0.6, 0.8]])
    hop = u @ np.diag([1.3, small]) @ u.T
    eff = hop if rc != 1e-2 else u @ np.diag([1.3, 0]) @ u.T
    z, sig = np.array(0.2 + 0.4j), SIG[1][:2, :2]
    got = beb.gf_loc_z(z, sig, hop, hilbert_trafo=LAT["bethe"][0], diag=diag, rcond=rc)
    want = ref_gloc(z, sig, eff, "bethe")
    c.close(got, np.diag(want) if diag else want, "cut-off", rtol=0, atol=1e-7)


def specdec(c):
    hop = HOP[c.choose("hopping", range(len(HOP)))]
    rc = c.choose("rcond", [None, 0.1, 0.5])
    dec = beb.SpecDec(*decompose_her(hop))
    c.close(dec.reconstruct(), hop, "reconstruction", rtol=0, atol=1e-12)
    c.check(not dec.is_trunacted, "full")
    us, suh = dec.partition()
    c.close(us @ suh, hop, "partition", rtol=0, atol=1e-12)
    us, sq, suh = dec.partition(return_sqrts=True)
    c.close(us @ suh, hop, "partition with roots", rtol=0, atol=1e-12)
    c.close(sq**2, dec.eig, "roots", rtol=0, atol=1e-12)
    c.close(us, dec.u * sq, "scaled eigenvectors", rtol=0, atol=1e-12)
    c.close(suh, sq[:, None] * dec.uh, "scaled eigenvectors", rtol=0, atol=1e-12)
    cut = dec.truncate(rc) if rc is not None else dec.truncate()
    lim = (rc or 1e-13) * max(abs(dec.eig))
    keep = abs(dec.eig) > lim
    c.require(not np.any(abs(abs(dec.eig) - lim) < 1e-9) or rc is None)
    c.equal(cut.eig.shape, (int(keep.sum()),), "rank")
    c.check(cut.is_trunacted == (not keep.all()), "truncation flag")
    want = (dec.rv[:, keep] * dec.eig[keep]) @ dec.rv_inv[keep]
    c.close((cut.rv * cut.eig) @ cut.rv_inv, want, "truncated matrix", rtol=0, atol=1e-12)
    us, suh = cut.partition()
    c.close(us @ suh, want, "partition of the truncation", rtol=0, atol=1e-12)
    if rc is None:
        c.close(us @ suh, hop, "nothing lost", rtol=0, atol=1e-12)


def root_eq(c):
    """self_root_eq vanishes exactly for self-consistent self-energies: compare with definition for arbitrary ones."""
    hop = HOP[c.choose("hopping", [k for k in range(len(HOP)) if np.any(HOP[k])])]
    n = len(hop)
    sig = SIG[c.choose("self-energy", range(len(SIG)))][:n, :n]
    z = np.array(c.choose("z", [0.3j, -0.8 + 0.4j]))
    conc = np.array(c.choose("concentration", [[0.5, 0.3, 0.2], [1e-4, 0.6, 0.4]]))[:n]
    conc = conc / conc.sum()
    eps = np.array([-0.4, 0.3, 0.7])[:n]
    c.require(good(hop, z, sig))
    dec = beb.SpecDec(*decompose_her(hop)).truncate()
    got = beb.self_root_eq(sig, z, eps, conc, hopping_dec=dec, hilbert_trafo=LAT["bethe"][0])
    ginv = np.linalg.inv(ref_gloc(z, sig, hop, "bethe"))
    avg = (np.diag(ginv) + np.diag(sig) - eps) / conc
    c.close(got, ginv - np.diag(avg), "root equation", rtol=1e-6, atol=1e-6)
    res = beb.restrict_self_root_eq(sig.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=LAT["bethe"][0])
    c.close(res, ginv - np.diag(avg), "physical self-energies are not restricted", rtol=1e-6, atol=1e-6)
    bad = sig.copy()
    bad[0, 0] = bad[0, 0].conj()
    if good(hop, z, bad) and n > 1:
        res = beb.restrict_self_root_eq(bad.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=LAT["bethe"][0])
        c.check(abs(res[0, 0]) > 1e-6, "unphysical self-energies are no roots")


SOLVE_HOP = dict(ones=np.ones((2, 2)), full=np.array([[1.0, 0.3], [0.3, 1.2]]), rank1=np.array([[4.0, 6.0], [6.0, 9.0]]) / 9, neg=np.array([[0.5, 1.2], [1.2, 1.0]]),
                 diag=np.diag([1.0, 0.6]), three=H3[7], threer=np.outer(_v, _v), cplx=np.array([[1.0, 0.4j], [-0.4j, 0.8]]), one=np.array([[1.0]]))


def converge(z, eps, conc, hop, hil, **kw):
    """Root search; as single searches may fail (documented), slightly different ones have a second chance."""
    opt = dict(kw.pop("options"), maxiter=60)
    last = None
    for factor, shift in [(1, 0.0), (3, 0.0), (10, 0.02), (100, -0.03)]:
        kw["options"] = dict(opt, fatol=opt["fatol"] * factor)
        if "self_beb_z0" in kw:
            kw["self_beb_z0"] = kw["self_beb_z0"] + shift * np.eye(len(hop))
        try:
            return beb.solve_root(z, eps, conc, hop, hil, **kw)
        except RuntimeError as err:
            last = err
    raise last


def solve(c):
    hk = c.choose("hopping", list(SOLVE_HOP))
    conc = np.array(c.choose("concentration", [[0.5, 0.3, 0.2], [0.1, 0.6, 0.3]]))
    eps = np.array(c.choose("e_onsite", [[-0.3, 0.3, 0.1], [0.5, -0.2, 0.0], [0.2, 0.2, 0.2]]))
    zk = c.choose("z", c.pick(["iw", "single"], ["iw", "single", "shift", "grid"]))
    opt = c.choose("options", c.pick(["default", "start", "unrestricted"], ["default", "start", "unrestricted", "list", "rcond"]))
    lat = c.choose("lattice", c.pick(["bethe"], ["bethe", "box"]))
    hop = SOLVE_HOP[hk]
    n = len(hop)
    conc, eps = conc[:n] / conc[:n].sum(), eps[:n]
    z = dict(iw=1j * np.pi * (2 * np.arange(4) + 1) / 4, single=np.array(0.3 + 0.6j), shift=np.linspace(-1, 1, 3) + 0.5j, grid=np.linspace(-1, 1, 4).reshape(2, 2) + 0.8j)[zk]
    hil = LAT[lat][0]
    kw = dict(options=dict(fatol=1e-9))
    if opt == "start":
        kw["self_beb_z0"] = np.diag(eps) - 0.1j * np.eye(n)
    elif opt == "unrestricted":
        kw["restricted"] = False
    elif opt == "rcond":
        kw["rcond"] = 1e-10
    h = hop.tolist() if opt == "list" else hop
    sig = converge(z, eps, conc, h, hil, **kw)
    c.equal(sig.shape, z.shape + (n, n), "shape")
    g = ref_gloc(z, sig, hop, lat)
    off = g * (1 - np.eye(n))
    d = np.diagonal(g, axis1=-2, axis2=-1)
    s = np.diagonal(sig, axis1=-2, axis2=-1)
    c.close(off, np.zeros_like(off), "local Green's function is diagonal", rtol=0, atol=1e-6)
    c.close(conc / (1 / d + s - eps), d, "local Green's function is the average", rtol=0, atol=1e-6)
    c.check(np.all(s.imag <= 1e-5) and np.all(d.imag <= 1e-7), "physical signs")
    c.close(beb.gf_loc_z(z, sig, hop, hil), d, "gf_loc_z", rtol=0, atol=1e-6)
    if hk == "ones" and lat == "bethe":
        want, __ = ref_solve(z, eps, conc, bethe)
        c.close(d.sum(-1), bethe(z - want), "CPA limit", rtol=0, atol=1e-6)
    if hk == "one":
        c.close(sig[..., 0, 0], np.full(z.shape, eps[0]), "single component", rtol=0, atol=1e-6)


def solve_batch(c):
    zsh = c.choose("z shape", [(), (2,), (3, 2)])
    esh = c.choose("e_onsite batch", [(), (2,), (3, 1)])
    csh = c.choose("concentration batch", [(), (2,), (3, 1)])
    start = c.choose("start", ["none", "matrix", "full"])
    out = np.broadcast_shapes(zsh, esh, csh)

    def ar(sh):
        return np.arange(int(np.prod(sh))).reshape(sh)
    z = np.asarray(0.2 * ar(zsh) + 0.8j)
    eps = np.array([-0.3, 0.4]) + 0.1 * ar(esh)[..., None]
    x = 0.3 + 0.1 * ar(csh)
    conc = np.stack([x, 1 - x], axis=-1)
    hop = SOLVE_HOP["full"]
    kw = dict(options=dict(fatol=1e-9))
    if start == "matrix":
        kw["self_beb_z0"] = np.diag([-0.3, 0.4]) - 0.1j * np.eye(2)
    elif start == "full":
        kw["self_beb_z0"] = np.broadcast_to(np.diag([-0.3, 0.4]) - 0.1j * np.eye(2), out + (2, 2)).copy()
    sig = converge(z, eps, conc, hop, LAT["bethe"][0], **kw)
    c.equal(sig.shape, out + (2, 2), "shape")
    g = ref_gloc(np.broadcast_to(z, out), sig, hop, "bethe")
    d, s = np.diagonal(g, axis1=-2, axis2=-1), np.diagonal(sig, axis1=-2, axis2=-1)
    c.close(g * (1 - np.eye(2)), np.zeros(out + (2, 2)), "diagonal", rtol=0, atol=1e-6)
    c.close(conc / (1 / d + s - eps), d, "average", rtol=0, atol=1e-6)


def no_conv(c):
    it = c.choose("maxiter", [1, 2])
    hk = c.choose("hopping", ["full", "rank1", "neg"])
    z = np.linspace(-1, 1, 5) + 1e-2j
    c.raises(RuntimeError, lambda: beb.solve_root(z, np.array([-0.5, 0.5]), np.array([0.4, 0.6]), SOLVE_HOP[hk], LAT["bethe"][0], options=dict(maxiter=it, fatol=1e-14)), "RuntimeError")


def restrict(c):
    """Diagonal self-energies with positive imaginary part: roots of the unrestricted problem only."""
    re = c.choose("real", [0.0, 0.3, -0.8])
    im = c.choose("imag", [0.02, 0.2, 0.9])
    t = c.choose("hopping", [1.0, 0.5])
    way = c.choose("way", ["level", "projection", "solve", "solve unrestricted"])
    hop, conc = np.array([[t]]), np.array([1.0])
    hil = LAT["bethe"][0]
    dec = beb.SpecDec(*decompose_her(hop)).truncate()
    z = np.array([0.1 + 1.3j, -0.2 + 2j])
    sig = np.full((2, 1, 1), re + 1j * im)
    eps = np.array([re + 1j * im]) if way != "projection" else np.array([re + 0j])
    if way in ("level", "projection"):
        res = beb.restrict_self_root_eq(sig.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=hil)
        c.check(np.all(abs(res) > 5e-4 * im), "no root of the restricted equation", got=res)
        if way == "level":
            c.check(np.all(abs(beb.self_root_eq(sig.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=hil)) < 1e-10), "root of the unrestricted equation")
        half = sig.copy()
        half[1] = re - 0.1j       # only the first entry is unphysical
        res2 = beb.restrict_self_root_eq(half.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=hil)
        free = beb.self_root_eq(half.copy(), z, eps, conc, hopping_dec=dec, hilbert_trafo=hil)
        c.close(res2[1], free[1], "physical entries keep their residue", rtol=1e-9, atol=1e-9)
        c.check(abs(res2[0, 0, 0]) > 5e-4 * im, "unphysical entry is no root")
        return
    start = np.full((1, 1), re - 0.1j)
    kw = dict(options=dict(fatol=1e-10, maxiter=60), self_beb_z0=start)
    if way == "solve unrestricted":
        got = beb.solve_root(z, eps, conc, hop, hil, restricted=False, **kw)
        c.close(got, sig, "unrestricted root", rtol=0, atol=1e-6)
        return
    for opt in ({}, dict(restricted=True)):
        try:
            got = beb.solve_root(z, eps, conc, hop, hil, **opt, **kw)
        except RuntimeError:
            continue
        c.check(np.all(got.imag <= 1e-5), "restricted search returns no self-energy in the upper half-plane", got=got)


def solve_rcond(c):
    """The cut-off decides which hopping matrix is solved for."""
    small = c.choose("small value", [2e-3, -2e-3])
    rc = c.choose("rcond", [None, 1e-8, 1e-2])
    conc = np.array(c.choose("concentration", [[0.5, 0.5], [0.2, 0.8]]))
    z = np.array([0.2 + 0.4j, 1j])
    u = np.array([[0.8, -0.6], [0.6, 0.8]])
    hop = u @ np.diag([1.3, small]) @ u.T
    eff = hop if rc != 1e-2 else u @ np.diag([1.3, 0]) @ u.T
    eps = np.array([-0.3, 0.4])
    sig = converge(z, eps, conc, hop, LAT["bethe"][0], rcond=rc, options=dict(fatol=1e-11))
    g = ref_gloc(z, sig, eff, "bethe")
    d, s = np.diagonal(g, axis1=-2, axis2=-1), np.diagonal(sig, axis1=-2, axis2=-1)
    c.close(g * (1 - np.eye(2)), np.zeros_like(g), "diagonal", rtol=0, atol=1e-7)
    c.close(conc / (1 / d + s - eps), d, "average", rtol=0, atol=1e-7)


def sizes(c):
    """Many components."""
    n = c.choose("components", [4, 5, 6, 8, 10])
    rank = c.choose("rank", ["full", "n-1", 2, 1])
    kind = c.choose("data", ["real", "complex"])
    what = c.choose("what", ["gf_loc", "root_eq", "specdec"])
    rank = dict(full=n).get(rank, n - 1 if rank == "n-1" else rank)
    i = np.arange(n * n).reshape(n, n)
    m = np.cos(1.3 * i**2 + 0.2) + (1j * np.sin(0.7 * i**2) if kind == "complex" else 0)
    q, __ = np.linalg.qr(m)
    lam = np.where(np.arange(n) < rank, np.linspace(1.0, 0.3, n) * (-1.0)**np.arange(n), 0.0)
    hop = (q * lam) @ q.conj().T
    hop = 0.5 * (hop + hop.conj().T)
    z = np.array([0.4 + 0.8j, 1.5j])
    sig = np.diag(0.4 * np.cos(np.arange(n))) - 0.2j * np.eye(n) + 0.05 * np.cos(i + i.T)
    sig = np.stack([sig, 0.7 * sig])
    if what == "specdec":
        dec = beb.SpecDec(*decompose_her(hop)).truncate(1e-10)
        for got, want in zip(dec, [(n, rank), (rank,), (rank, n)]):
            c.equal(got.shape, want, "truncated to the rank")
        c.close(dec.reconstruct(), hop, "nothing lost", rtol=0, atol=1e-11)
        return
    c.require(all(good(hop, a, b) for a, b in zip(z, sig)))
    want = ref_gloc(z, sig, hop, "bethe")
    hil = LAT["bethe"][0]
    if what == "gf_loc":
        c.close(beb.gf_loc_z(z, sig, hop, hil, diag=False), want, "matrix", rtol=1e-7, atol=1e-7)
        c.close(beb.gf_loc_z(z, sig, hop, hil), np.diagonal(want, axis1=-2, axis2=-1), "diagonal", rtol=1e-7, atol=1e-7)
        return
    conc = 1 + 0.3 * np.sin(np.arange(n))
    conc, eps = conc / conc.sum(), 0.5 * np.cos(2.0 * np.arange(n))
    dec = beb.SpecDec(*decompose_her(hop)).truncate()
    ginv = np.linalg.inv(want)
    avg = (np.diagonal(ginv, axis1=-2, axis2=-1) + np.diagonal(sig, axis1=-2, axis2=-1) - eps) / conc
    c.close(beb.self_root_eq(sig, z, eps, conc, hopping_dec=dec, hilbert_trafo=hil), ginv - avg[..., None] * np.eye(n), "root equation", rtol=1e-6, atol=1e-6)


def ranges(c):
    """Weak and strong hopping, small and large self-energies, far frequencies."""
    hop = {"full": H3[7], "complex": H3[8], "rank1": H3[1], "indefinite": H3[10], "mixed": H2[12]}[c.choose("hopping", ["full", "complex", "rank1", "indefinite", "mixed"])]
    n = len(hop)
    hop = hop * c.choose("hopping scale", [1e-6, 1e-3, 0.1, 1.0, 30.0])
    sig = SIG[c.choose("self-energy", range(len(SIG)))][:n, :n] * c.choose("self-energy scale", [0.0, 1e-8, 1e-3, 1.0, 30.0, 1e5])
    lat = c.choose("lattice", list(LAT))
    off = np.max(abs(hop)) * np.array([0.5j, -0.3 + 0.9j, 20 + 1j, -3e3j, 1e5 + 2e5j])
    z = off if np.max(abs(sig)) == 0 else np.r_[off[:2], off[3], 1e3j, -20 + 20j]
    z = np.where(z.imag < 0, z.conj(), z)
    for x in z:
        if not good(hop, x, sig):
            c.require(False)
    if lat == "box":   # the logarithm is ill-conditioned far from the band
        c.require(max(1e3, np.max(abs(z)), np.max(abs(sig))) < 1e5 * np.max(abs(hop)))
    want = ref_gloc(z, sig, hop, lat)
    size = np.max(abs(want), axis=(-1, -2), keepdims=True)
    full = beb.gf_loc_z(z, sig, hop, hilbert_trafo=LAT[lat][0], diag=False)
    c.close(full / size, want / size, "full matrix", rtol=0, atol=1e-7)
    diag = beb.gf_loc_z(z, sig, hop, hilbert_trafo=LAT[lat][0])
    c.close(diag / size[..., 0], np.diagonal(want, axis1=-2, axis2=-1) / size[..., 0], "diagonal", rtol=0, atol=1e-7)


HARNESSES = dict(ranges=ranges, sizes=sizes, restrict=restrict, solve_rcond=solve_rcond, gf_loc=gf_loc, gf_loc_batch=gf_loc_batch, gf_loc_rcond=gf_loc_rcond, specdec=specdec, root_eq=root_eq, solve=solve, solve_batch=solve_batch, no_conv=no_conv)
HARNESSES["solve"].shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^beb\.", units=r"^beb\.", origin=r"^beb$")
