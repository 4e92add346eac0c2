"""Catalogue of public calls, used by the purity (C30) and batching (C31) checks.

Every entry names a public function and builds its arguments for a variant
number `v`, so that the same entry yields arbitrarily many distinct, admissible
argument tuples.  `core` is the number of core dimensions of an argument that
is documented to be stackable, `None` marks an argument that is not.
"""
from dataclasses import dataclass, field, fields, is_dataclass

import numpy as np
import gftool as gt
import gftool.hermpade as hp
import gftool.linearprediction as lp
import gftool.matrix as gm
import gftool.pade as gp
from gftool import beb, cpa, fourier, linalg, polepade, siam
from gftool.basis import ZeroPole, pole


@dataclass
class Arg:
    make: object
    core: object = None
    name: object = None       # keyword name


@dataclass
class Entry:
    name: str
    fct: object
    args: list
    out: tuple = (0,)         # core dimensions of the results
    batch: bool = True        # whether arguments can be stacked at all
    mixed: bool = True        # whether stacked arguments broadcast against each other
    empty: bool = True        # zero-size stacks supported
    tol: float = 1e-9
    raises: object = None
    group: str = field(default="")
    extra: bool = False       # variation of another entry: options, whole result objects

    def build(self, variants):
        """Fresh arguments; `variants` is a number or one number per argument."""
        if isinstance(variants, int):
            variants = [variants] * len(self.args)
        pos, kwd = [], {}
        for arg, v in zip(self.args, variants):
            val = arg.make(v)
            if arg.name is None:
                pos.append(val)
            else:
                kwd[arg.name] = val
        return pos, kwd

    def call(self, pos, kwd):
        return self.fct(*pos, **kwd)


def leaves(obj):
    """Arrays contained in a result, in a fixed order."""
    if isinstance(obj, np.polynomial.Polynomial):
        return [obj.coef]
    if isinstance(obj, (tuple, list)):
        return [x for o in obj for x in leaves(o)]
    if is_dataclass(obj):
        return [x for f in fields(obj) for x in leaves(getattr(obj, f.name))]
    if hasattr(obj, "__next__"):
        return [x for o in list(obj) for x in leaves(o)]
    if obj is None or isinstance(obj, (str, bool)):
        return []
    if type(obj).__module__.startswith("mpmath"):
        return [np.asarray(complex(obj))]
    return [np.asarray(obj)]


ZS = [0.3 + 0.2j, -1.1 + 0.5j, 0.7 + 1j, -0.2 + 0.05j, 1.9 + 0.3j, -0.6 + 2j, 0.05 + 0.6j]
ES = [0.31, -0.45, 0.81, -0.12, 0.66, -0.93, 0.02]
DS = [1.0, 1.3, 0.7, 2.1, 1.7, 3.0, 0.9]


def z_(v):
    return np.asarray(ZS[v % 7] + 0.11 * (v // 7) + 0.03j * (v % 3))


def eps_(v):
    return np.asarray(ES[v % 7] * (0.9 ** (v // 7)))


def D_(v):
    return DS[v % 7]


def beta_(v):
    return [10.0, 7.3, 3.1][v % 3]


def seq(n, v, scale=1.0):
    """A deterministic, aperiodic sequence of n numbers in (-1, 1)."""
    k = np.arange(n)
    return scale * np.cos(1.7 * k + 0.9 * v + 0.3 * k * v + 0.1 * k * k)


def cseq(n, v, scale=1.0):
    return seq(n, v, scale) + 1j * seq(n, v + 5, scale)


def poles_(v, n=3):
    return np.array([-0.8, 0.1, 0.9, 0.4])[:n] + 0.05 * np.sin(1 + v + np.arange(n))


def res_(v, n=3):
    r = 1.1 + np.cos(v + 2.0 * np.arange(n))
    return r / r.sum()


def ppos_(v):
    return 0.4 + abs(poles_(v)) + 0.1 * np.arange(3)


def tau_(v):
    return np.asarray(beta_(0) * (0.5 + 0.45 * ES[v % 7]))


def giw(v, n=8, beta=10.0):
    return gt_pole(1j * np.pi / beta * (2 * np.arange(n) + 1), v)


def gt_pole(z, v):
    return (res_(v) / (np.asarray(z)[..., np.newaxis] - poles_(v))).sum(-1)


def gtau(v, n=9, beta=10.0):
    tau = np.linspace(0, beta, n)[:, np.newaxis]
    p, r = poles_(v), res_(v)
    return -(r * np.exp(-np.where(p > 0, tau * p, (tau - beta) * p)) / (1 + np.exp(-beta * abs(p)))).sum(-1)


def iws(n=8, beta=10.0):
    return 1j * np.pi / beta * (2 * np.arange(n) + 1)


TT = np.linspace(0, 12, 41)


def gft(v, tt=TT):
    return -1j * (res_(v) * np.exp(-1j * poles_(v) * tt[:, np.newaxis])).sum(-1) * np.exp(-0.3 * tt)


def zup(v, n=4):
    return np.array([ZS[(v + i) % 7] for i in range(n)]) + 0.5j


def mat(v, n=3):
    return np.array([[np.cos(1 + i + 2 * j + v) + 1j * np.sin(2 * i - j + 0.5 * v) for j in range(n)] for i in range(n)]) + 2 * np.diag(np.arange(n) + 0.3j)


def sym(v, n=3):
    m = mat(v, n)
    return m + m.T


def her(v, n=3):
    m = mat(v, n)
    return m + m.T.conj()


def bethe1(z):
    return gt.bethe_hilbert_transform(z, half_bandwidth=1.0)


def ev2(v):
    return np.array([-0.4, 0.5]) + 0.1 * np.sin(v + np.arange(2))


def conc(v):
    x = [0.3, 0.5, 0.8][v % 3]
    return np.array([x, 1 - x])


HOP = np.array([[1.0, 0.6], [0.6, 0.9]])


def taylor(v, n=9):
    return seq(n, v) / (1.3 ** np.arange(n)) + np.r_[1.0, np.zeros(n - 1)]


def const(x):
    return lambda v: x


def vary(*xs):
    return lambda v: xs[v % len(xs)]


CATALOGUE = []


def add(name, fct, *args, **kwds):
    kwds.setdefault("group", name.split(".")[0])
    CATALOGUE.append(Entry(name, fct, [a if isinstance(a, Arg) else Arg(a) for a in args], **kwds))


def kw(name, make, core=None):
    return Arg(make, core, name)


# --- lattices -----------------------------------------------------------------------------------
LATTICES = ["bcc", "bethe", "box", "fcc", "honeycomb", "kagome", "lieb", "onedim", "sc", "square", "triangular"]
for _lat in LATTICES:
    _m = getattr(gt.lattice, _lat)
    add(f"{_lat}.gf_z", _m.gf_z, Arg(z_, 0), kw("half_bandwidth", D_), tol=1e-8, empty=False)
    add(f"{_lat}.dos", _m.dos, Arg(eps_, 0), kw("half_bandwidth", D_), tol=1e-8, empty=False)
    if hasattr(_m, "hilbert_transform"):
        add(f"{_lat}.hilbert_transform", _m.hilbert_transform, Arg(z_, 0), kw("half_bandwidth", D_), tol=1e-8, empty=False)
    if hasattr(_m, "dos_moment"):
        add(f"{_lat}.dos_moment", _m.dos_moment, vary(2, 4, 3), kw("half_bandwidth", D_), batch=False)
    if hasattr(_m, "dos_mp"):
        add(f"{_lat}.dos_mp", _m.dos_mp, vary(0.31, -0.2, 0.11), kw("half_bandwidth", vary(1, 1.5, 2)), batch=False)
    if hasattr(_m, "gf_ret_t"):
        add(f"{_lat}.gf_ret_t", _m.gf_ret_t, Arg(lambda v: np.asarray(0.7 * v + 0.2), 0), kw("half_bandwidth", D_), kw("center", vary(0, 0.3, -1.0)))
for _name in ("gf_d1_z", "gf_d2_z", "gf_z_inv"):
    add(f"bethe.{_name}", getattr(gt.lattice.bethe, _name), Arg(z_, 0), kw("half_bandwidth", D_))
add("bethez.gf_z", gt.lattice.bethez.gf_z, Arg(z_, 0), kw("half_bandwidth", D_), kw("coordination", vary(3, 4, 7)))
add("bethez.dos", gt.lattice.bethez.dos, Arg(eps_, 0), kw("half_bandwidth", D_), kw("coordination", vary(3, 4, 7)), empty=False)
for _name, _first in (("gf_z", z_), ("hilbert_transform", z_), ("dos", eps_)):
    add(f"rectangular.{_name}", getattr(gt.lattice.rectangular, _name), Arg(_first, 0), kw("half_bandwidth", D_), kw("scale", vary(1.7, 2.5, 4.0)), tol=1e-8, empty=False)
add("sc.gf_z_mp", gt.lattice.sc.gf_z_mp, vary(0.3 + 0.4j, -0.2 + 0.1j, 1.2 + 0.3j), kw("half_bandwidth", vary(1, 2, 1.5)), batch=False)
add("square.stress_trafo", gt.lattice.square.stress_trafo, Arg(z_, 0), kw("half_bandwidth", D_), tol=1e-8, empty=False)

# --- statistics ---------------------------------------------------------------------------------
for _name in ("fermi_fct", "fermi_fct_d1", "bose_fct"):
    add(f"statistics.{_name}", getattr(gt, _name), Arg(eps_, 0), beta_)
add("statistics.fermi_fct.complex", gt.fermi_fct, Arg(z_, 0), beta_)
add("statistics.fermi_fct_inv", gt.fermi_fct_inv, Arg(lambda v: np.asarray(0.5 + 0.45 * ES[v % 7]), 0), beta_)
add("statistics.matsubara_frequencies", gt.matsubara_frequencies, Arg(lambda v: np.arange(v, v + 4), 1), beta_, out=(1,))
add("statistics.matsubara_frequencies_b", gt.matsubara_frequencies_b, Arg(lambda v: np.arange(v, v + 4), 1), beta_, out=(1,))
add("statistics.pade_frequencies", gt.pade_frequencies, vary(4, 7, 11), beta_, batch=False)

# --- pole functions -----------------------------------------------------------------------------
add("pole.gf_z", pole.gf_z, Arg(z_, 0), Arg(poles_, 1), Arg(res_, 1))
add("pole.gf_d1_z", pole.gf_d1_z, Arg(z_, 0), Arg(poles_, 1), Arg(res_, 1))
add("pole.gf_tau", pole.gf_tau, Arg(tau_, 0), Arg(poles_, 1), Arg(res_, 1), const(10.0))
add("pole.gf_tau_b", gt.pole_gf_tau_b, Arg(tau_, 0), Arg(ppos_, 1), Arg(res_, 1), const(10.0))
add("pole.gf_ret_t", pole.gf_ret_t, Arg(lambda v: np.asarray(0.4 * v), 0), Arg(poles_, 1), Arg(res_, 1))
add("pole.moments", pole.moments, Arg(poles_, 1), Arg(res_, 1), Arg(lambda v: np.array([1, 2, 4]) + v % 2, 1), out=(1,))
add("pole.gf_from_moments", lambda *a, **k: pole.gf_from_moments(*a, **k).residues, Arg(lambda v: seq(4, v) + np.array([1.5, 0, 0, 0]), 1), kw("width", vary(1.0, 2.0, 0.7)), out=(1,), empty=False)
add("pole.gf_from_z", lambda *a, **k: pole.gf_from_z(*a, **k).residues, const(iws()), Arg(giw, 1), const(3), kw("moments", lambda v: np.array([1.0])), out=(1,), empty=False, tol=1e-6)
add("pole.gf_from_tau", lambda *a, **k: pole.gf_from_tau(*a, **k).residues, Arg(gtau, 1), const(3), const(10.0), kw("moments", lambda v: np.array([1.0])), out=(1,), empty=False, tol=1e-6)
add("pole.PoleGf.eval_z", lambda z, p, r: pole.PoleGf(p, r).eval_z(z), Arg(z_, 0), Arg(poles_, 1), Arg(res_, 1))
add("pole.PoleGf.eval_tau", lambda t, p, r: pole.PoleGf(p, r).eval_tau(t, 10.0), Arg(tau_, 0), Arg(poles_, 1), Arg(res_, 1))
add("pole.PoleGf.occ", lambda p, r: pole.PoleGf(p, r).occ(10.0), Arg(poles_, 1), Arg(res_, 1))
add("pole.ZeroPole.eval", lambda z, p, r, a: ZeroPole(p, r, a).eval(z), Arg(z_, 0), Arg(poles_, 1), Arg(lambda v: res_(v) + 2j, 1), Arg(eps_, 0))
add("pole.ZeroPole.reciprocal", lambda z, p, r, a: ZeroPole(p, r, a).reciprocal(z), Arg(z_, 0), Arg(poles_, 1), Arg(lambda v: res_(v) + 2j, 1), Arg(eps_, 0))
add("pole.ZeroPole.to_ratpol", lambda p, r: ZeroPole(p, r, 2.0).to_ratpol(), poles_, res_, batch=False)

# --- Fourier transforms -------------------------------------------------------------------------
for _name in ("iw2tau_dft", "iw2tau_dft_soft"):
    add(f"fourier.{_name}", getattr(fourier, _name), Arg(giw, 1), beta_, out=(1,))
add("fourier.iw2tau", fourier.iw2tau, Arg(giw, 1), beta_, kw("moments", lambda v: np.array([1.0, 0.1 * v])), out=(1,), empty=False)
add("fourier.iw2tau.batchmoments", fourier.iw2tau, Arg(giw, 1), const(10.0), kw("moments", lambda v: np.array([1.0, 0.1 * v]), 1), out=(1,), mixed=False, empty=False)
add("fourier.iw2tau.fit", fourier.iw2tau, Arg(giw, 1), const(10.0), kw("n_fit", const(2)), out=(1,), empty=False, tol=1e-6)
for _name in ("tau2iv_dft", "tau2iv_ft_lin", "tau2iv", "tau2iw_dft", "tau2iw_ft_lin"):
    add(f"fourier.{_name}", getattr(fourier, _name), Arg(gtau, 1), beta_, out=(1,))
add("fourier.tau2iw", fourier.tau2iw, Arg(gtau, 1), const(10.0), out=(1,), empty=False, tol=1e-5)
add("fourier.tau2iw.moments", fourier.tau2iw, Arg(gtau, 1), const(10.0), kw("n_pole", const(3)), kw("moments", lambda v: np.array([1.0])), out=(1,), empty=False, tol=1e-5)
add("fourier.izp2tau", fourier.izp2tau, lambda v: gt.pade_frequencies(6, 10.0)[0], lambda v: gt_pole(gt.pade_frequencies(6, 10.0)[0], v), lambda v: np.linspace(0, 10, 5), const(10.0), batch=False, tol=1e-6)
add("fourier.tau2izp", fourier.tau2izp, gtau, const(10.0), lambda v: gt.pade_frequencies(5, 10.0)[0], batch=False, tol=1e-5)
for _name in ("tt2z_trapz", "tt2z_simps", "tt2z_lin"):
    add(f"fourier.{_name}", getattr(fourier, _name), const(TT), Arg(gft, 1), Arg(zup, 1), out=(1,), empty=False)
add("fourier.tt2z", fourier.tt2z, const(TT), Arg(gft, 1), Arg(zup, 1), out=(1,), empty=False)
add("fourier.tt2z_pade", fourier.tt2z_pade, const(TT), Arg(gft, 1), Arg(zup, 1), out=(1,), empty=False, tol=1e-6)
add("fourier.tt2z_herm2", fourier.tt2z_herm2, const(TT), Arg(gft, 1), Arg(zup, 1), out=(1,), empty=False, tol=1e-4)
add("fourier.tt2z_lpz", fourier.tt2z_lpz, const(TT), Arg(gft, 1), Arg(zup, 1), out=(1,), empty=False, tol=1e-6)

# --- densities ----------------------------------------------------------------------------------
add("density.density_iw", gt.density_iw, Arg(lambda v: iws(), 1), Arg(giw, 1), const(10.0), kw("moments", lambda v: np.array([1.0, 0.1 * v])), empty=False)
add("density.density_iw.fit", gt.density_iw, Arg(lambda v: iws(), 1), Arg(giw, 1), const(10.0), kw("moments", lambda v: np.array([1.0])), kw("n_fit", const(2)), empty=False, tol=1e-6)
add("density.density", gt.density, Arg(lambda v: giw(v, 64), 1), vary(0.2, 0.0, -0.4), const(10.0), out=(0, 0), mixed=False, empty=False)
add("density.density_error", gt.density_error, Arg(lambda v: 0.01 * giw(v, 16), 1), const(iws(16)), out=(0,), empty=False)
add("density.density_error2", gt.density_error2, Arg(lambda v: 0.01 * giw(v, 16), 1), const(iws(16)), out=(0,))
add("density.check_convergence", gt.check_convergence, lambda v: giw(v, 64), vary(0.2, 0.0, -0.4), const(10.0), batch=False)
add("density.chemical_potential", lambda occ: gt.chemical_potential(lambda mu: gt.fermi_fct(-mu, 5.0) - occ), vary(0.3, 0.8, 0.5), batch=False)

# --- CPA and BEB --------------------------------------------------------------------------------
add("cpa.gf_cmpt_z", cpa.gf_cmpt_z, Arg(z_, 0), Arg(lambda v: np.asarray(0.1 * eps_(v) - 0.2j), 0), Arg(ev2, 1), const(bethe1), out=(1,))
for _name in ("self_root_eq", "self_fxdpnt_eq"):
    add(f"cpa.{_name}", getattr(cpa, _name), Arg(lambda v: np.asarray(0.1 * eps_(v) - 0.2j), 0), Arg(z_, 0), Arg(ev2, 1), Arg(conc, 1), const(bethe1))
add("cpa.solve_root", cpa.solve_root, Arg(z_, 0), Arg(ev2, 1), Arg(conc, 1), const(bethe1), kw("options", const({"fatol": 1e-9})), empty=False, tol=2e-6)
add("cpa.solve_fxdocc_root", lambda e, x, occ: cpa.solve_fxdocc_root(iws(16), e, x, bethe1, 10.0, occ=occ), ev2, conc, vary(0.3, 0.5, 0.6), batch=False, tol=1e-5)
add("beb.gf_loc_z", beb.gf_loc_z, Arg(z_, 0), Arg(lambda v: mat(v, 2) * 0.1 - 0.5j * np.eye(2), 2), const(HOP), const(bethe1), out=(1,))
add("beb.gf_loc_z.full", beb.gf_loc_z, Arg(z_, 0), Arg(lambda v: mat(v, 2) * 0.1 - 0.5j * np.eye(2), 2), const(HOP), const(bethe1), kw("diag", const(False)), out=(2,))
add("beb.self_root_eq", beb.self_root_eq, Arg(lambda v: mat(v, 2) * 0.1 - 0.5j * np.eye(2), 2), Arg(z_, 0), Arg(ev2, 1), Arg(conc, 1), lambda v: beb.SpecDec(*gm.decompose_her(HOP)), const(bethe1), out=(2,))
add("beb.solve_root", beb.solve_root, Arg(z_, 0), Arg(ev2, 1), Arg(conc, 1), const(HOP), const(bethe1), kw("options", const({"fatol": 1e-9})), out=(2,), empty=False, tol=2e-6)

# --- matrix and linear algebra ------------------------------------------------------------------
add("matrix.decompose_mat", lambda m: gm.decompose_mat(m).reconstruct(), Arg(mat, 2), out=(2,))
add("matrix.decompose_sym", lambda m: gm.decompose_sym(m).reconstruct(), Arg(sym, 2), out=(2,))
add("matrix.decompose_her", lambda m: gm.decompose_her(m).reconstruct(), Arg(her, 2), out=(2,))
add("matrix.decompose_her.eig", lambda m: gm.decompose_her(m).eig, Arg(her, 2), out=(1,))
add("matrix.decompose_gf", lambda m: gm.decompose_gf(m).reconstruct(), Arg(mat, 2), out=(2,), batch=False)
add("matrix.decompose_hamiltonian", lambda m: gm.decompose_hamiltonian(m).reconstruct(), Arg(her, 2), out=(2,), batch=False)
add("matrix.reconstruct_inv", lambda m, e: gm.decompose_mat(m).reconstruct(eig=e), Arg(mat, 2), Arg(lambda v: cseq(3, v), 1), out=(2,), mixed=False)
add("matrix.reconstruct_diag", lambda m, e: gm.decompose_mat(m).reconstruct(eig=e, kind="diag"), Arg(mat, 2), Arg(lambda v: cseq(3, v), 1), out=(1,), mixed=False)
add("matrix.gf_2x2_z", gm.gf_2x2_z, Arg(z_, 0), Arg(eps_, 0), Arg(lambda v: eps_(v + 2), 0), Arg(lambda v: np.asarray(0.3 + 0.2 * eps_(v + 4)), 0), out=(1,))
add("matrix.construct_gf", gm.construct_gf, lambda v: mat(v), lambda v: cseq(3, v) + 2, lambda v: np.linalg.inv(mat(v)), batch=False)
add("linalg.orth_compl", linalg.orth_compl, lambda v: mat(v, 4)[:, :2], batch=False)
add("linalg.lstsq_ec", linalg.lstsq_ec, lambda v: mat(v, 5)[:, :3], lambda v: cseq(5, v), lambda v: mat(v + 1, 3)[:2], lambda v: cseq(2, v), batch=False)
add("siam.gf0_loc_z", siam.gf0_loc_z, Arg(z_, 0), Arg(eps_, 0), Arg(poles_, 1), Arg(res_, 1))
add("siam.hybrid_z", siam.hybrid_z, Arg(z_, 0), Arg(poles_, 1), Arg(res_, 1))
for _name in ("gf0_loc_ret_t", ):
    add(f"siam.{_name}", getattr(siam, _name), Arg(lambda v: np.asarray(0.4 * v), 0), Arg(eps_, 0), Arg(poles_, 1), Arg(lambda v: res_(v) + 0j, 1))
for _name in ("gf0_loc_gr_t", "gf0_loc_le_t"):
    add(f"siam.{_name}", getattr(siam, _name), Arg(lambda v: np.asarray(0.4 * v), 0), Arg(eps_, 0), Arg(poles_, 1), Arg(lambda v: res_(v) + 0j, 1), const(10.0))
add("siam.hamiltonian_matrix", siam.hamiltonian_matrix, Arg(eps_, 0), Arg(poles_, 1), Arg(lambda v: res_(v) * 1j + 0.1, 1), out=(2,))

# --- linear prediction --------------------------------------------------------------------------
add("linearprediction.companion", lp.companion, Arg(lambda v: cseq(4, v) + np.array([3, 0, 0, 0]), 1), out=(2,))
add("linearprediction.pcoeff_covar", lp.pcoeff_covar, Arg(lambda v: cseq(14, v), 1), const(3), out=(1, 0), empty=False, tol=1e-7)
add("linearprediction.pcoeff_burg", lp.pcoeff_burg, Arg(lambda v: cseq(14, v), 1), const(3), out=(1, 0), empty=False, tol=1e-7)
add("linearprediction.predict", lp.predict, Arg(lambda v: cseq(8, v), 1), Arg(lambda v: cseq(3, v + 1, 0.3), 1), const(4), out=(1,), mixed=False, empty=False)
add("linearprediction.predict.stable", lp.predict, Arg(lambda v: cseq(8, v), 1), Arg(lambda v: cseq(3, v + 1, 1.3), 1), const(4), kw("stable", const(True)), out=(1,), mixed=False, empty=False)

# --- Pade ---------------------------------------------------------------------------------------
ZIN = 1j * np.array([0.3, 0.9, 1.5, 2.1, 2.9, 3.3])
ZOUT = np.array([0.4 + 0.3j, -0.9 + 0.2j])
add("pade.coefficients", gp.coefficients, const(ZIN), Arg(lambda v: gt_pole(ZIN, v) + 0.01 * cseq(6, v), 1), out=(1,), tol=1e-6)
add("pade.calc_iterator", lambda c: list(gp.calc_iterator(ZOUT, ZIN, c)), Arg(lambda v: 0.5 + cseq(6, v, 0.3), 1), out=(1,) * 5, tol=1e-7)
add("pade.averaged", lambda f: gp.averaged(ZOUT, ZIN, fct_z=f, valid_z=ZOUT, kind=gp.KindGf(1, 6)), lambda v: gt_pole(ZIN, v) + 0.01 * cseq(6, v), batch=False, tol=1e-6)
add("pade.avg_no_neg_imag", lambda f: gp.avg_no_neg_imag(ZOUT, ZIN, fct_z=f, valid_z=ZOUT, kind=gp.KindSelf(1, 6)), lambda v: gt_pole(ZIN, v) + 1.0, batch=False, tol=1e-6)
add("hermpade.pade", hp.pade, taylor, const(3), const(3), batch=False, tol=1e-6)
add("hermpade.pade.fast", hp.pade, taylor, const(3), const(3), kw("fast", const(True)), batch=False, tol=1e-6)
add("hermpade.pade_lstsq", hp.pade_lstsq, taylor, const(3), const(3), batch=False, tol=1e-6)
add("hermpade.pader", hp.pader, taylor, const(3), const(3), batch=False, tol=1e-6)
add("hermpade.hermite2", hp.hermite2, taylor, const(2), const(2), const(2), batch=False, tol=1e-6)
add("hermpade.hermite2_lstsq", hp.hermite2_lstsq, taylor, const(2), const(2), const(2), batch=False, tol=1e-6)
add("hermpade.Hermite2.eval", lambda an, z: hp.Hermite2.from_taylor(an, 2, 2, 2).eval(z), taylor, lambda v: zup(v) * 0.2, batch=False, tol=1e-6)
add("polepade.continuation", polepade.continuation, lambda v: 1.5 * np.exp(2j * np.pi * np.arange(12) / 12), lambda v: gt_pole(1.5 * np.exp(2j * np.pi * np.arange(12) / 12), v),
    batch=False, tol=1e-6)
add("polepade.residues_ols", lambda z, f, p, w, m: polepade.residues_ols(z, f, p, weight=w, moments=m)[0], lambda v: zup(v, 6), lambda v: gt_pole(zup(v, 6), v), poles_, lambda v: 1.5 + seq(6, v), lambda v: np.array([1.0]), batch=False)
add("models.hubbard_dimer_gf_z", gt.hubbard_dimer_gf_z, Arg(z_, 0), kw("hopping", vary(1.0, 0.4)), kw("interaction", vary(2.0, -1.0)), kw("kind", vary("+", "-")))
add("models.hubbard_I_self_z", gt.hubbard_I_self_z, Arg(z_, 0), Arg(D_, 0), Arg(lambda v: 0.5 + 0.4 * eps_(v), 0))
add("models.surface_gf_zeps", gt.surface_gf_zeps, Arg(z_, 0), eps_, kw("hopping_nn", vary(0.5, 1.2)))

# --- variations: optional arguments, defaults, whole result objects ------------------------------
def extra(name, fct, *args, **kwds):
    add(name, fct, *args, batch=False, extra=True, **kwds)


MOM3 = lambda v: np.array([1.0, 0.1 + 0.05 * v, 0.6])
MOM1 = lambda v: np.array([1.0])
W8 = lambda v: 1.5 + seq(8, v)
W9 = lambda v: 1.5 + seq(9, v)
for _cls in (pole.PoleFct, pole.PoleGf):
    extra(f"pole.{_cls.__name__}.from_moments", _cls.from_moments, MOM3)
    extra(f"pole.{_cls.__name__}.from_moments.None", _cls.from_moments, MOM3, kw("width", const(None)))
    extra(f"pole.{_cls.__name__}.from_moments.empty", _cls.from_moments, lambda v: np.zeros((2, 0)))
    extra(f"pole.{_cls.__name__}.from_z", _cls.from_z, const(iws()), giw, const(3))
    extra(f"pole.{_cls.__name__}.from_z.all", _cls.from_z, const(iws()), giw, const(4), kw("moments", MOM3), kw("width", vary(1.0, 2.0, None)), kw("weight", W8))
extra("pole.PoleGf.from_tau", pole.PoleGf.from_tau, gtau, const(3), const(10.0))
extra("pole.PoleGf.from_tau.all", pole.PoleGf.from_tau, gtau, const(4), const(10.0), kw("moments", MOM1), kw("occ", vary(0.4, 0.5, False)), kw("width", vary(1.0, 2.0, 0.8)), kw("weight", W9))
extra("pole.PoleFct.moments", lambda p, r, o: pole.PoleFct(p, r).moments(o), poles_, res_, lambda v: np.array([1, 2, 3 + v]))
extra("pole.PoleGf.eval_ret_t", lambda t, p, r: pole.PoleGf(p, r).eval_ret_t(t), lambda v: np.array([-1.0, 0.0, 0.4 * v]), poles_, res_)
extra("fourier.iw2tau.defaults", fourier.iw2tau, giw, beta_)
extra("fourier.iw2tau.all", fourier.iw2tau, giw, beta_, kw("moments", MOM3), kw("fourier", vary(fourier.iw2tau_dft, fourier.iw2tau_dft_soft)), kw("n_fit", vary(0, 1, 2)), tol=1e-6)
extra("fourier.tau2iw.all", fourier.tau2iw, gtau, beta_, kw("n_pole", vary(3, 4, 5)), kw("moments", MOM3), kw("fourier", vary(fourier.tau2iw_ft_lin, fourier.tau2iw_dft)), tol=1e-5)
extra("fourier.tau2iv.dft", fourier.tau2iv, gtau, beta_, kw("fourier", vary(fourier.tau2iv_dft, fourier.tau2iv_ft_lin)))
extra("fourier.izp2tau.moments", fourier.izp2tau, lambda v: gt.pade_frequencies(6, 10.0)[0], lambda v: gt_pole(gt.pade_frequencies(6, 10.0)[0], v), lambda v: np.linspace(0, 10, 5), const(10.0), kw("moments", MOM1), tol=1e-6)
extra("fourier.tau2izp.all", fourier.tau2izp, gtau, const(10.0), lambda v: gt.pade_frequencies(5, 10.0)[0], kw("moments", MOM1), kw("occ", vary(0.4, 0.5, 0.6)), kw("weight", W9), tol=1e-5)
for _quad in ("trapz", "simps"):
    for _lap in ("tt2z_pade", "tt2z_herm2", "tt2z_lpz"):
        extra(f"fourier.tt2z.{_lap}.{_quad}", fourier.tt2z, const(TT), gft, zup, kw("laplace", const(getattr(fourier, _lap))), kw("quad", const(_quad)), tol=1e-4)
for _lap in ("tt2z_trapz", "tt2z_simps"):
    extra(f"fourier.tt2z.{_lap}", fourier.tt2z, const(TT), gft, zup, kw("laplace", const(getattr(fourier, _lap))))
extra("fourier.tt2z_lin.zero", fourier.tt2z_lin, const(TT), gft, lambda v: np.array([0.0, 1e-18, 0.3 * v]))
extra("fourier.tt2z.empty", fourier.tt2z, const(TT), gft, lambda v: np.zeros(0, complex))
extra("fourier.tt2z_lpz.order", fourier.tt2z_lpz, const(TT), gft, zup, kw("order", vary(5, 6, 9)), tol=1e-6)
extra("density.density_iw.weights", lambda v, m, w: gt.density_iw(gt.pade_frequencies(8, 10.0)[0], v, 10.0, weights=w, moments=m), lambda v: gt_pole(gt.pade_frequencies(8, 10.0)[0], v), MOM3, lambda v: gt.pade_frequencies(8, 10.0)[1])
extra("density.density.array", gt.density, lambda v: np.stack([giw(v, 32), giw(v + 1, 32)]), lambda v: np.array([0.2, -0.3 * v]), const(10.0))
extra("density.density.matrix", gt.density, lambda v: np.stack([giw(v, 32), giw(v + 1, 32)]), lambda v: her(v, 2), const(10.0), kw("matrix", const(True)))
extra("density.density.total", gt.density, lambda v: 2 * giw(v, 32), lambda v: np.array([0.2, -0.3 * v]), const(10.0), kw("total", const(True)))
extra("density.check_convergence.matrix", gt.check_convergence, lambda v: np.stack([giw(v, 32), giw(v + 1, 32)]), lambda v: her(v, 2), const(10.0), kw("matrix", const(True)))
extra("density.density_error.max", gt.density_error, lambda v: 0.01 * giw(v, 16), const(iws(16)), kw("noisy", const(False)))
Z3 = lambda v: np.array([z_(v), z_(v + 1), z_(v + 2)])
S3 = lambda v: 0.1 * seq(3, v) - 0.2j - 0.1j * np.arange(3)
extra("cpa.solve_root.start", cpa.solve_root, Z3, ev2, conc, const(bethe1), kw("self_cpa_z0", S3), kw("options", const({"fatol": 1e-9})), tol=2e-6)
extra("cpa.solve_root.unrestricted", cpa.solve_root, Z3, ev2, conc, const(bethe1), kw("self_cpa_z0", S3), kw("restricted", const(False)), kw("options", const({"fatol": 1e-9})), tol=2e-6)
extra("cpa.solve_fxdocc_root.start", lambda w, e, x, s, occ: cpa.solve_fxdocc_root(w, e, x, bethe1, 10.0, occ=occ, self_cpa_iw0=s, mu0=0.1, options={"fatol": 1e-10}),
      const(iws(16)), ev2, conc, lambda v: 0.1 * seq(16, v) - 0.2j, vary(0.3, 0.5, 0.6), tol=1e-5)
extra("beb.solve_root.start", beb.solve_root, Z3, ev2, conc, lambda v: HOP.copy(), const(bethe1), kw("self_beb_z0", lambda v: np.stack([0.1 * her(v, 2) - 0.5j * np.eye(2)] * 3)),
      kw("options", const({"fatol": 1e-9})), tol=2e-6)
extra("beb.solve_root.rank1", beb.solve_root, Z3, ev2, conc, lambda v: np.ones((2, 2)), const(bethe1), kw("restricted", const(False)), kw("options", const({"fatol": 1e-9})), tol=2e-6)
extra("beb.gf_loc_z.rank1", beb.gf_loc_z, Z3, lambda v: mat(v, 2) * 0.1 - 0.5j * np.eye(2), lambda v: np.ones((2, 2)), const(bethe1), kw("diag", vary(True, False)))
extra("beb.SpecDec.truncate", lambda m: beb.SpecDec(*gm.decompose_her(m)).truncate(0.3).reconstruct(), her)
extra("beb.SpecDec.partition", lambda m: beb.SpecDec(*gm.decompose_her(m)).partition(return_sqrts=True), her)
for _k in ("mat", "sym", "her"):
    extra(f"matrix.decompose_{_k}.object", getattr(gm, "decompose_" + _k), dict(mat=mat, sym=sym, her=her)[_k])
extra("matrix.decompose_her.nocheck", gm.decompose_her, her, kw("check", const(False)))
extra("matrix.UDecomposition.s", lambda m: gm.decompose_her(m).s, her)
extra("matrix.gf_2x2_z.hilbert", gm.gf_2x2_z, Z3, const(0.3), const(-0.2), kw("hopping", vary(0.5, 0.2j)), kw("hilbert_trafo", const(bethe1)))
extra("linalg.lstsq_ec.none", linalg.lstsq_ec, lambda v: mat(v, 5)[:, :3], lambda v: cseq(5, v), lambda v: np.zeros((0, 3)), lambda v: np.zeros(0))
extra("linalg.lstsq_ec.all", linalg.lstsq_ec, lambda v: mat(v, 5)[:, :3], lambda v: cseq(5, v), lambda v: mat(v + 1, 3), lambda v: cseq(3, v), kw("rcond", const(1e-12)))
extra("linearprediction.predict.zero", lp.predict, lambda v: cseq(8, v), lambda v: cseq(3, v + 1, 0.3), const(0))
extra("linearprediction.predict.zero.stable", lp.predict, lambda v: cseq(8, v), lambda v: cseq(3, v + 1, 0.3), const(0), kw("stable", const(True)))
extra("linearprediction.pcoeff_covar.rcond", lp.pcoeff_covar, lambda v: cseq(14, v), const(4), kw("rcond", const(1e-2)), tol=1e-7)
extra("pade.masked_coefficients", gp.masked_coefficients, lambda v: ZIN.copy(), lambda v: gt_pole(ZIN, v) + 0.01 * cseq(6, v), tol=1e-6)
_pd = lambda v: gt_pole(ZIN, v) + 0.01 * cseq(6, v)
extra("pade.averaged.all", lambda zo, zi, f, zv: gp.averaged(zo, zi, fct_z=f, valid_z=zv, filter_valid=(gp.FilterHighVariance(abs_num=2), gp.FilterNegImagNum(abs_num=1)), kind=gp.KindGf(1, 6)),
      lambda v: ZOUT.copy(), lambda v: ZIN.copy(), _pd, lambda v: ZOUT + 0.1j * v, tol=1e-6)
extra("pade.averaged.coeff", lambda zo, zi, c: gp.averaged(zo, zi, coeff=c, kind=gp.KindSelf(2, 6)), lambda v: ZOUT.copy(), lambda v: ZIN.copy(), lambda v: gp.coefficients(ZIN, _pd(v)), tol=1e-6)
extra("pade.Averager", lambda zo, zi, c, m: gp.Averager(zi, c, valid_pades=m, kind=gp.KindSelf(2, 6))(zo), lambda v: ZOUT.copy(), lambda v: ZIN.copy(), lambda v: gp.coefficients(ZIN, _pd(v)),
      vary(np.array([True, True]), np.array([True, False]), np.array([False, True])), tol=1e-6)
extra("pade.Mod_Averager", lambda zo, zi, c, m: gp.Mod_Averager(zi, c, lambda z, g: z - 1 / g, valid_pades=m, kind=gp.KindSelf(2, 6))(zo), lambda v: ZOUT.copy(), lambda v: ZIN.copy(),
      lambda v: gp.coefficients(ZIN, _pd(v)), vary(np.array([True, True]), np.array([True, False])), tol=1e-6)
_pads = lambda v: cseq(12, v).reshape(6, 2)
for _n, _f in dict(NegImag=gp.FilterNegImag(0.3), NegImagNum=gp.FilterNegImagNum(abs_num=2), HighVariance=gp.FilterHighVariance(rel_num=0.5)).items():
    extra(f"pade.Filter{_n}", _f, _pads)
extra("pade.apply_filter", lambda x: gp.apply_filter(gp.FilterNegImagNum(abs_num=4), gp.FilterHighVariance(abs_num=2), validity_iter=x), _pads)
for _n in ("pade", "pade_lstsq", "pader"):
    extra(f"hermpade.{_n}.poly", getattr(hp, _n), taylor, const(5), const(0), tol=1e-6)
    extra(f"hermpade.{_n}.tall", getattr(hp, _n), taylor, const(2), const(5), tol=1e-6)
extra("hermpade.Hermite2.from_taylor", hp.Hermite2.from_taylor, taylor, const(2), const(2), const(2), tol=1e-6)
extra("hermpade.Hermite2.from_taylor_lstsq", hp.Hermite2.from_taylor_lstsq, taylor, const(2), const(2), const(2), tol=1e-6)
extra("hermpade.hermite2_lstsq.fix", hp.hermite2_lstsq, taylor, const(2), const(2), const(2), kw("fix_qr", vary(0, 1, 2)), tol=1e-6)
_circ = lambda v: 1.5 * np.exp(2j * np.pi * np.arange(12) / 12)
_circf = lambda v: gt_pole(_circ(v), v)
extra("polepade.number_poles", polepade.number_poles, _circ, _circf, kw("weight", lambda v: 1.5 + seq(12, v)))
extra("polepade.poles", lambda z, f, w: np.sort_complex(polepade.poles(z, f, n=2, m=3, weight=w)), _circ, _circf, lambda v: 1.5 + seq(12, v), tol=1e-6)
extra("polepade.zeros", lambda z, f, p, w: np.sort_complex(polepade.zeros(z, f, p, n=2, weight=w)), _circ, _circf, lambda v: poles_(v) + 0j, lambda v: 1.5 + seq(12, v), tol=1e-6)
extra("polepade.asymptotic", polepade.asymptotic, _circ, _circf, lambda v: poles_(v, 2) + 0.3, lambda v: poles_(v) + 0j, lambda v: 1.5 + seq(12, v), tol=1e-6)
extra("polepade.residues_ols.plain", lambda z, f, p: polepade.residues_ols(z, f, p)[0], _circ, _circf, poles_, tol=1e-6)
extra("polepade.continuation.all", lambda z, f, w, m: polepade.continuation(z, f, weight=w, moments=m, rotate=True, real_asymp=False).residues.sum(), _circ, _circf, lambda v: 1.5 + seq(12, v), MOM1, tol=1e-6)
extra("polepade.PadeApprox", lambda z, p, r, a, x: (polepade.PadeApprox(z, p, r, a).eval_polefct(x), polepade.PadeApprox(z, p, r, a).eval_zeropole(x), polepade.PadeApprox(z, p, r, a).moments(np.array([1, 2]))),
      lambda v: poles_(v) + 0.3j, poles_, lambda v: res_(v) + 0j, vary(0.5, 1.0), zup)

# --- rejected calls: they must leave no trace and be rejected again -----------------------------
REJECTED = []


def reject(name, exc, fct):
    REJECTED.append(Entry(name, fct, [], raises=exc, batch=False, group="reject"))


reject("reject.tt2z", ValueError, lambda: fourier.tt2z(TT, gft(0), zup(0) - 3j))
reject("reject.degree", ValueError, lambda: polepade.continuation(ZIN, giw(0, 6), degree=1))
reject("reject.pade_frequencies", Exception, lambda: gt.pade_frequencies(-1, 10.0))
reject("reject.dimer", ValueError, lambda: gt.hubbard_dimer_gf_z(ZIN, 1.0, 1.0, kind="x"))
reject("reject.pole_tau_b", ValueError, lambda: gt.pole_gf_tau_b(tau_(0), poles_(0), res_(0), 10.0))
reject("reject.decompose_her", ValueError, lambda: gm.decompose_her(mat(0)))
reject("reject.dos_mp", Exception, lambda: gt.lattice.sc.dos_mp("abc"))
reject("reject.chemical_potential", RuntimeError, lambda: gt.chemical_potential(lambda mu: 1.0, step0=1.0))
