"""C33: results do not depend on the unit of energy, nor on the unit of the data."""
import numpy as np
import gftool as gt
import gftool.hermpade as hp
import gftool.linearprediction as lp
import gftool.matrix as gm
import gftool.pade as gp
from gftool import beb, cpa, fourier, linalg, polepade, siam
from gftool.basis import RatPol, ZeroPole, pole
from mc import catalogue as ct
from mc.lat import LATS

BOUNDS = ("90 public functions and methods x 3 (thorough 7) argument sets x every unit of energy in {2^3, 2^-20, 2^40, 1000, 1e-3} (thorough also 2^-40, 2^100, 2^-100, 1e9, 3e-7) "
          "and, where data are linear, every unit of the data in {1, 2^-30, 2^20} (thorough also 1e-9, 1e12)")
ASSUMPTIONS = ["the result in the reference unit is the oracle, its value is decided by the properties C01-C29",
               "documented absolute tolerances (widths, thresholds, tolerances of root searches) are scaled like the quantity they belong to; functions with undocumented fixed tolerances "
               "(masked_coefficients, the Hermiticity test of decompose_*, the penalty of restrict_self_root_eq, the width search of izp2tau/tau2izp) are left out",
               "powers of two commute with rounding, other units are compared within the accuracy of the function"]

CASES = {}


def case(name, *, a=False, tol=1e-9, big=100, low=0.0, variants=7):
    """Register f(v, L, A) -> list of (value, power of L, power of A)."""
    def reg(f):
        CASES[name] = (f, a, tol, big, low, variants)
        return f
    return reg


ZL = np.array([0.3 + 0.2j, -1.1 + 0.5j, 0.05 + 1e-3j, 1.9 + 0.3j, -0.6 - 2j, 12 + 1j, 0.41 - 1e-6j, 1e3 - 1j, -0.333 + 1e-9j])
EL = np.array([0.31, -0.46, 0.812, -0.123, 0.66, -0.93, 0.02, 1.83, -1.43])


# --- lattices -----------------------------------------------------------------------------------
def lattice_cases():
    for name, lat in LATS.items():
        mod, kw = lat.module(), lat.kwds
        tol = 10 * lat.rtol

        def gf(v, L, A, mod=mod, kw=kw, lat=lat):
            D = ct.D_(v)
            out = [(mod.gf_z(L * ZL, half_bandwidth=L * D, **kw), -1, 0), (mod.dos(L * EL, half_bandwidth=L * D, **kw), -1, 0)]
            if lat.has("hilbert_transform"):
                out.append((mod.hilbert_transform(L * ZL, half_bandwidth=L * D, **kw), -1, 0))
            if lat.has("dos_moment"):
                out += [(mod.dos_moment(m, half_bandwidth=L * D), m, 0) for m in (1, 2, 3, 4, 6)]
            return out
        case("lattice." + name, tol=tol)(gf)
        if lat.has("dos_mp"):
            # the unit is varied with exactly representable numbers
            case(f"lattice.{name}.dos_mp", tol=tol, variants=2)(
                lambda v, L, A, mod=mod, kw=kw: [(float(mod.dos_mp(L * x, half_bandwidth=L * (1 + v), **kw)), -1, 0) for x in (0.3125, -0.140625)])
        if lat.has("gf_ret_t"):
            case(f"lattice.{name}.gf_ret_t")(
                lambda v, L, A, mod=mod: [(mod.gf_ret_t(np.array([-1.0, 0.0, 1e-5, 0.4, 3.0, 50.0]) / L, half_bandwidth=L * ct.D_(v), center=0.3 * v), 0, 0)])   # center is in units of the half-bandwidth


lattice_cases()


@case("lattice.bethe.derivatives")
def _(v, L, A):
    D, b = L * ct.D_(v), gt.lattice.bethe
    return [(b.gf_d1_z(L * ZL, half_bandwidth=D), -2, 0), (b.gf_d2_z(L * ZL, half_bandwidth=D), -3, 0),
            (b.gf_z_inv(np.array([0.3 - 0.5j, 1 - 0.1j, -0.2 - 1e-3j]) / L, half_bandwidth=D), 1, 0)]


@case("lattice.square.stress_trafo", tol=1e-8)
def _(v, L, A):
    return [(gt.lattice.square.stress_trafo(L * ZL, half_bandwidth=L * ct.D_(v)), 0, 0)]


@case("lattice.sc.gf_z_mp", variants=2)
def _(v, L, A):
    return [(complex(gt.lattice.sc.gf_z_mp(L * z, half_bandwidth=L * (1 + v))), -1, 0) for z in (0.3125 + 0.25j, -1.5 + 0.125j)]


# --- statistics ---------------------------------------------------------------------------------
@case("statistics.fermi")
def _(v, L, A):
    e, b = L * np.array([0.3, -0.2, 0.0, 4.0, -4.0, 1e-7]), ct.beta_(v) / L
    return [(gt.fermi_fct(e, b), 0, 0), (gt.fermi_fct(e + 0.3j * L, b), 0, 0), (gt.fermi_fct_d1(e, b), -1, 0), (gt.bose_fct(e[e != 0], b), 0, 0),
            (gt.bose_fct(e + 0.3j * L, b), 0, 0), (gt.fermi_fct_inv(np.array([0.1, 0.5, 1e-9, 0.999]), b), 1, 0)]


@case("statistics.frequencies")
def _(v, L, A):
    b = ct.beta_(v) / L
    izp, rp = gt.pade_frequencies(5 + 3 * v, b)
    return [(gt.matsubara_frequencies(np.arange(-3, 9), b), 1, 0), (gt.matsubara_frequencies_b(np.arange(-3, 9), b), 1, 0), (izp, 1, 0), (rp, 0, 0)]


# --- poles --------------------------------------------------------------------------------------
@case("pole.functions", a=True)
def _(v, L, A):
    p, r, b = L * ct.poles_(v), A * ct.res_(v), 10.0 / L
    tau, tt = np.linspace(0, 1, 7) * b, np.array([-1, 0, 0.3, 7]) / L
    gf = pole.PoleGf(p, r)
    return [(pole.gf_z(L * ZL, p, r), -1, 1), (pole.gf_d1_z(L * ZL, p, r), -2, 1), (pole.gf_tau(tau, p, r, b), 0, 1), (pole.gf_ret_t(tt, p, r), 0, 1),
            (gt.pole_gf_tau_b(tau, L * ct.ppos_(v), r, b), 0, 1), (gf.eval_z(L * ZL), -1, 1), (gf.eval_tau(tau, b), 0, 1), (gf.eval_ret_t(tt), 0, 1), (gf.occ(b), 0, 1)] + [
            (pole.moments(p, r, [n])[..., 0], n - 1, 1) for n in (1, 2, 3, 5)] + [(gf.moments([n])[..., 0], n - 1, 1) for n in (1, 2, 4)]


def mom_(L, A, n=3, v=0):
    return A * np.array([1.0, 0.1 + 0.05 * v, 0.6, -0.1])[:n] * L ** np.arange(n)


for _n in range(1, 5):
    @case(f"pole.from_moments{_n}", a=True, tol=1e-8)
    def _(v, L, A, n=_n):
        gf = pole.PoleFct.from_moments(mom_(L, A, n, v), width=L * (0.7 + 0.2 * v))
        return [(gf.poles, 1, 0), (gf.residues, 0, 1), (gf.eval_z(L * ZL), -1, 1)]

for _n in range(0, 4):
    @case(f"pole.from_z{_n}", a=True, tol=1e-6)
    def _(v, L, A, n=_n):
        iw = L * ct.iws()
        weight = None if v % 2 else 1.5 + ct.seq(8, v)
        gf = pole.PoleFct.from_z(iw, A * ct.giw(v) / L, n_pole=4, moments=mom_(L, A, n, v), width=L * (1 + 0.2 * v), weight=weight)
        return [(gf.poles, 1, 0), (gf.residues, 0, 1), (gf.eval_z(iw), -1, 1)]

    @case(f"pole.from_tau{_n}", a=True, tol=1e-6)
    def _(v, L, A, n=_n):
        weight = None if v % 2 else 1.5 + ct.seq(9, v)
        gf = pole.PoleGf.from_tau(A * ct.gtau(v), n_pole=4 + n, beta=10.0 / L, moments=mom_(L, A, n, v), width=L * (1 + 0.2 * v), weight=weight,
                                  occ=A * 0.45 if v % 3 == 1 else False)
        return [(gf.poles, 1, 0), (gf.eval_tau(np.linspace(0, 10, 9) / L, 10.0 / L), 0, 1)]


# --- Fourier transforms -------------------------------------------------------------------------
@case("fourier.iw2tau", a=True)
def _(v, L, A):
    b, g = 10.0 / L, A * ct.giw(v) / L
    return [(fourier.iw2tau_dft(g, b), 0, 1), (fourier.iw2tau_dft_soft(g, b), 0, 1), (fourier.iw2tau(g, b, moments=np.array([A * 1.0])), 0, 1),
            (fourier.iw2tau(g, b, moments=np.array([A * 1.0]), fourier=fourier.iw2tau_dft_soft), 0, 1)]


@case("fourier.tau2iw", a=True)
def _(v, L, A):
    b, g = 10.0 / L, A * ct.gtau(v)
    return [(f(g, b), -1, 1) for f in (fourier.tau2iw_dft, fourier.tau2iw_ft_lin)]


@case("fourier.tau2iv", a=True)
def _(v, L, A):
    b, g = 10.0 / L, A * ct.gtau(v)
    return [(f(g, b), -1, 1) for f in (fourier.tau2iv_dft, fourier.tau2iv_ft_lin, fourier.tau2iv)] + [(fourier.tau2iv(g, b, fourier=fourier.tau2iv_dft), -1, 1)]


@case("fourier.laplace", a=True, tol=1e-8)
def _(v, L, A):
    tt, g, z = ct.TT / L, A * ct.gft(v), L * np.r_[ct.zup(v), 1e-4j, 40j, 1e-9]
    return [(f(tt, g, z), -1, 1) for f in (fourier.tt2z_trapz, fourier.tt2z_simps, fourier.tt2z_lin, fourier.tt2z)]


@case("fourier.laplace.pade", a=True, tol=1e-4)
def _(v, L, A):
    tt, g, z = ct.TT / L, A * ct.gft(v), L * ct.zup(v)
    return [(f(tt, g, z, quad=q), -1, 1) for f in (fourier.tt2z_pade, fourier.tt2z_lpz) for q in ("trapz", "simps")]


@case("fourier.laplace.herm2", tol=1e-3, big=45)
def _(v, L, A):
    return [(fourier.tt2z_herm2(ct.TT[:21] / L, ct.gft(v)[:21], L * (ct.zup(v) + 1j)), -1, 0)]


# --- densities ----------------------------------------------------------------------------------
@case("density", tol=1e-8)
def _(v, L, A):
    b, iw = 10.0 / L, L * ct.iws(64)
    p = L * ct.poles_(v)
    g = pole.gf_z(iw, p, ct.res_(v))
    pot = np.array([0.2, -0.3, 0.0])[v % 3] * L
    her = L * ct.her(v, 2)
    gmat = np.stack([g, 1.1 * g])
    res = [(gt.density_iw(iw, g, b, moments=[1.0]), 0, 0)]
    res += [(x, 0, 0) for x in gt.density(g, pot, b)] + [(x, 0, 0) for x in gt.density(gmat, her, b, matrix=True)]
    res += [(gt.density_error(0.01 * g, iw), 0, 0), (gt.density_error(0.01 * g, iw, noisy=False), 0, 0), (gt.density_error2(0.01 * g, iw), 0, 0)]
    return res


@case("density.moments", tol=1e-7, low=0.5)
def _(v, L, A):
    """Poles are placed according to the second moment, if this is at least 0.1."""
    b, iw = 10.0 / L, L * ct.iws(64)
    g = pole.gf_z(iw, L * ct.poles_(v), ct.res_(v))
    return [(gt.density_iw(iw, g, b, moments=mom_(L, 1.0, 3, v + 1)), 0, 0), (gt.density_iw(iw, g, b, moments=mom_(L, 1.0, 2, v + 1), n_fit=1), 0, 0)]


@case("density.amplitude", a=True, tol=1e-7, big=0)
def _(v, L, A):
    """The density is linear in Green's function and moments."""
    p, w = ct.poles_(v), A * ct.res_(v)
    (iw, rp), b = (gt.pade_frequencies(20, beta=10.0), 10.0) if v % 2 else ((ct.iws(64), 1.0), 10.0)
    g = pole.gf_z(iw, p, w)
    mom = [np.sum(w * p**k) for k in range(4)]
    return [(gt.density_iw(iw, g, b, weights=rp, moments=mom[:m], n_fit=n), 0, 1) for m, n in ((1, 0), (1, 1))]   # more moments set the position of the poles


@case("density.chemical_potential", big=60)
def _(v, L, A):
    occ, b = [0.3, 0.8, 0.5, 0.02, 0.97, 0.11, 0.6][v], 5.0 / L
    root = gt.chemical_potential(lambda mu: gt.fermi_fct(-mu, b) - occ, mu0=L * 0.2 * v, step0=L * (1 + v), xtol=L * 1e-12)
    return [(root + L, 1, 0)]


# --- disorder -----------------------------------------------------------------------------------
def hilbert(L):
    return lambda z: gt.bethe_hilbert_transform(z, half_bandwidth=L)


@case("cpa.equations")
def _(v, L, A):
    z, s, e, x = L * (0.9 * ct.zup(v)), L * (0.1 * ct.seq(4, v) - 0.2j), L * ct.ev2(v), ct.conc(v)
    return [(cpa.gf_cmpt_z(z, s, e, hilbert(L)), -1, 0), (cpa.self_root_eq(s, z, e, x, hilbert(L)), 1, 0), (cpa.self_fxdpnt_eq(s, z, e, x, hilbert(L)), 1, 0)]


@case("cpa.solve_root", tol=1e-6, low=0.5, big=12)   # the step of the root search of scipy assumes values of order one or larger
def _(v, L, A):
    z = L * np.array([0.3 + 0.4j, -0.8 + 0.5j, 1.2 + 1j])
    s = cpa.solve_root(z, L * ct.ev2(v), ct.conc(v), hilbert(L), options={"fatol": 1e-10 * L, "maxiter": 200})
    return [(s, 1, 0)]


@case("beb.equations", tol=1e-8)
def _(v, L, A):
    z, e, x = L * ct.zup(v)[0], L * ct.ev2(v), ct.conc(v)
    s = L * (ct.mat(v, 2) * 0.1 - 0.5j * np.eye(2))
    dec = beb.SpecDec(*gm.decompose_her(ct.HOP))
    return [(beb.gf_loc_z(z, s, ct.HOP, hilbert(L)), -1, 0), (beb.gf_loc_z(z, s, ct.HOP, hilbert(L), diag=False), -1, 0),
            (beb.gf_loc_z(z, s, np.ones((2, 2)), hilbert(L)), -1, 0), (beb.self_root_eq(s, z, e, x, dec, hilbert(L)), 1, 0)]


@case("beb.hopping", tol=1e-8)
def _(v, L, A):
    """Units carried by the hopping matrix instead of the lattice."""
    z, e, x = L * ct.zup(v)[0], L * ct.ev2(v), ct.conc(v)
    s = L * (ct.mat(v, 2) * 0.1 - 0.5j * np.eye(2))
    hop = L * (ct.HOP if v % 2 else np.ones((2, 2)))
    dec = beb.SpecDec(*gm.decompose_her(hop))
    tr = dec.truncate()
    return [(beb.gf_loc_z(z, s, hop, hilbert(1.0)), -1, 0), (beb.gf_loc_z(z, s, hop, hilbert(1.0), diag=False), -1, 0), (beb.self_root_eq(s, z, e, x, tr, hilbert(1.0)), 1, 0),
            (tr.eig, 1, 0), (tr.reconstruct(), 1, 0)]


@case("beb.solve_root", tol=1e-6, low=0.5, big=12, variants=3)
def _(v, L, A):
    z = L * np.array([0.3 + 0.4j, -0.8 + 0.5j])
    s = beb.solve_root(z, L * ct.ev2(v), ct.conc(v), ct.HOP, hilbert(L), options={"fatol": 1e-10 * L, "maxiter": 200})
    return [(s, 1, 0)]


# --- matrices -----------------------------------------------------------------------------------
@case("matrix", tol=1e-8)
def _(v, L, A):
    out = []
    for dec, m in ((gm.decompose_mat, ct.mat(v)), (gm.decompose_sym, ct.sym(v)), (gm.decompose_her, ct.her(v))):
        d = dec(L * m)
        out += [(np.sort_complex(d.eig), 1, 0), (d.reconstruct(), 1, 0), (d.reconstruct(1.0 / (d.eig + 9j * L)), -1, 0), (d.reconstruct(kind="diag"), 1, 0)]
    out.append((gm.decompose_her(L * ct.her(v)).s, 1, 0))
    out.append((gm.gf_2x2_z(L * ZL, L * 0.3, L * -0.2, L * (0.5 + 0.1j * v)), -1, 0))
    out.append((gm.gf_2x2_z(L * ZL, L * 0.3, L * -0.2, L * 0.0), -1, 0))
    out.append((gm.gf_2x2_z(L * ZL, L * 0.3, L * -0.2, L * 0.4, hilbert_trafo=hilbert(L)), -1, 0))
    return out


@case("siam", tol=1e-8)
def _(v, L, A):
    e, b, h = L * ct.eps_(v), L * ct.poles_(v), L * (ct.res_(v) + 0.1j)
    tt, beta = np.array([0, 0.4, 3]) / L, 10.0 / L
    return [(siam.gf0_loc_z(L * ZL, e, b, abs(h) ** 2), -1, 0), (siam.hybrid_z(L * ZL, b, abs(h) ** 2), 1, 0), (siam.hamiltonian_matrix(e, b, h), 1, 0),
            (siam.gf0_loc_ret_t(tt, e, b, h), 0, 0), (siam.gf0_loc_gr_t(tt, e, b, h, beta), 0, 0), (siam.gf0_loc_le_t(tt, e, b, h, beta), 0, 0)]


@case("linalg", a=True, tol=1e-8)
def _(v, L, A):
    """Units of the system (L) and of the right-hand side (A)."""
    a, b, c, d = ct.mat(v, 5)[:, :3], ct.cseq(5, v), ct.mat(v + 1, 3)[:2], ct.cseq(2, v)
    q = linalg.orth_compl(L * a)
    return [(linalg.lstsq_ec(L * a, A * b, c, A * d / L), -1, 1), (linalg.lstsq_ec(a, A * b * L, L * c, A * d * L * L), 1, 1), (q @ q.conj().T, 0, 0)]


# --- extrapolation and analytic continuation ----------------------------------------------------
@case("linearprediction", a=True, tol=1e-7)
def _(v, L, A):
    x = A * L * ct.cseq(14, v)
    out = []
    for f in (lp.pcoeff_covar, lp.pcoeff_burg):
        pc, var = f(x, 3)
        n = 1 if f is lp.pcoeff_covar else 2
        out += [(pc, 0, 0), (var, n, n), (lp.predict(x, pc, 5), 1, 1), (lp.predict(x, pc, 5, stable=True), 1, 1)]
    return out


@case("pade.thiele", a=True, tol=1e-6)
def _(v, L, A):
    fz = A * (ct.gt_pole(ct.ZIN, v) + 0.01 * ct.cseq(6, v)) / L
    co = gp.coefficients(L * ct.ZIN, fz)
    it = list(gp.calc_iterator(L * ct.ZOUT, L * ct.ZIN, co))
    return [(co[..., 0], -1, 1), (co[..., 1:], -1, 0)] + [(x, -1, 1) for x in it]


@case("pade.average", a=True, tol=1e-6)
def _(v, L, A):
    zin = 1j * np.array([0.3, 0.9, 1.5, 2.1, 2.9, 3.3, 4.5, 5.1])
    fz = A * (ct.gt_pole(zin, v) + 0.02 * ct.cseq(8, v)) / L
    out = []
    for kind in (gp.KindGf(2, 8), gp.KindSelf(1, 7)):
        for res in (gp.averaged(L * ct.ZOUT, L * zin, fct_z=fz, kind=kind),
                    gp.averaged(L * ct.ZOUT, L * zin, fct_z=fz, valid_z=L * ct.ZOUT, kind=kind, filter_valid=gp.FilterNegImag(0.05 * A / L)),
                    gp.averaged(L * ct.ZOUT, L * zin, fct_z=fz, valid_z=L * ct.ZOUT, kind=kind, filter_valid=gp.FilterHighVariance(rel_num=0.7))):
            out += [(res.x, -1, 1), (res.err, -1, 1)]
    return out


@case("polepade", a=True, tol=1e-6, big=12)
def _(v, L, A):
    z = 1.5 * np.exp(2j * np.pi * (np.arange(12) + 0.3) / 12)
    p, r = ct.poles_(v), ct.res_(v)
    fz = A * pole.gf_z(z, p, r) / L
    kws = [dict(degree=-1), dict(degree=-1, moments=[A]), dict(degree=-1, weight=1.5 + ct.seq(12, v))]
    res = polepade.residues_ols(L * z, fz, poles=L * p, moments=[A])[0]
    out = [(res, 0, 1), (float(polepade.number_poles(L * z, fz, degree=-1)), 0, 0)]
    for kwds in kws:
        app = polepade.continuation(L * z, fz, rotate=False, **kwds)
        out += [(np.sort_complex(np.round(app.poles / L, 9)), 0, 0), (app.eval_polefct(L * np.array([0.4 + 0.3j, 2j, -3.0])), -1, 1),
                (app.eval_zeropole(L * np.array([0.4 + 0.3j, 2j, -3.0])), -1, 1)]
    return out


@case("hermpade", a=True, tol=1e-5, big=4)
def _(v, L, A):
    """Expansion variable of dimension -1: coefficient n of dimension n."""
    an = A * ct.taylor(v) * L ** np.arange(9)
    x = np.array([0.1, -0.2, 0.15j, 0.3 + 0.1j]) / L
    return [(hp.pade(an, 3, 3).eval(x), 0, 1), (hp.pade(an, 3, 3, fast=True).eval(x), 0, 1), (hp.pader(an, 3, 3).eval(x), 0, 1)]


@case("hermpade.data", a=True, tol=1e-5)
def _(v, L, A):
    """Only the unit of the function changes."""
    an, x = A * L * ct.taylor(v), np.array([0.1, -0.2, 0.15j, 0.3 + 0.1j])
    return [(f(an, 3, 3).eval(x), 1, 1) for f in (hp.pade, hp.pade_lstsq, hp.pader)]


@case("zeropole", a=True)
def _(v, L, A):
    zp = ZeroPole(L * (ct.poles_(v) + 0.1), L * ct.poles_(v)[:2], A)
    rp = zp.to_ratpol()
    return [(zp.eval(L * ZL), 1, 1), (zp.reciprocal(L * ZL), -1, -1), (rp.eval(L * ZL), 1, 1)]


# --- models -------------------------------------------------------------------------------------
@case("models")
def _(v, L, A):
    t, U = ct.DS[v], ct.DS[(v + 3) % 7] * (-1) ** v
    return [(gt.surface_gf_zeps(L * ZL, L * 0.3 * v, hopping_nn=L * t), -1, 0), (gt.hubbard_I_self_z(L * ZL, L * U, 0.1 * v), 1, 0)] + [
            (gt.hubbard_dimer_gf_z(L * ZL, hopping=L * t, interaction=L * U, kind=k), -1, 0) for k in "+-"]


UNITS = {"2^3": 2.0**3, "2^-20": 2.0**-20, "2^40": 2.0**40, "1000": 1e3, "0.001": 1e-3}
UNITS_T = dict(UNITS, **{"2^-40": 2.0**-40, "2^100": 2.0**100, "2^-100": 2.0**-100, "1e9": 1e9, "3e-7": 3e-7})
DATA = {"1": 1.0, "2^-30": 2.0**-30, "2^20": 2.0**20}
DATA_T = dict(DATA, **{"1e-9": 1e-9, "1e12": 1e12})
_ref = {}


def units(c):
    name = c.choose("function", list(CASES))
    f, amp, tol, big, low, variants = CASES[name]
    L = c.choose("energy unit", {k: u for k, u in c.pick(UNITS, UNITS_T).items() if abs(np.log2(u)) <= big and u > low} or {"2^3": 8.0})
    A = c.choose("data unit", c.pick(DATA, DATA_T) if amp else {"1": 1.0})
    v = c.choose("variant", list(range(min(variants, c.pick(3, 7)))))
    with np.errstate(all="ignore"):
        if (name, v) not in _ref:
            _ref[name, v] = f(v, 1.0, 1.0)
        got = f(v, L, A)
    want = _ref[name, v]
    for i, ((x, pe, pa), (y, _, _)) in enumerate(zip(got, want)):
        x, y = np.asarray(x), np.asarray(y)
        assert x.shape == y.shape, f"{name}: shape of result {i} depends on the unit"
        fac = L**pe * A**pa
        scale = np.max(abs(y[np.isfinite(y)]), initial=0.0)
        c.close(x / fac, y, f"{name}: result {i} in another unit", tol, tol * scale)


# --- origin of the energy -----------------------------------------------------------------------
ORIGIN = {}


def moved(name, tol=1e-9):
    """Register f(v, s) -> list of results from which the shift s is already removed."""
    def reg(f):
        ORIGIN[name] = (f, tol)
        return f
    return reg


def phase(tt, s):
    return np.exp(1j * s * tt)


@moved("pole")
def _(v, s):
    p, r = ct.poles_(v), ct.res_(v)
    tt = np.array([0.0, 0.25, 3.0])
    gf = pole.PoleGf(p + s, r)
    return [pole.gf_z(ZL + s, p + s, r), pole.gf_d1_z(ZL + s, p + s, r), pole.gf_ret_t(tt, p + s, r) * phase(tt, s), gf.eval_z(ZL + s), gf.eval_ret_t(tt) * phase(tt, s)]


@moved("cpa", 1e-8)
def _(v, s):
    z, sig, e, x = 0.9 * ct.zup(v), 0.1 * ct.seq(4, v) - 0.2j, ct.ev2(v), ct.conc(v)
    h = hilbert(1.0)
    return [cpa.gf_cmpt_z(z + s, sig + s, e + s, h), cpa.self_root_eq(sig + s, z + s, e + s, x, h), cpa.self_fxdpnt_eq(sig + s, z + s, e + s, x, h) - s]


@moved("beb", 1e-8)
def _(v, s):
    z, e, x, h = ct.zup(v)[0], ct.ev2(v), ct.conc(v), hilbert(1.0)
    sig = ct.mat(v, 2) * 0.1 - 0.5j * np.eye(2)
    dec = beb.SpecDec(*gm.decompose_her(ct.HOP))
    sh = s * np.eye(2)
    return [beb.gf_loc_z(z + s, sig + sh, ct.HOP, h), beb.gf_loc_z(z + s, sig + sh, ct.HOP, h, diag=False), beb.self_root_eq(sig + sh, z + s, e + s, x, dec, h)]


@moved("matrix", 1e-8)
def _(v, s):
    out = [gm.gf_2x2_z(ZL + s, 0.3 + s, -0.2 + s, 0.5 + 0.1j * v), gm.gf_2x2_z(ZL + s, 0.3 + s, -0.2 + s, 0.4, hilbert_trafo=hilbert(1.0))]
    for dec, m in ((gm.decompose_mat, ct.mat(v)), (gm.decompose_sym, ct.sym(v)), (gm.decompose_her, ct.her(v))):
        d = dec(m + s * np.eye(3))
        out += [d.reconstruct() - s * np.eye(3), d.reconstruct(1 / (d.eig - s + 9j))]
    return out


@moved("siam", 1e-8)
def _(v, s):
    e, b, h = ct.eps_(v), ct.poles_(v), ct.res_(v) + 0.1j
    tt = np.array([0.0, 0.25, 3.0])
    return [siam.gf0_loc_z(ZL + s, e + s, b + s, abs(h) ** 2), siam.hybrid_z(ZL + s, b + s, abs(h) ** 2), siam.gf0_loc_ret_t(tt, e + s, b + s, h) * phase(tt, s)]


@moved("fourier.laplace", 1e-8)
def _(v, s):
    if abs(s) > 4:       # the phase needs to be resolved by the time step
        s = s / 1024
    g, z = ct.gft(v) * np.exp(-1j * s * ct.TT), ct.zup(v)
    return [f(ct.TT, g, z + s) for f in (fourier.tt2z_trapz, fourier.tt2z_simps)]


@moved("fourier.laplace.extrapolated", 1e-5)
def _(v, s):
    if abs(s) > 4:
        s = s / 1024
    g, z = ct.gft(v) * np.exp(-1j * s * ct.TT), ct.zup(v)
    return [f(ct.TT, g, z + s) for f in (fourier.tt2z_pade, fourier.tt2z_lpz)]


@moved("pade", 1e-6)
def _(v, s):
    fz = ct.gt_pole(ct.ZIN, v) + 0.01 * ct.cseq(6, v)
    co = gp.coefficients(ct.ZIN + s, fz)
    av = gp.averaged(ct.ZOUT + s, ct.ZIN + s, fct_z=fz, kind=gp.KindGf(2, 6))
    return [co, *gp.calc_iterator(ct.ZOUT + s, ct.ZIN + s, co), av.x, av.err]


@moved("zeropole")
def _(v, s):
    zp = ZeroPole(ct.poles_(v) + 0.1 + s, ct.poles_(v)[:2] + s, 1.5)
    return [zp.eval(ZL + s), zp.reciprocal(ZL + s)]


@moved("models", 1e-8)
def _(v, s):
    return [gt.surface_gf_zeps(ZL + s, 0.3 * v + s, hopping_nn=ct.DS[v])]


@moved("chemical_potential")
def _(v, s):
    occ = [0.3, 0.8, 0.5, 0.02, 0.97, 0.11, 0.6][v]
    return [1 + gt.chemical_potential(lambda mu: gt.fermi_fct(s - mu, 5.0) - occ, mu0=s + 0.2 * v, xtol=1e-12) - s]


_ref0 = {}


def origin(c):
    name = c.choose("function", list(ORIGIN))
    f, tol = ORIGIN[name]
    s = c.choose("shift", c.pick([0.5, -2.0, 16.0, -1024.0], [0.5, -0.25, -2.0, 3.0, 16.0, -64.0, -1024.0, 4096.0]))
    v = c.choose("variant", list(range(c.pick(3, 7))))
    with np.errstate(all="ignore"):
        if (name, v) not in _ref0:
            _ref0[name, v] = f(v, 0.0)
        got = f(v, s)
    acc = tol + 1e-11 * abs(s)     # cancellation of the shift against the distance to the closest pole
    for i, (x, y) in enumerate(zip(got, _ref0[name, v])):
        x, y = np.asarray(x), np.asarray(y)
        assert x.shape == y.shape, f"{name}: shape of result {i} depends on the origin"
        c.close(x, y, f"{name}: result {i} for another origin of the energy", acc, acc * np.max(abs(y), initial=0.0))


units.shard = 2
origin.shard = 1
HARNESSES = {"units": units, "origin": origin}
