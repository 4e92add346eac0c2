"""C29: model Green's functions and zero-pole containers."""
import itertools

import numpy as np
from numpy.polynomial import Polynomial
import gftool as gt
from gftool.basis import RatPol, ZeroPole

BOUNDS = ("Hubbard dimer: 7 hoppings x 8 interactions of both signs x both kinds x 12 frequencies in both half-planes; Hubbard-I: 6 U x 6 occupations x frequencies x array shapes; "
          "surface: 7 hoppings x 4 energies x 12 frequencies incl. scalar/array mixtures; zero-pole: all multisets of 0..3 (thorough 4) zeros and poles over 5 values x amplitudes x shapes; up to 200 zeros and poles")
ASSUMPTIONS = ["dimer reference: Lehmann representation from exact diagonalisation of the 16-dimensional Fock space in the singlet ground state of two electrons",
               "atomic-limit reference: G = (1-n)/z + n/(z-U); semi-infinite chain: continued fraction iterated to convergence",
               "the dimer with U = t = 0 has no isolated ground state and is excluded"]
Z = np.array([0.3 + 0.1j, -1.2 + 0.5j, 2.5 + 1e-3j, -4 + 2j, 10j, 0.7 - 0.2j, -2.2 - 1j, 50 + 1j, 1e-3 + 0.02j, 1.1 + 1.1j, -0.4 - 3j, 300j])


def fock():
    """Annihilators of the modes (1 up, 2 up, 1 down, 2 down)."""
    a = np.array([[0, 1], [0, 0]], dtype=float)
    sz, one = np.diag([1.0, -1.0]), np.eye(2)
    out = []
    for i in range(4):
        mat = np.eye(1)
        for j in range(4):
            mat = np.kron(mat, sz if j < i else (a if j == i else one))
        out.append(mat)
    return out


CC = fock()


def dimer_reference(z, t, U, sign, spin):
    c1u, c2u, c1d, c2d = CC
    ham = -t * (c1u.T @ c2u + c2u.T @ c1u + c1d.T @ c2d + c2d.T @ c1d)
    ham = ham + U * (c1u.T @ c1u @ c1d.T @ c1d + c2u.T @ c2u @ c2d.T @ c2d)
    vac = np.zeros(16)
    vac[0] = 1.0
    pair = [((c1u + k * c2u).T / np.sqrt(2)) @ ((c1d + k * c2d).T / np.sqrt(2)) @ vac for k in (1, -1)]
    basis = np.array(pair).T
    e2, v2 = np.linalg.eigh(basis.T @ ham @ basis)
    e0, gs = e2[0], basis @ v2[:, 0]
    assert np.allclose(ham @ gs, e0 * gs)
    en, vec = np.linalg.eigh(ham)
    op = ((c1u + sign * c2u) if spin == "up" else (c1d + sign * c2d)) / np.sqrt(2)
    add = (vec.T @ op.T @ gs) ** 2       # electron addition
    rem = (vec.T @ op @ gs) ** 2         # electron removal
    # eigenvectors of degenerate levels of different particle number may mix: the sums are still exact
    return sum(add[k] / (z - (en[k] - e0)) + rem[k] / (z - (e0 - en[k])) for k in range(16))


def dimer(c):
    t = c.choose("t", [1.0, -1.0, 0.3, -2.5, 0.0, 1e-3, 40.0])
    U = c.choose("U", [2.0, -2.0, 0.0, 8.0, -5.5, 1e-3, 60.0, 0.7])
    c.require(abs(t) + abs(U) > 0)
    kind = c.choose("kind", ["+", "-"])
    form = c.choose("input", ["array", "scalar", "2d", "default"])
    sign = 1 if kind == "+" else -1
    # symmetry-broken degeneracies of t = 0 do not matter: the singlet is selected explicitly
    want = dimer_reference(Z, t, U, sign, c.choose("spin", ["up", "down"]))
    tol = 1e-11 * (1 + abs(U) + abs(t)) / abs(Z.imag)
    if form == "default":
        c.require(kind == "+")
        got = gt.hubbard_dimer_gf_z(Z, t, U)
    elif form == "array":
        got = gt.hubbard_dimer_gf_z(Z, hopping=t, interaction=U, kind=kind)
    elif form == "scalar":
        got = np.array([gt.hubbard_dimer_gf_z(complex(z), hopping=t, interaction=U, kind=kind) for z in Z])
    else:
        got = np.ravel(gt.hubbard_dimer_gf_z(Z.reshape(3, 4), hopping=t, interaction=U, kind=kind))
    c.close(got, want, "dimer Green's function", rtol=1e-9, atol=tol)


def dimer_reject(c):
    kind = c.choose("kind", ["", "0", "+-", "plus", None, 1, "++"])
    c.raises(ValueError, lambda: gt.hubbard_dimer_gf_z(Z, hopping=1.0, interaction=2.0, kind=kind), "unknown kind")


def hubbard_one(c):
    U = c.choose("U", [0.0, 1.0, 5, -3.0, 1e-3, 80.0])
    occ = c.choose("occ", [0.0, 0.5, 1.0, 0.1, 0.97, 1])
    shape = c.choose("shape", ["array", "scalar", "broadcast"])
    z = Z
    gf = (1 - occ) / z + occ / (z - U)
    want = z - 1 / gf
    if shape == "array":
        got = gt.hubbard_I_self_z(z, U, occ)
    elif shape == "scalar":
        got = np.array([gt.hubbard_I_self_z(complex(x), U, occ) for x in z])
    else:
        occs = np.array([0.2, occ, 0.8])
        got = gt.hubbard_I_self_z(z[:, np.newaxis], np.array([U, U, 1.5]), occs)
        if not c.equal(got.shape, (z.size, 3), "shape"):
            return
        for k, (u, n) in enumerate(zip([U, U, 1.5], occs)):
            c.close(got[:, k], z - 1 / ((1 - n) / z + n / (z - u)), "atomic self-energy", rtol=1e-9, atol=1e-9 * abs(z) + 1e-12)
        got = got[:, 1]
    c.close(got, want, "atomic self-energy", rtol=1e-9, atol=1e-10 * abs(z) + 1e-12)
    # Dyson equation and high-frequency Hartree term
    c.close(1 / (z - got), gf, "atomic Green's function", rtol=1e-8, atol=1e-12 / abs(z.imag))
    c.close(gt.hubbard_I_self_z(1e9j, U, occ), U * occ, "Hartree limit", rtol=1e-6, atol=1e-7 * U ** 2 + 1e-15)


def surface(c):
    t = c.choose("t", [0.5, -0.5, 1.0, 2, -3.0, 1e-2, 25.0])
    eps = c.choose("eps", [0.0, 0.7, -3.0, 12])
    form = c.choose("input", ["array", "scalar", "eps_array"])
    z = Z[abs(Z.imag) > 0.05]
    def ref(z, e):
        # semi-infinite chain solved as 1/(w - t^2/(w - t^2/...)): quadratic with the physical root checked by iteration
        w = np.asarray(z - e, dtype=np.clongdouble)
        cand = [(w + s * np.sqrt(w - 2 * t) * np.sqrt(w + 2 * t)) / (2 * np.longdouble(t) ** 2) for s in (1, -1)]
        g = np.where(abs(cand[0]) < abs(cand[1]), cand[0], cand[1])
        # the physical solution is the stable fixed point of g -> 1/(w - t^2 g): |t g| < 1
        assert np.all(abs(t * g) <= 1 + 1e-12)
        g = 1 / (w - t * t * g)
        return g.astype(complex)
    if form == "array":
        got, want = gt.surface_gf_zeps(z, eps, hopping_nn=t), ref(z, eps)
    elif form == "scalar":
        got, want = np.array([gt.surface_gf_zeps(complex(x), eps, t) for x in z]), ref(z, eps)
    else:
        ee = np.array([eps, -0.3, 2.0])
        got, want = gt.surface_gf_zeps(z[:, np.newaxis], ee, hopping_nn=t), ref(z[:, np.newaxis], ee)
    c.close(got, want, "surface Green's function", rtol=1e-9, atol=1e-13)
    # finite chain of growing length converges to it where the damping is strong enough
    if form == "array" and abs(t) <= 1:
        sel = abs(z.imag) >= 0.5
        w = z[sel] - eps
        g = 1 / w
        for _ in range(400):
            g = 1 / (w - t * t * g)
        c.close(got[sel], g, "long chain", rtol=1e-9, atol=1e-13)


ALPHA = [0.3, -1.1, 0.5 + 0.4j, 0.0, -0.2 - 0.9j]
EVAL = np.array([1.7 + 0.3j, -0.6j, 2.4, -3.1 + 1j, 0.11 + 0.07j])


def product(z, roots):
    out = np.ones(np.shape(z), dtype=complex)
    for r in roots:
        out = out * (z - r)
    return out


def zeropole(c):
    nmax = c.pick(3, 4)
    sets = [s for n in range(nmax + 1) for s in itertools.combinations_with_replacement(ALPHA, n)]
    zeros = c.choose("zeros", c.pick([s for s in sets if len(s) < 3 or s[0] == 0.3], sets))
    poles = c.choose("poles", c.pick([s for s in sets if len(s) < 3 or s[-1] == 0.0], sets))
    amp = c.choose("amplitude", [None, 2.5, -0.3 + 0.8j])
    zp = ZeroPole(np.array(zeros, dtype=complex), np.array(poles, dtype=complex), *([] if amp is None else [amp]))
    a = 1 if amp is None else amp
    want = a * product(EVAL, zeros) / product(EVAL, poles)
    c.close(zp.eval(EVAL), want, "value", rtol=1e-11, atol=0)
    c.close(zp.reciprocal(EVAL), 1 / want, "reciprocal", rtol=1e-11, atol=0)
    c.close(zp.eval(complex(EVAL[0])), want[0], "scalar value", rtol=1e-11, atol=0)
    c.close(zp.reciprocal(list(EVAL)), 1 / want, "reciprocal of a list", rtol=1e-11, atol=0)
    c.close(zp.eval(EVAL.reshape(5, 1)), want.reshape(5, 1), "shape", rtol=1e-11, atol=0)
    rp = zp.to_ratpol()
    c.equal((rp.numer.degree(), rp.denom.degree()), (len(zeros), len(poles)), "degrees of the polynomials")
    c.close(rp.eval(EVAL), want, "rational polynomial", rtol=1e-9, atol=0)
    c.close(rp.numer(EVAL), a * product(EVAL, zeros), "numerator", rtol=1e-9, atol=1e-10)
    c.close(rp.denom(EVAL), product(EVAL, poles), "denominator", rtol=1e-9, atol=1e-10)
    other = RatPol(Polynomial(rp.numer.coef), Polynomial(rp.denom.coef))
    c.close(other.eval(EVAL), want, "rational polynomial from coefficients", rtol=1e-9, atol=0)
    # z at a zero or pole
    if zeros and not set(zeros) & set(poles):
        c.close(zp.eval(zeros[0]), 0, "value at a zero", atol=0)


zeropole.shard = 1


def zeropole_batch(c):
    """Stacked zeros and poles broadcast against z and amplitude."""
    shape = c.choose("batch", [(), (1,), (2,), (3, 2)])
    nz, npo = c.choose("nz", [0, 1, 2, 3]), c.choose("np", [0, 1, 2, 3])
    amp = c.choose("amplitude", ["scalar", "array"])
    zshape = c.choose("z", ["scalar", "batch", "outer"])
    size = int(np.prod(shape, dtype=int))
    zeros = np.array([ALPHA[(3 * i + i // 5) % 5] + 0.01 * i for i in range(size * nz)], dtype=complex).reshape(shape + (nz,))
    poles = np.array([ALPHA[(2 * i + 1) % 5] - 0.03j * i for i in range(size * npo)], dtype=complex).reshape(shape + (npo,))
    a = (1.0 + np.arange(size)).reshape(shape) if amp == "array" else -0.7
    if zshape == "scalar":
        z = np.array(1.3 + 0.4j)
    elif zshape == "batch":
        z = (1.3 + 0.4j + np.arange(size)).reshape(shape)
    else:
        z = EVAL.reshape((5,) + (1,) * len(shape))
    zp = ZeroPole(zeros, poles, a)
    got, rec = zp.eval(z), zp.reciprocal(z)
    full = np.broadcast_shapes(shape, z.shape)
    if not (c.equal(np.shape(got), full, "shape") and c.equal(np.shape(rec), full, "shape")):
        return
    zf, af = np.broadcast_to(z, full), np.broadcast_to(a, full)
    zrs, pls = np.broadcast_to(zeros, full + (nz,)), np.broadcast_to(poles, full + (npo,))
    for idx in np.ndindex(*full):
        want = af[idx] * product(zf[idx], zrs[idx]) / product(zf[idx], pls[idx])
        c.close(got[idx], want, "stacked value", rtol=1e-11, atol=0)
        c.close(rec[idx], 1 / want, "stacked reciprocal", rtol=1e-11, atol=0)


def sizes(c):
    """Many zeros and poles."""
    nz, npo = c.choose("n_zeros", [0, 6, 9, 20, 60, 200]), c.choose("n_poles", [0, 6, 9, 20, 60, 200])
    shape = c.choose("batch", [(), (3,)])
    s = int(np.prod(shape, dtype=int))
    zeros = 0.9 * np.exp(1j * (np.arange(s * nz)**2 * 0.7 + 0.1)).reshape(shape + (nz,))
    poles = 0.8 * np.exp(1j * (np.arange(s * npo)**2 * 1.1 + 0.3)).reshape(shape + (npo,))
    z = np.array([1.4 + 0.2j, -0.3 + 1.2j, 0.05 + 0.02j]).reshape((3,) + (1,) * len(shape))
    zp = ZeroPole(zeros, poles, 1.5 - 0.5j)
    want = (1.5 - 0.5j) * np.exp(np.sum(np.log(z[..., None] - zeros), axis=-1) - np.sum(np.log(z[..., None] - poles), axis=-1))
    c.close(zp.eval(z), want, "value", rtol=1e-10, atol=0)
    c.close(zp.reciprocal(z), 1 / want, "reciprocal", rtol=1e-10, atol=0)
    if shape == () and max(nz, npo) <= 20:
        rp = zp.to_ratpol()
        c.equal((rp.numer.degree(), rp.denom.degree()), (nz, npo), "degrees")
        c.close(rp.eval(z[:2]), want[:2], "rational polynomial", rtol=1e-6, atol=0)


HARNESSES = {"sizes": sizes, "dimer": dimer, "dimer_reject": dimer_reject, "hubbard_one": hubbard_one, "surface": surface,
             "zeropole": zeropole, "zeropole_batch": zeropole_batch}

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(models\.|pole\.ZeroPole)", units=r"^(models|zeropole)$", origin=r"^(models|zeropole)$")
