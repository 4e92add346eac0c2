"""C23: non-interacting single impurity Anderson model against exact diagonalisation."""
import itertools

import numpy as np
from gftool import siam
from scipy.linalg import expm

BOUNDS = ("all baths of 0..3 sites with energies over {0, 0.5, -1.5} and hoppings over {0, 0.7, -1, 0.6+0.8j, -0.5j} (thorough: 4 sites) x impurity energies x 6 times of both signs x "
          "6 beta x 7 frequencies; 8 (thorough: 22) larger baths of 4..100 sites x 6 kinds of energies x 4 kinds of hopping x 3 energy scales; dtypes; all combinations of batch shapes of the arguments up to 2 axes")
ASSUMPTIONS = ["reference: resolvent by numpy.linalg.inv, evolution by scipy expm, occupation from eigenvalues of the independently built matrix"]
EB = [0.0, 0.5, -1.5]
HOP = [0.0, 0.7, -1.0, 0.6 + 0.8j, -0.5j]
ZS = np.array([0.3 + 0.2j, -1 - 1j, 5j, 40.0, 1e5j, -7 + 0.1j, 0.5 + 1e-2j])
TT = np.array([0.0, 1e-3, 0.7, 13.0, -0.4, -21.0])
BETA = [1.0, 1, 0.05, 10.0, 300.0, 1e5]


def matrix(e0, eb, v):
    n = len(eb)
    h = np.zeros((n + 1, n + 1), complex)
    h[0, 0] = e0
    for k in range(n):
        h[k + 1, k + 1] = eb[k]
        h[0, k + 1] = v[k]
        h[k + 1, 0] = np.conj(v[k])
    return h


def occ(x):
    return 0.5 * (1 - np.tanh(0.5 * x))


def refs(h, tt, beta):
    eig, vec = np.linalg.eigh(h)
    w = abs(vec[0])**2
    ph = np.exp(-1j * np.multiply.outer(np.asarray(tt), eig))
    f = occ(beta * eig)
    return -1j * (ph * w * occ(-beta * eig)).sum(-1), 1j * (ph * w * f).sum(-1)


def bath(c, nmax):
    n = c.choose("n_bath", range(nmax + 1))
    pairs = list(itertools.product(EB, HOP if n < 3 else HOP[1:4]))
    lo, eb, v = 0, [], []
    for k in range(n):
        i = c.choose(f"site{k}", list(range(lo, len(pairs))))
        lo = i
        eb.append(pairs[i][0])
        v.append(pairs[i][1])
    return np.array(eb, dtype=float), np.array(v)


def single(c):
    e0 = c.choose("e_onsite", [0.0, -0.8])
    eb, v = bath(c, c.pick(3, 4))
    if v.size == 0:
        v = v.astype(float)
    elif not np.any(np.imag(v)):
        v = np.real(v)
    want = matrix(e0, eb, v)
    ham = siam.hamiltonian_matrix(np.array(e0), eb, v)
    c.close(ham, want, "Hamiltonian", rtol=1e-15, atol=0)
    hyb = siam.hybrid_z(ZS, eb, abs(v)**2)
    cross = np.asarray(v) * np.exp(1j * np.arange(np.size(v)))    # V_i V_j^*: off-diagonal hybridization, any phase
    c.close(siam.hybrid_z(ZS, eb, cross), [sum(b / (z - a) for a, b in zip(eb, cross)) for z in ZS], "complex weights", rtol=1e-12, atol=1e-13)
    ok = np.array([abs(np.linalg.det(z * np.eye(len(want)) - want)) > 1e-9 for z in ZS])
    res = np.array([np.linalg.inv(z * np.eye(len(want)) - want)[0, 0] if k else 0 for z, k in zip(ZS, ok)])
    c.close(hyb, [sum(abs(b)**2 / (z - a) for a, b in zip(eb, v)) for z in ZS], "hybridization", rtol=1e-12, atol=1e-13)
    c.close(np.where(ok, siam.gf0_loc_z(ZS, np.array(e0), eb, abs(v)**2), 0), res, "local Green's function", rtol=1e-9, atol=1e-12)
    ret = siam.gf0_loc_ret_t(TT, np.array(e0), eb, v)
    c.close(ret, [-1j * expm(-1j * t * want)[0, 0] if t >= 0 else 0 for t in TT], "retarded", rtol=0, atol=1e-11)
    for beta in BETA:
        gr, le = refs(want, TT, beta)
        tol = 1e-11 * max(1, beta / 100)
        got_gr = siam.gf0_loc_gr_t(TT, np.array(e0), eb, v, beta)
        got_le = siam.gf0_loc_le_t(TT, np.array(e0), eb, v, beta=beta)
        # a level at the Fermi edge is only known within the rounding of the eigenvalue
        c.close(got_gr, gr, "greater", rtol=0, atol=tol)
        c.close(got_le, le, "lesser", rtol=0, atol=tol)
        c.close(np.where(TT >= 0, got_gr - got_le, 0), ret, "ret = gr - le", rtol=0, atol=1e-11)


def dtypes(c):
    e0 = c.choose("e_onsite", {"float": np.array(0.5), "int": np.array(2), "f4": np.float32(0.5), "np": np.float64(-0.25)})
    eb = c.choose("e_bath", {"float": np.array([0.7, -0.2]), "int": np.array([1, -2]), "f4": np.array([0.5, 0.25], dtype=np.float32)})
    v = c.choose("hopping", {"float": np.array([0.6, 1.5]), "int": np.array([1, 2]), "complex": np.array([0.5j, 1 - 1j]), "mixed": np.array([0, 1.5]), "c8": np.array([0.5j, 1.5], dtype=np.complex64)})
    keep = eb.copy(), v.copy()
    want = matrix(e0, eb, v)
    c.close(siam.hamiltonian_matrix(e0, eb, v), want, "Hamiltonian", rtol=1e-15, atol=0)
    z = 0.3 + 0.7j
    single_prec = any(np.asarray(x).dtype in (np.float32, np.complex64) for x in (e0, eb, v))
    tol = 1e-5 if single_prec else 1e-12
    c.close(siam.gf0_loc_z(z, e0, eb, abs(v)**2), np.linalg.inv(z * np.eye(3) - want)[0, 0], "gf0_loc_z", rtol=tol, atol=tol)
    c.close(siam.gf0_loc_ret_t(np.array(1.3), e0, eb, v), -1j * expm(-1.3j * want)[0, 0], "retarded", rtol=tol, atol=tol)
    c.check(np.array_equal(keep[0], eb) and np.array_equal(keep[1], v), "arguments not modified")


SHAPES = [(), (1,), (3,), (2, 1), (2, 3)]


def batch(c):
    """All combinations of batch shapes: each element is the scalar problem."""
    sz = c.choose("time", SHAPES)
    s0 = c.choose("e_onsite", SHAPES)
    sb = c.choose("e_bath", SHAPES)
    sv = c.choose("hopping", SHAPES)
    n = c.choose("n_bath", c.pick([2], [1, 2, 3]))

    def mk(shape, off, cplx=False):
        i = np.arange(int(np.prod(shape))).reshape(shape) + off
        r = np.cos(1.3 * i * i + 0.4 * i)
        return r + 1j * np.sin(2.1 * i) if cplx else r

    tt, e0, eb, v = 5 * mk(sz, 3), mk(s0, 1), mk(sb + (n,), 7), mk(sv + (n,), 5, True)
    mat = np.broadcast_shapes(s0, sb, sv)
    out = np.broadcast_shapes(sz, mat)
    ham = np.empty(mat + (n + 1, n + 1), complex)
    e0_, eb_, v_ = np.broadcast_to(e0, mat), np.broadcast_to(eb, mat + (n,)), np.broadcast_to(v, mat + (n,))
    for i in np.ndindex(mat):
        ham[i] = matrix(e0_[i], eb_[i], v_[i])
    c.close(siam.hamiltonian_matrix(e0, eb, v), ham, "Hamiltonian", rtol=1e-15, atol=0)
    ham_, tt_ = np.broadcast_to(ham, out + (n + 1, n + 1)), np.broadcast_to(tt, out)
    ret, gr, le, gf = (np.empty(out, complex) for _ in range(4))
    for i in np.ndindex(out):
        gr[i], le[i] = refs(ham_[i], tt_[i], 3.0)
        ret[i] = (gr - le)[i] if tt_[i] >= 0 else 0
        gf[i] = np.linalg.inv((tt_[i] + 0.3j) * np.eye(n + 1) - ham_[i])[0, 0]
    c.close(siam.gf0_loc_z(tt + 0.3j, e0, eb, abs(v)**2), gf, "gf0_loc_z", rtol=1e-10, atol=1e-12)
    c.close(siam.gf0_loc_ret_t(tt, e0, eb, v), ret, "retarded", rtol=0, atol=1e-11)
    c.close(siam.gf0_loc_gr_t(tt, e0, eb, v, beta=3.0), gr, "greater", rtol=0, atol=1e-11)
    c.close(siam.gf0_loc_le_t(tt, e0, eb, v, beta=3.0), le, "lesser", rtol=0, atol=1e-11)


def large(c):
    """Larger baths with generic, symmetric or degenerate data over many energy scales."""
    n = c.choose("n_bath", c.pick([4, 5, 6, 7, 8, 9, 16, 33], [*range(4, 21), 32, 33, 64, 65, 100]))
    kind = c.choose("bath", ["generic", "symmetric", "degenerate", "star of zeros", "sorted", "reversed"])
    hop = c.choose("hopping", ["real", "complex", "imaginary", "one complex"])
    scale = c.choose("scale", [1.0, 1e-6, 1e4])
    i = np.arange(n)
    eb = np.cos(1.7 * i * i + 0.3 * i) * 2
    if kind == "symmetric":
        eb = np.linspace(-1, 1, n)
    elif kind == "degenerate":
        eb = np.round(eb)
    elif kind == "star of zeros":
        eb = np.zeros(n)
    elif kind == "sorted":
        eb = np.sort(eb)
    elif kind == "reversed":
        eb = np.sort(eb)[::-1]
    v = 0.2 + np.sin(1.1 * i + 0.2 * i * i) / np.sqrt(n)
    if hop == "complex":
        v = v * np.exp(1j * i)
    elif hop == "imaginary":
        v = 1j * v
    elif hop == "one complex":
        v = np.where(i == n - 1, v + 0.3j, v)
    eb, v, e0 = eb * scale, v * scale, -0.37 * scale
    want = matrix(e0, eb, v)
    c.close(siam.hamiltonian_matrix(np.array(e0), eb, v), want, "Hamiltonian", rtol=1e-15, atol=0)
    z = np.array([0.3 + 0.2j, -1 - 1j, 5j, 40.0]) * scale
    res = np.array([np.linalg.inv(x * np.eye(n + 1) - want)[0, 0] for x in z])
    c.close(siam.gf0_loc_z(z, np.array(e0), eb, abs(v)**2), res, "local Green's function", rtol=1e-10, atol=1e-12 / scale)
    hyb = (z - e0) - 1 / res
    c.close(siam.hybrid_z(z, eb, abs(v)**2), hyb, "hybridization", rtol=1e-9, atol=1e-10 * scale)
    tt = np.array([0.0, 1e-3, 0.7, 13.0, -0.4, -21.0]) / scale
    ret = siam.gf0_loc_ret_t(tt, np.array(e0), eb, v)
    for beta in (1.0 / scale, 7.0 / scale, 0.05 / scale):
        gr, le = refs(want, tt, beta)
        c.close(siam.gf0_loc_gr_t(tt, np.array(e0), eb, v, beta), gr, "greater", rtol=0, atol=1e-11)
        c.close(siam.gf0_loc_le_t(tt, np.array(e0), eb, v, beta=beta), le, "lesser", rtol=0, atol=1e-11)
        c.close(ret, np.where(tt >= 0, gr - le, 0), "retarded", rtol=0, atol=1e-11)


def ranges(c):
    """Energies, hopping, frequencies and times of unrelated orders of magnitude."""
    e0 = c.choose("e_onsite", [0.0, 1e-7, 2.0, -500.0])
    eb = c.choose("e_bath", [1e-8, 1e-3, 1.0, 1e3]) * np.array([0.3, -1.0, 0.0, 0.31])
    v = c.choose("hopping scale", [1e-10, 1e-4, 0.5, 1e3]) * c.choose("hopping", {"real": np.array([1.0, 0.5, -0.7, 1e-3]), "complex": np.array([1j, 0.5, -0.7 + 0.1j, 1e-3])})
    z = np.multiply.outer([1e-6, 1e-2, 1.0, 1e2, 1e6], [1j, 0.6 - 0.8j, -0.9 + 0.1j]).ravel()
    LD = np.clongdouble
    part = (abs(v)**2).astype(LD) / (z[:, None].astype(LD) - eb.astype(LD))
    hyb = part.sum(-1)
    size = abs(part).sum(-1) * (1 + max(abs(eb)) / np.min(abs(z[:, None] - eb), axis=-1))
    got = siam.hybrid_z(z, eb, abs(v)**2)
    c.check(np.all(abs(got - hyb) <= 1e-12 * size), "hybridization", got=got, want=hyb)
    inv = z - LD(e0) - hyb
    cond = ((abs(z) + abs(e0) + size) / abs(inv)).astype(float)
    got = siam.gf0_loc_z(z, np.array(e0), eb, abs(v)**2)
    c.check(np.all(abs(got * inv - 1) <= 1e-12 * (1 + cond)), "local Green's function", got=got, want=1 / inv)
    want = matrix(e0, eb, v)
    norm = np.max(abs(np.linalg.eigvalsh(want))) + 1e-300
    tt = np.array([1e-9, 1e-4, 0.1, 1.0, 30.0, 1e3]) / norm
    tt = np.r_[tt, -tt, 0.0]
    ret = siam.gf0_loc_ret_t(tt, np.array(e0), eb, v)
    for beta in (1e-3 / norm, 1.0 / norm, 200.0 / norm, 1e6 / norm):
        gr, le = refs(want, tt, beta)
        tol = 1e-11 * max(1, beta * norm)
        c.close(siam.gf0_loc_gr_t(tt, np.array(e0), eb, v, beta), gr, "greater", rtol=0, atol=tol)
        c.close(siam.gf0_loc_le_t(tt, np.array(e0), eb, v, beta=beta), le, "lesser", rtol=0, atol=tol)
    gr, le = refs(want, tt, 1 / norm)
    c.close(ret, np.where(tt >= 0, gr - le, 0), "retarded", rtol=0, atol=1e-10)


ranges.shard = 2
HARNESSES = dict(single=single, ranges=ranges, large=large, dtypes=dtypes, batch=batch)
single.shard = 3
batch.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^siam\.", units=r"^siam$", origin=r"^siam$")
