"""C21: matrix decompositions."""
import itertools

import numpy as np
import gftool as gt
from gftool import matrix as gm

BOUNDS = ("all 2x2 matrices over 7 entries, all Hermitian/complex symmetric 2x2 over 8 entries, all Hermitian and symmetric 3x3 matrices over {0, 1, -0.5, 0.7j} off-diagonals, "
          "all 3x3 0/1 matrices; 1x1 and 4x4 chains; 5 matrix functions x full/diag/einsum; batches and frequency axes; gf_2x2_z over parameter grids; matrices up to 80x80")
ASSUMPTIONS = ["matrix functions through numpy.linalg.inv / matrix powers"]
ENT = [0.0, 1.0, -1.0, 0.5, 1j, -0.5j, 1 + 1j]


def funcs(c, dec, mat, tol=1e-9):
    n = mat.shape[-1]
    c.close(dec.reconstruct(), mat, "reconstruction", rtol=0, atol=tol)
    c.close(dec.reconstruct(kind="diag"), np.diagonal(mat, axis1=-2, axis2=-1), "diagonal", rtol=0, atol=tol)
    rv, eig, rv_inv = dec
    c.close(rv @ rv_inv, np.broadcast_to(np.eye(n), mat.shape), "inverse of the eigenvectors", rtol=0, atol=tol)
    c.close((rv * eig[..., np.newaxis, :]) @ rv_inv, mat, "tuple", rtol=0, atol=tol)
    c.check(len(dec) == 3 and all(np.array_equal(x, y) for x, y in [(dec[0], rv), (dec[1], eig), (dec[2], rv_inv), (dec[-1], rv_inv), (dec.rv, rv), (dec.eig, eig), (dec.rv_inv, rv_inv)]),
            "tuple access")
    z = 3.3 + 2.1j
    inv = np.linalg.inv(z * np.eye(n) - mat)
    c.close(dec.reconstruct(1 / (z - eig)), inv, "resolvent", rtol=0, atol=tol)
    c.close(dec.reconstruct(1 / (z - eig), kind="diag"), np.diagonal(inv, axis1=-2, axis2=-1), "diagonal of the resolvent", rtol=0, atol=tol)
    c.close(dec.reconstruct(eig=eig**2, kind="full"), mat @ mat, "square", rtol=0, atol=10 * tol)
    c.close(dec.reconstruct(eig**2, "...ij,...j,...jk->...ik"), mat @ mat, "einsum", rtol=0, atol=10 * tol)
    c.close(dec.reconstruct(eig**2, "...ij,...j,...ji->..."), np.trace(mat @ mat, axis1=-2, axis2=-1), "einsum trace", rtol=0, atol=10 * tol)


def general(c):
    kind = c.choose("kind", ["2x2", "3x3", "4x4", "1x1"])
    if kind == "1x1":
        m = np.array([[c.choose("entry", ENT)]])
    elif kind == "2x2":
        m = np.array([c.choose(f"m{i}", ENT) for i in range(4)]).reshape(2, 2)
    elif kind == "3x3":
        bits = c.choose("bits", range(512) if not c.thorough else range(3**9))
        if c.thorough:
            m = np.array([[0, 1, -0.5][(bits // 3**i) % 3] for i in range(9)]).reshape(3, 3)
        else:
            m = np.array([(bits >> i) & 1 for i in range(9)], dtype=float).reshape(3, 3)
    else:
        t = c.choose("hopping", ENT[1:])
        g = c.choose("diagonal", ENT)
        m = g * np.eye(4) + t * np.diag(np.ones(3), 1) + 2 * np.conj(t) * np.diag(np.ones(3), -1)
    eig, vec = np.linalg.eig(m)
    c.require(np.linalg.cond(vec) < 1e4)
    dec = gm.decompose_mat(m)
    funcs(c, dec, m, 1e-8)
    want = np.linalg.eigvals(m)
    c.close(np.poly(dec.eig), np.poly(want), "eigenvalues", rtol=0, atol=1e-8)
    depr = gm.Decomposition.from_gf(m)
    c.close(depr.reconstruct(1 / (2.5j - depr.eig)), np.linalg.inv(2.5j * np.eye(len(m)) - m), "from_gf", rtol=0, atol=1e-8)
    c.check(np.array_equal(gm.Decomposition.from_gf(dec).eig, dec.eig), "decompositions are passed through")
    c.close(gm.construct_gf(dec.rv, 1 / (2.5j - dec.eig), dec.rv_inv), np.linalg.inv(2.5j * np.eye(len(m)) - m), "construct_gf", rtol=0, atol=1e-8)


OFF = [0.0, 1.0, -0.5, 0.7j]


def tri(c, n, ent):
    """Upper triangle by decisions."""
    d = c.choose("diagonal", [(0.0,) * n, (1.0,) * n, (-0.5, 0.3, 1.0)[:n], (0.2, 0.2, -1.0)[:n]])
    up = [c.choose(f"off{i}", ent) for i in range(n * (n - 1) // 2)]
    return np.array(d), up


def hermitian(c):
    n = c.choose("n", [1, 2, 3])
    d, up = tri(c, n, OFF + [0.3 - 0.4j])
    m = np.diag(d).astype(complex)
    for (i, j), v in zip(itertools.combinations(range(n), 2), up):
        m[i, j], m[j, i] = v, np.conj(v)
    if c.choose("dtype", ["complex", "natural"]) == "natural" and not np.any(m.imag):
        m = m.real
    dec = gm.decompose_her(m)
    funcs(c, dec, m)
    eye = np.eye(n)
    c.close(dec.rv.conj().T @ dec.rv, eye, "unitary", rtol=0, atol=1e-12)
    c.close(dec.rv_inv, dec.rv.conj().T, "inverse is the adjoint", rtol=0, atol=1e-12)
    c.check(np.isrealobj(dec.eig), "real eigenvalues")
    c.check(np.all(np.diff(dec.eig) >= -1e-13), "ascending")
    c.close(dec.eig, np.linalg.eigvalsh(m), "eigenvalues", rtol=0, atol=1e-12)
    c.check(np.array_equal(dec.u, dec.rv) and np.array_equal(dec.uh, dec.rv_inv), "names")
    c.close(dec.s, np.linalg.svd(m, compute_uv=False), "singular values in descending order", rtol=0, atol=1e-12)
    old = gm.Decomposition.from_hamiltonian(m)
    c.close(old.reconstruct(), m, "from_hamiltonian", rtol=0, atol=1e-10)
    c.check(np.array_equal(gm.Decomposition.from_hamiltonian(dec).eig, dec.eig), "passed through")
    c.close(gm.decompose_her(m, check=False).reconstruct(), m, "unchecked", rtol=0, atol=1e-10)


def symmetric(c):
    n = c.choose("n", [1, 2, 3])
    d, up = tri(c, n, OFF + [0.3 - 0.4j])
    m = np.diag(d + np.array([0, 0.1j, -0.2j])[:n] * c.choose("complex diagonal", [0, 1])).astype(complex)
    for (i, j), v in zip(itertools.combinations(range(n), 2), up):
        m[i, j] = m[j, i] = v
    if c.choose("dtype", ["complex", "natural"]) == "natural" and not np.any(m.imag):
        m = m.real
    eig, vec = np.linalg.eig(m)
    gap = min((abs(a - b) for a, b in itertools.combinations(eig, 2)), default=1)
    c.require(np.linalg.cond(vec) < 1e3 and gap > 1e-3)
    dec = gm.decompose_sym(m)
    funcs(c, dec, m, 1e-8)
    c.close(dec.rv.T @ dec.rv, np.eye(n), "orthogonal", rtol=0, atol=1e-8)
    c.close(gm.decompose_sym(m, check=False).reconstruct(), m, "unchecked", rtol=0, atol=1e-8)


def rejects(c):
    """check=True rejects exactly the matrices without the symmetry, anywhere in a batch."""
    n = c.choose("n", [2, 3])
    i = c.choose("i", range(n))
    j = c.choose("j", range(n))
    dev = c.choose("deviation", [0.1, -0.3j, 1e-4, 0.0])
    shape = c.choose("batch", [(), (1,), (2,), (2, 2)])
    kind = c.choose("kind", ["her", "sym"])
    base = np.arange(n * n).reshape(n, n) * 0.1 + 0.2j * np.ones((n, n))
    base = base + (base.conj().T if kind == "her" else base.T)
    m = np.broadcast_to(base, shape + (n, n)).copy()
    m[(-1,) * len(shape) + (i, j)] += dev
    sub = m[(-1,) * len(shape)]
    ok = abs(sub - (sub.conj().T if kind == "her" else sub.T)).max() < 1e-9
    fct = gm.decompose_her if kind == "her" else gm.decompose_sym
    if ok:
        c.close(fct(m).reconstruct(), m, "accepted", rtol=0, atol=1e-8)
    else:
        c.raises(ValueError, lambda: fct(m), "ValueError")
        c.raises(ValueError, lambda: fct(m, check=True), "ValueError")
        got = fct(m, check=False)
        c.check(len(got) == 3, "no error without check")


def batch(c):
    shape = c.choose("batch", [(0,), (1,), (2,), (3, 2)])
    n = c.choose("n", [1, 2, 3])
    kind = c.choose("kind", ["mat", "her", "sym"])
    freq = c.choose("frequencies", [0, 1, 3])
    idx = np.arange(int(np.prod(shape)) * n * n).reshape(shape + (n, n))
    m = np.cos(idx**2) + 1j * np.sin(2.0 * idx)
    t = np.swapaxes(m, -1, -2)
    m = dict(mat=m, her=m + t.conj(), sym=m + t)[kind]
    dec = getattr(gm, "decompose_" + kind)(m)
    funcs(c, dec, m)
    c.equal(dec.eig.shape, shape + (n,), "shape of the eigenvalues")
    if kind == "her" and 0 not in shape:
        c.close(dec.s, np.linalg.svd(m, compute_uv=False), "singular values per matrix", rtol=0, atol=1e-10)
    # frequency axis in front
    z = 1j * (2 + np.arange(freq))
    fr = dec.reconstruct(1 / (z.reshape((freq,) + (1,) * (len(shape) + 1)) - dec.eig))
    c.equal(fr.shape, (freq,) + m.shape, "frequency axis")
    frd = dec.reconstruct(1 / (z.reshape((freq,) + (1,) * (len(shape) + 1)) - dec.eig), kind="diag")
    for k in range(freq):
        inv = np.linalg.inv(z[k] * np.eye(n) - m)
        c.close(fr[k], inv, "resolvent", rtol=0, atol=1e-8)
        c.close(frd[k], np.diagonal(inv, axis1=-2, axis2=-1), "resolvent diagonal", rtol=0, atol=1e-8)


def kinds(c):
    """All abbreviations and capitalisations of `kind`."""
    kind = c.choose("kind", ["d", "di", "dia", "diag", "Diag", "DIAG", "f", "fu", "ful", "full", "Full", "FULL"])
    m = np.array([[1.0, 2.0], [3.0, -1.0]])
    got = gm.decompose_mat(m).reconstruct(kind=kind)
    c.close(got, np.diag(m) if kind.lower().startswith("d") else m, "reconstruct", rtol=0, atol=1e-12)


def two(c):
    e0 = c.choose("eps0", [0.0, -0.7, 2.0, 0.3 - 0.2j])
    e1 = c.choose("eps1", [0.0, 0.4, -0.7, -0.1 - 0.5j])
    t = c.choose("hopping", [0.0, 0.6, -1.5, 0.4j, 0.3 - 0.8j])
    z = c.choose("z", [0.2 + 0.1j, -1.1 + 0.5j, 3j, 0.4 - 0.3j])
    tr = c.choose("trafo", ["none", "bethe"])
    c.require(abs(0.25 * (e0 - e1)**2 + abs(t)**2) > 1e-3)
    m = np.array([[e0, t], [np.conj(t), e1]])
    got = gm.gf_2x2_z(z, e0, e1, t) if tr == "none" else gm.gf_2x2_z(z, e0, e1, t, hilbert_trafo=lambda x: gt.bethe_gf_z(x, half_bandwidth=1.0))
    if tr == "none":
        want = np.diag(np.linalg.inv(z * np.eye(2) - m))
    else:
        eig, vec = np.linalg.eig(m)
        x = z - eig
        g = 2 / x / (1 + np.sqrt(1 - x**-2))
        want = np.diag(vec @ np.diag(g) @ np.linalg.inv(vec))
    c.close(got, want, "2x2 Green's function", rtol=0, atol=1e-9 * max(1, np.max(abs(want))))


def two_batch(c):
    shapes = [(), (3,), (2, 1)]
    zs = c.choose("z", shapes)
    s0 = c.choose("eps0", shapes)
    s1 = c.choose("eps1", shapes)
    st = c.choose("hopping", shapes)
    kind = c.choose("container", ["array", "list"])

    def mk(a, sh):
        return a + 0.1 * np.arange(int(np.prod(sh))).reshape(sh)
    z, e0, e1, t = mk(0.5j, zs), mk(-0.3, s0), mk(0.4, s1), mk(0.7, st)
    arg = (z, e0, e1, t) if kind == "array" else tuple(np.asarray(x).tolist() for x in (z, e0, e1, t))
    got = gm.gf_2x2_z(*arg)
    out = np.broadcast_shapes(zs, s0, s1, st)
    z, e0, e1, t = (np.broadcast_to(x, out) for x in (z, e0, e1, t))
    m = np.stack([np.stack([z - e0, -t], -1), np.stack([-t, z - e1], -1)], -2)
    c.close(got, np.diagonal(np.linalg.inv(m), axis1=-2, axis2=-1), "broadcast", rtol=0, atol=1e-10)


def sizes(c):
    """Large matrices."""
    n = c.choose("n", [4, 5, 6, 7, 8, 9, 12, 16, 17, 25, 33, 50, 80])
    kind = c.choose("kind", ["mat", "her", "sym"])
    dt = c.choose("dtype", ["complex", "real"])
    shape = c.choose("batch", [(), (3,)])
    idx = np.arange(int(np.prod(shape)) * n * n).reshape(shape + (n, n))
    m = np.cos(1.1 * idx**2)
    if dt == "complex":
        m = m + 1j * np.sin(2.0 * idx + 0.3 * idx**2)
    t = np.swapaxes(m, -1, -2)
    m = dict(mat=m, her=m + t.conj(), sym=m + t)[kind] / np.sqrt(n)
    dec = getattr(gm, "decompose_" + kind)(m)
    tol = 1e-11 * max(np.max(np.linalg.cond(np.linalg.eig(m)[1])), 10)
    c.require(tol < 1e-6)
    funcs(c, dec, m, tol)
    c.equal(dec.eig.shape, shape + (n,), "shape of the eigenvalues")
    if kind == "her":
        c.close(dec.s, np.linalg.svd(m, compute_uv=False), "singular values", rtol=0, atol=1e-10)
        c.close(dec.eig, np.linalg.eigvalsh(m), "eigenvalues", rtol=0, atol=1e-10)


HARNESSES = dict(sizes=sizes, general=general, hermitian=hermitian, symmetric=symmetric, rejects=rejects, batch=batch, kinds=kinds, two=two, two_batch=two_batch)
HARNESSES["general"].shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^matrix\.", units=r"^matrix$", origin=r"^matrix$")
