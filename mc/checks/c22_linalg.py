"""C22: orthogonal complement and equality-constrained least squares."""
import numpy as np
from gftool import linalg

BOUNDS = ("orth_compl: all shapes n<=5, m<n x 4 data kinds (incl. rank deficient, zero) x batches; lstsq_ec: M 1..6, N 0..4, L 0..N x real/complex/integer x well-posed/under-determined/"
          "rank-deficient a x right-hand sides x rcond; all 2-row constraint matrices over {0,1,-1,2} for N=2; redundant and contradicting constraints; systems up to 105x65 with up to 32 constraints")
ASSUMPTIONS = ["reference: pseudo-inverse and explicit null space (SVD)"]


def data(shape, kind, off=0):
    i = np.arange(int(np.prod(shape))).reshape(shape) + off
    r = np.cos(1.3 * i**2 + 0.4 * i)
    if kind == "real":
        return r
    if kind == "complex":
        return r + 1j * np.sin(0.7 * i**2 + 1)
    if kind == "integer":
        return (i * i * 7 + 3 * i) % 11 - 4
    if kind == "deficient":     # repeated columns
        r = r.copy()
        if shape[-1] > 1:
            r[..., -1] = 2 * r[..., 0]
        return r
    return np.zeros(shape)


def orth(c):
    n = c.choose("N", [1, 2, 3, 4, 5])
    m = c.choose("M", [1, 2, 3, 4, 5])
    kind = c.choose("data", ["real", "complex", "integer", "deficient", "zero"])
    batch = c.choose("batch", [(), (1,), (2,), (2, 3)])
    mat = data(batch + (n, m), kind)
    if m >= n:
        c.raises(ValueError, lambda: linalg.orth_compl(mat), "wide or square matrices are rejected")
        return
    got = linalg.orth_compl(mat)
    c.equal(got.shape, batch + (n - m, n), "shape")
    c.close(got @ mat, np.zeros(batch + (n - m, m)), "annihilates", rtol=0, atol=1e-11)
    c.close(got @ np.swapaxes(got, -1, -2).conj(), np.broadcast_to(np.eye(n - m), batch + (n - m, n - m)), "orthonormal rows", rtol=0, atol=1e-12)
    if batch == ():
        c.close(linalg.orth_compl(mat.tolist()) @ mat, np.zeros((n - m, m)), "array_like", rtol=0, atol=1e-11)


def nullspace(cm):
    if cm.shape[0] == 0:
        return np.eye(cm.shape[1])
    __, s, vh = np.linalg.svd(cm)
    rank = int(np.sum(s > 1e-10 * max(s[0], 1e-300))) if s.size else 0
    return vh[rank:].conj().T


def verify(c, a, b, cm, d, x, minimal=True):
    n = a.shape[1]
    if not c.equal(np.shape(x), (n,), "shape"):
        return
    scale = 1 + np.max(abs(x), initial=0)
    c.close(cm @ x, d, "constraints are fulfilled", rtol=0, atol=1e-10 * scale)
    if not minimal:
        return
    ns = nullspace(cm)
    grad = (a @ ns).conj().T @ (a @ x - b)
    c.close(grad, np.zeros(ns.shape[1]), "residual is minimal", rtol=0, atol=1e-9 * scale * (1 + np.sum(abs(a)**2)))
    # no component in directions neither constrained nor determined
    both = nullspace(np.concatenate((cm, a), axis=0)) if a.size else np.zeros((n, 0))
    c.close(both.conj().T @ x, np.zeros(both.shape[1]), "minimal norm", rtol=0, atol=1e-9 * scale)


def lstsq(c):
    n = c.choose("N", [0, 1, 2, 3, 4])
    m = c.choose("M", [1, 2, 3, 4, 6])
    l = c.choose("L", range(n + 1))
    kind = c.choose("a", ["real", "complex", "integer", "deficient"])
    ck = c.choose("c", ["real", "complex", "unit", "scaled"])
    bk = c.choose("b", ["real", "complex", "zero"])
    a = data((m, n), kind)
    b = data((m,), bk, off=5)
    if ck == "unit":
        cm = np.eye(n)[n - l:]
    elif ck == "scaled":
        cm = data((l, n), "real", off=11) * 10.0**(-3 * np.arange(l))[:, None]
    else:
        cm = data((l, n), ck, off=11)
    if l and n:
        c.require(np.linalg.matrix_rank(cm / np.linalg.norm(cm, axis=1, keepdims=True), tol=1e-3) == l)
    d = data((l,), "complex" if ck == "complex" else "real", off=3)
    keep = [x.copy() for x in (a, b, cm, d)]
    x = linalg.lstsq_ec(a, b, cm, d)
    c.check(all(np.array_equal(u, v) for u, v in zip(keep, (a, b, cm, d))), "input not modified")
    if n == 0:
        c.equal(np.shape(x), (0,), "empty")
        return
    verify(c, a, b, cm, d, x)


def small(c):
    """All 2x2 constraint matrices and right-hand sides of a small alphabet, full rank."""
    ent = [0.0, 1.0, -1.0, 2.0]
    n = c.choose("N", [2, 3])
    cm = np.array([[c.choose(f"c{i}{j}", ent) for j in range(2)] for i in range(2)])
    d = np.array([c.choose("d0", [0.0, 1.0]), c.choose("d1", [0.0, -2.0])])
    c.require(abs(np.linalg.det(cm)) > 1e-9)
    a, b = data((4, n), "real"), data((4,), "real", 2)
    cm = np.concatenate((cm, np.zeros((2, n - 2))), axis=1)
    verify(c, a, b, cm, d, linalg.lstsq_ec(a, b, cm, d))


def rcond(c):
    """Small singular values of the (projected) problem are cut."""
    rc = c.choose("rcond", [1e-12, 1e-3, 0.3])
    l = c.choose("L", [0, 1, 2])
    small_ = c.choose("small", [1e-2, 1e-5])
    q1, __ = np.linalg.qr(data((6, 4), "real"))
    a = q1 * np.array([1.0, 0.8, 0.6, small_])
    b = data((6,), "real", 4)
    cm, d = np.eye(4)[:l], np.array([0.3, -0.4])[:l]
    x = linalg.lstsq_ec(a, b, cm, d, rcond=rc)
    rest = q1.T @ b / np.array([1.0, 0.8, 0.6, small_])
    top = np.array([1.0, 0.8, 0.6, small_])[l:].max()
    want = np.where(np.arange(4) < l, np.r_[d, np.zeros(4 - l)], np.where(np.array([1.0, 0.8, 0.6, small_]) > rc * top, rest, 0))
    c.close(x, want, "truncated solution", rtol=0, atol=1e-8)


RED = dict(exact=(np.array([[1.0, 0, 0], [2, 0, 0]]), np.array([1.0, 2.0])),
           rounded=(np.array([[1.0, 2, 3], [2, 4, 6]]), np.array([1.0, 2.0])),
           cexact=(np.array([[1j, 0, 0], [2 - 2j, 0, 0]]), np.array([1.0 + 1j, -4j])),
           three=(np.array([[1.0, 0, 0], [0, 1j, 0], [1, 1j, 0]]), np.array([1.0, 2j, 1 + 2j])))


def redundant(c):
    cm, d = RED[c.choose("constraints", list(RED))]
    aspect = c.choose("aspect", ["fulfilled", "minimal"])
    m = c.choose("M", [3, 5])
    a, b = data((m, 3), "real"), data((m,), "real", 2)
    x = linalg.lstsq_ec(a, b, cm, d)
    verify(c, a, b, cm, d, x, minimal=aspect == "minimal")


def contradict(c):
    k = c.choose("constraints", range(6))
    n = c.choose("N", [1, 2, 3])
    a, b = data((5, n), "real"), data((5,), "real", 2)
    e = np.eye(n)[:1]
    cm, d = [
        (np.concatenate((e, 2 * e)), np.array([1.0, 3.0])),
        (np.concatenate((0 * e, e)), np.array([1.0, 1.0])),
        (np.concatenate((e, e)), np.array([1.0, -1.0])),
        (np.zeros((0, n)), np.array([1.0, 2.0])),
        (np.eye(n), np.ones(n + 1)),
        (np.concatenate((np.eye(n), e)), np.ones(n + 1) * np.r_[np.ones(n), 2]),
    ][k]
    c.raises(Exception, lambda: linalg.lstsq_ec(a, b, cm, d), "contradicting or malformed constraints raise")


def sizes(c):
    """Large systems."""
    n = c.choose("N", [6, 8, 9, 10, 13, 17, 24, 33, 50, 65])
    l = c.choose("L", [0, 1, 2, 5, 9, 16, 32])
    m = c.choose("surplus", [0, 1, 40])
    kind = c.choose("data", ["real", "complex"])
    c.require(l < n)
    q, __ = np.linalg.qr(data((n, n), kind, off=1))
    cm = (q * (1 + 0.5 * np.cos(np.arange(n))))[:, :l].conj().T
    if l:
        got = linalg.orth_compl(cm.conj().T)
        c.equal(got.shape, (n - l, n), "shape")
        c.close(got @ cm.conj().T, np.zeros((n - l, l)), "annihilates", rtol=0, atol=1e-11)
        c.close(got @ got.conj().T, np.eye(n - l), "orthonormal rows", rtol=0, atol=1e-11)
    a = data((n + m, n), kind, off=7)
    a[:n] += 10 * np.eye(n)
    b, d = data((n + m,), kind, off=5), data((l,), kind, off=3)
    x = linalg.lstsq_ec(a, b, cm, d)
    verify(c, a, b, cm, d, x)


def row_scales(c):
    """Multiplying a constraint, all residuals, or the right-hand sides by a number of any size only scales the solution."""
    n = c.choose("N", [2, 3, 5])
    k = c.choose("constraints", [1, 2, 4])
    m = c.choose("rows", [1, 3, 8])
    kind = c.choose("data", ["real", "complex"])
    c.require(k < n)
    a, b, cm, d = data((m, n), kind), data((m,), kind, 3), data((k, n), kind, 40), data((k,), kind, 55)
    row = c.choose("scale of the constraints", [1e-12, 1e-5, 1.0, 1e6, 1e13])
    which = c.choose("which", ["first", "last", "all"])
    fac = np.ones(k)
    fac[{"first": slice(0, 1), "last": slice(k - 1, k), "all": slice(None)}[which]] = row
    res = c.choose("scale of the residuals", [1e-10, 1.0, 1e9])
    rhs = c.choose("scale of the right-hand sides", [1e-11, 1.0, 1e9])
    c.require(m >= n - k)
    want = linalg.lstsq_ec(a, b, cm, d)
    c.require(np.linalg.cond(cm) < 1e3 and np.linalg.cond(a @ nullspace(cm)) < 1e3)
    got = linalg.lstsq_ec(res * a, res * rhs * b, fac[:, None] * cm, fac * rhs * d)
    c.close(got / rhs, want, "solution", rtol=0, atol=1e-8 * (1 + np.max(abs(want))))
    verify(c, a, b, cm, d, got / rhs)


row_scales.shard = 2
HARNESSES = dict(row_scales=row_scales, sizes=sizes, orth=orth, lstsq=lstsq, small=small, rcond=rcond, redundant=redundant, contradict=contradict)
HARNESSES["lstsq"].shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^linalg\.", units=r"^linalg$")
