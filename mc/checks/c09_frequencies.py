"""C09: Matsubara and Pade frequencies."""
import numpy as np
from mpmath import mp, mpc, mpf

import gftool as gt

BOUNDS = ("all n in -300..300 plus 1e3..1e6, 8 beta, containers; Pade: every num 1..40 (thorough 1..100) x 6 beta, compared as rational function "
          "with the truncated continued fraction of the Fermi function at 24 complex points, and pole by pole")
ASSUMPTIONS = ["continued fraction of tanh truncated after 2*num terms, 60 digits"]
BETA = [1.0, 1, 0.1, 10, 3, 137.0, 1e-3, 1e4]
N = np.r_[np.arange(-300, 301), 1000, -1001, 10**6, -10**6]


def matsubara(c):
    kind = c.choose("kind", ["f", "b"])
    beta = c.choose("beta", BETA)
    cont = c.choose("container", ["array", "list", "range", "scalar", "2d", "int32", "np.int64", "uint8", "reversed"])
    fct = gt.matsubara_frequencies if kind == "f" else gt.matsubara_frequencies_b
    n = np.arange(0, 200) if cont in ("range", "uint8") else N
    want = 1j * np.pi * (2 * n + 1) / beta if kind == "f" else 2j * np.pi * n / beta
    if cont == "scalar":
        got = np.array([fct(int(v), beta=beta) for v in n])
    elif cont == "np.int64":
        got = np.array([fct(v, beta=beta) for v in n])
    else:
        arg = dict(array=n, list=n.tolist(), range=range(200), int32=n.astype(np.int32), uint8=n.astype(np.uint8))
        if cont == "2d":
            arg, want = n[:600].reshape(30, 20), want[:600].reshape(30, 20)
        elif cont == "reversed":
            arg, want = n[::-1], want[::-1]
        else:
            arg = arg[cont]
        got = fct(arg, beta=beta)
    c.close(got, want, "Matsubara frequencies", rtol=1e-14, atol=0)
    c.check(np.all(np.real(got) == 0), "purely imaginary")
    c.check(np.iscomplexobj(np.asarray(got)), "complex typed")


def reject(c):
    fct = c.choose("fct", [gt.matsubara_frequencies, gt.matsubara_frequencies_b])
    arg = c.choose("arg", {"float": 1.5, "float array": np.array([0.5, 1.0]), "whole float array": np.array([0.0, 1.0]), "complex": 1j,
                           "list of float": [0.0, 1.5]})
    c.raises(TypeError, lambda: fct(arg, beta=1.0), "non-integers are rejected")


def poles_of_statistics(c):
    """The frequencies are the poles of the statistics functions: exp(beta*iw) = -1 (fermionic) or 1 (bosonic)."""
    beta = c.choose("beta", BETA)
    n = np.arange(-20, 21)
    c.close(np.exp(beta * gt.matsubara_frequencies(n, beta=beta)), -np.ones(n.size), "fermionic", rtol=0, atol=1e-12)
    c.close(np.exp(beta * gt.matsubara_frequencies_b(n, beta=beta)), np.ones(n.size), "bosonic", rtol=0, atol=1e-12)


def cf(x, num):
    """1/2 - tanh(x/2)/2 by the continued fraction truncated after 2*num partial denominators."""
    y = x / 2
    val = mpf(2 * (2 * num) - 1)
    for k in range(2 * num - 1, 0, -1):
        val = (2 * k - 1) + y**2 / val
    return mpf(1) / 2 - y / 2 / val


XS = [0.0, 0.1, 1.0, -1.0, 3.0, 10.0, -30.0, 100.0, 1e3, 1e5, 1j, 2j, 2 + 3j, -1 + 5j, 0.5 + 2.9j, 10 + 10j, -7 - 2j, 40 + 20j, -100 + 50j, 6.0j, 20j,
      300 + 300j, -5j, 12.1j]


def pade(c):
    num = c.choose("num", range(1, c.pick(40, 100) + 1))
    beta = c.choose("beta", [1.0, 1, 0.1, 3, 40.0, 1e3])
    izp, rp = gt.pade_frequencies(num, beta=beta)
    c.equal(izp.shape, (num,), "num frequencies")
    c.equal(rp.shape, (num,), "num residues")
    c.check(np.all(abs(izp.real) <= 1e-12 * abs(izp)) and np.all(izp.imag > 0), "positive imaginary frequencies")
    c.check(np.all(np.diff(izp.imag) > 0), "ascending")
    c.check(np.isrealobj(rp) and np.all(rp > 1 - 1e-9), "real residues >= 1")
    for x in XS:
        with mp.workdps(60):
            want = complex(cf(mpc(x), num))
        # conditioning next to a pole
        dist = np.min(abs(x - np.r_[izp, -izp] * beta)) / (1 + abs(x))
        if dist < 1e-3:
            continue
        got = 0.5 - np.sum(rp * (1 / (x - izp * beta) + 1 / (x + izp * beta)))
        c.close(got, want, "sum over Pade poles is the continued fraction", rtol=1e-9 / dist, atol=1e-9 * (1 + num / 20) / dist)
    # sum rules of the approximant: first moment sum(resids) from the expansion at infinity, sum 4 r/x_p^2 from f'(0) = -1/4
    c.close(np.sum(4 * rp / (izp.imag * beta)**2) * 2, 1.0, "f'(0) = -1/4", rtol=1e-9, atol=0)
    with mp.workdps(60):
        big = mpf(10)**25
        tot = float((mpf(1) / 2 - cf(big, num)) * big / 2)
    c.close(np.sum(rp), tot, "sum of residues", rtol=1e-9, atol=0)


HARNESSES = dict(matsubara=matsubara, reject=reject, poles_of_statistics=poles_of_statistics, pade=pade)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^statistics\.(matsubara|pade)_freq", units=r"^statistics\.frequencies$")
