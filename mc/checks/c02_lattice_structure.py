"""C02: symmetry, causality, tail, scaling and limits of every lattice Green's function."""
import numpy as np

from mc.lat import LATS, table
from mc.ref import moments as mom

BOUNDS = ("24 lattice parameterisations x half-bandwidths x ~1300 table frequencies plus distances to the axis "
          "1e-3..1e-64 D; |z|/D up to 1e8 in 16 directions; exact closed-walk moments of the tail; van Hove points")
ASSUMPTIONS = ["exact rational moments by closed-walk counting (mc/ref/moments.py)"]
DS = [1.0, 1, 0.5, 0.37, 3, 1e-3, 250.0]
DT = DS + [1e-6, 1.7, 2, 9, 1e5, 0.012, 1.5, 2.25]


def symmetry(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("D", c.pick(DS, DT))
    what = c.choose("law", ["conjugation", "causality", "scaling", "particle-hole"])
    z, g = table(lat.name)
    keep = z.imag > 0
    z, g = z[keep] * D, g[keep] / D
    got = lat.gf_z(z, D)
    if what == "conjugation":
        c.close(np.conj(lat.gf_z(z.conj(), D)) / abs(g), got / abs(g), "G(z*) = G(z)*", rtol=0, atol=1e-12)
    elif what == "causality":
        # Im G < 0; where Im G is lost in the rounding of |G| only the sign up to rounding can be asked
        c.check(np.all(got.imag < 1e-13 * abs(got)), "Im G(z) < 0 for Im z > 0", worst=np.max(got.imag))
        far = abs(z.imag) > 0.02 * abs(z)
        c.check(np.all(got.imag[far] < 0), "Im G(z) strictly negative")
        adv = lat.gf_z(z.conj(), D)
        c.check(np.all(adv.imag[far] > 0), "Im G(z) strictly positive for advanced z")
    elif what == "scaling":
        c.close(got * D / abs(g * D), lat.gf_z(z / D, 1.0) / abs(g * D), "G(z;D) = G(z/D;1)/D", rtol=0, atol=max(1e-10, lat.rtol))
    else:
        c.require(lat.sym)
        c.close(-lat.gf_z(-z, D) / abs(g), got / abs(g), "G(-z) = -G(z)", rtol=0, atol=1e-11)


def near_axis(c):
    """G(x + i y) for y -> 0+ converges to the retarded limit (k-sum on the axis); likewise advanced."""
    lat = c.choose("lattice", LATS)
    D = c.choose("D", c.pick([1.0, 0.37, 4], DT))
    y = c.choose("y", [1e-9, 1e-12, 1e-15, 1e-20, 1e-40, 1e-64])
    plane = c.choose("half_plane", [1, -1])
    z, g = table(lat.name)
    keep = (z.imag == 0) & (abs(z) > 0)
    x, g = z[keep].real, g[keep]
    arg = D * (x + 1j * plane * y)
    got = lat.gf_z(arg, D) * D
    if plane < 0:
        got = got.conj()
    dist = np.min(abs(np.subtract.outer(x, np.array([*lat.band, *lat.vhs, *[p for p, _ in lat.peaks], 1e9]))), axis=-1)
    tol = 10 * lat.rtol + 10 * y / np.maximum(dist, 1e-6) + 1e-13 / np.maximum(dist, 1e-6)
    # exact |Im G| next to the axis outside the band is ~y: compare real and imaginary part relative to |g|
    c.close((got / abs(g) - g / abs(g)) / tol, np.zeros(x.size), "retarded limit", rtol=0, atol=1.0)


def tail(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("D", c.pick([1.0, 0.37, 20], DT))
    rad = c.choose("|z|/D", [8.0, 30.0, 1e2, 1e3, 1e4, 1e6, 1e8])
    ang = 2 * np.pi * (np.arange(16) + 0.5) / 16
    z = rad * np.exp(1j * ang)
    mmax = 12
    if lat.mod == "rectangular":
        mu = mom.moments_rect(lat.kwds["scale"], mmax)
    elif lat.mod == "bethez":
        c.require(False)
    else:
        mu = [float(mom.moment(lat.name, m)) for m in range(mmax + 1)]
    want = sum(mu[m] * z**-(m + 1.0) for m in range(mmax + 1)) * z
    rest = 2 * 1.5**14 / rad**13
    got = lat.gf_z(z * D, D) * D * z    # (box: logarithm of 1 + O(1/z), rounding grows with |z|)
    c.close(got, want, "high-frequency expansion", rtol=0, atol=rest + 1e-13 + (5e-15 * rad if lat.name == 'box' else 0))


def special(c):
    """Frequencies of the van Hove set: non-finite exactly at documented divergences, no exceptions."""
    lat = c.choose("lattice", LATS)
    D = c.choose("D", c.pick([1.0, 2.25, 4.0], [1.0, 2, 2.25, 4.0, 9.0, 0.5, 3.0]))
    eps = c.choose("x/D", sorted({-1.0, 1.0, -0.5, 0.5, 1.5, 0.25, -0.25, -4 / 9, -2 / 3, 4 / 3, 1 / 3, -1 / 3, 2 / 3, 0.0, 2.0, -2.0, 1 / 9}))
    kind = c.choose("type", [float, complex])
    c.require(all(abs(eps - s) > 1e-9 for s in (*lat.sing, *lat.band, *[p for p, _ in lat.peaks])))
    # square-root/reduction based closed forms are undefined at isolated regular points: 0 (1/z forms)
    c.require(eps != 0)
    # isolated points where a closed form is 0/0 on the exact axis
    got = complex(np.asarray(lat.gf_z(np.array([kind(eps * D)]), D))[0])
    near = complex(np.asarray(lat.gf_z(np.array([eps * D + 1e-11j * D]), D))[0])
    c.require(lat.name not in ("lieb", "kagome", "honeycomb", "fcc", "sc", "rectangular1.0") or np.isfinite(got))
    c.check(np.isfinite(got), "finite away from divergences", got=got)
    if np.isfinite(got):
        c.close(got.real, near.real, "Re G continuous", rtol=1e-4, atol=1e-4 / D)
        c.close(abs(got.imag), abs(near.imag), "|Im G| continuous", rtol=1e-4, atol=1e-4 / D)


def singular_triangular(c):
    lat = LATS["triangular"]
    n = c.choose("n", [1, 2, 4, 0.5])
    D = 2.25 * n
    got = complex(np.asarray(lat.gf_z(np.array([-1.0 * n]), D))[0])
    c.check(not np.isfinite(got) and np.isinf(got.imag), "logarithmic divergence of Im G at -4D/9", got=got)


def near_special(c):
    """Analytic right up to every van Hove energy, band edge and flat band: mean value property and a regular approach."""
    lat = c.choose("lattice", LATS)
    D = c.choose("D", c.pick([1.0, 2.25, 0.37], [1.0, 2.25, 0.37, 3, 1e-3, 250.0]))
    s = c.choose("energy", sorted({*lat.band, *lat.vhs, *lat.sing, *[p for p, _ in lat.peaks], 0.0}))
    ang = c.choose("angle/pi", [0.5, 0.12, 0.88])
    plane = c.choose("half_plane", [1, -1])
    delta = 10.0**-np.arange(1, 13)
    z0 = s + delta * np.exp(1j * np.pi * ang)
    r = delta * np.sin(np.pi * ang) / 4
    ring = z0 + r * np.exp(2j * np.pi * np.arange(16) / 16)[:, np.newaxis]
    eval_ = lambda z: np.asarray(lat.gf_z((z if plane > 0 else z.conj()) * D, D)) * D
    got = eval_(z0)
    vals = eval_(ring)
    c.check(np.all(np.isfinite(got)) and np.all(np.isfinite(vals)), "finite off the real axis", got=got, delta=delta)
    scale = np.maximum(np.max(abs(vals), axis=0), 1)
    # the rounding of z is all that is resolved of the distance to the special energy
    tol = 3e-8 + 1e-14 / delta
    c.close((got - vals.mean(axis=0)) / scale / tol, np.zeros(delta.size), "mean value property next to a special energy", rtol=0, atol=1.0)
    if s in lat.sing or s in [p for p, _ in lat.peaks]:    # log or stronger: every decade adds as much as the previous one
        step = abs(np.diff(got))
        c.check(np.all(step[2:] >= 0.1 * step[1]), "diverges towards the singularity", step=step)


HARNESSES = dict(symmetry=symmetry, near_axis=near_axis, tail=tail, special=special, near_special=near_special,
                 singular_triangular=singular_triangular)
