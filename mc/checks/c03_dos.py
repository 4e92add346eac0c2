"""C03: the DOS of every lattice, point by point."""
import numpy as np

from mc.lat import LATS, table
from mc.ref import dosmp

BOUNDS = ("24 lattice parameterisations x half-bandwidths x ~200 on-axis energies of the k-sum table; distances "
          "1e-1..1e-12 D on both sides of every band edge and van Hove energy; effective-mass law at the 3d band edges; 1..1e4 D outside; containers")
ASSUMPTIONS = ["k-sum table of mc/ref (independent of the code) on the axis",
               "closed forms evaluated with 90 digits by AGM near van Hove energies; a backward error of 64 ulp(D) in the "
               "energy is granted"]
DS = [1.0, 1, 0.5, 0.37, 3, 1e-3, 250.0]
DT = DS + [1e-6, 1.7, 2, 9, 1e5, 0.012, 1.5, 2.25]


def grid(c):
    """dos = -Im G(x+i0)/pi of the k-sum."""
    lat = c.choose("lattice", LATS)
    D = c.choose("D", DT)
    z, g = table(lat.name)
    keep = z.imag == 0
    x, g = z[keep].real, g[keep]
    got = lat.dos(x * D, D)
    c.check(np.isrealobj(got), "real valued")
    dist = np.min(abs(np.subtract.outer(x, np.array([*lat.band, *lat.vhs, 1e9]))), axis=-1)
    tol = np.maximum(lat.rtol, 1e-10) + 1e-13 / np.maximum(dist, 1e-9)
    c.close((got * D + g.imag / np.pi) / abs(g) / tol, np.zeros(x.size), "dos = -Im G/pi", rtol=0, atol=1.0)
    c.check(np.all(got >= 0), "non-negative", worst=got.min())
    out = (x < lat.band[0] - 1e-12) | (x > lat.band[1] + 1e-12)
    c.check(np.all(got[out] == 0), "exactly 0 outside the band")


def outside(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("D", DT)
    side = c.choose("side", [0, 1])
    d = c.choose("distance", [1e-9, 1e-6, 1e-3, 0.1, 0.5, 1.0, 1.5, 3.0, 10.0, 1e2, 1e4, 1e8])
    edge = lat.band[side]
    x = (edge + (2 * side - 1) * d) * D
    for arg in (x, np.array(x), np.array([x]), np.array([[x]])):
        got = np.asarray(lat.dos(arg, D))
        c.equal(got, np.zeros(np.shape(arg)), "0 outside the band, shape kept")


def vanhove(c):
    """Both sides of every special energy, closer and closer."""
    lat = c.choose("lattice", {k: v for k, v in LATS.items() if dosmp.has(k)})
    D = c.choose("D", DT)
    s = c.choose("energy", sorted({*lat.band, *lat.vhs, *lat.sing, 0.0}))
    side = c.choose("side", [-1, 1])
    xs = np.array([(s + side * d) * D for d in 10.0**-np.arange(1, 13)])
    xs = np.append(xs, [(s + side * d) * D for d in (0.03, 0.003, 3e-4, 3e-5, 3e-6)])
    got = np.asarray(lat.dos(xs, D))
    h = 64 * np.finfo(float).eps * D
    want, tol = [], []
    for x in xs:
        w = dosmp.dos(lat.name, float(x), float(D))
        w1, w2 = (dosmp.dos(lat.name, float(x + k), float(D)) for k in (-h, h))
        want.append(w)
        tol.append(1e-10 * w + abs(w - w1) + abs(w - w2) + 1e-300)
    want, tol = np.array(want), np.array(tol)
    if lat.name == "bcc":          # relative precision of the small Im K^2 next to the band edge
        tol = tol + 1e-13 / D
    if lat.name == "rectangular1.0":   # modulus 1/(1 - eps^2): its complement is resolved to ulp/eps^2 only
        tol = tol + 5e-15 / (xs / D)**2 / D
    ok = np.isfinite(want) & np.isfinite(tol)
    c.close((got[ok] - want[ok]) / tol[ok], np.zeros(ok.sum()), "dos next to a special energy", rtol=0, atol=1.0,
            xs=xs[ok])


def cusp(c):
    """3d lattices without closed form: continuity with the square-root law at the van Hove energies."""
    name, s, lead = c.choose("point", [("sc", -1 / 3, 3.0), ("sc", 1 / 3, 3.0), ("sc", -1.0, 3.0), ("sc", 1.0, 3.0), ("fcc", 0.0, 3.0),
                                       ("fcc", 1.5, 3.0), ("sc", 0.0, 3.0)])
    D = c.choose("D", DT)
    side = c.choose("side", [-1, 1])
    lat = LATS[name]
    d = 10.0**-np.arange(1, 12.5, 0.5)
    got = np.asarray(lat.dos((s + side * d) * D, D)) * D
    ref = np.asarray(lat.dos((s + side * np.array([1e-13, 1e-12])) * D, D))[1] * D
    at = float(lat.dos(np.array(s * D), D)) * D
    c.check(np.all(np.isfinite(got)), "finite")
    c.close(got, np.full(d.shape, ref), "square-root law", rtol=0, atol=np.inf)
    c.check(np.all(abs(got - ref) <= lead * np.sqrt(d) + 2e-5), "continuous with square-root law", got=got, ref=ref)
    c.check(abs(at - ref) <= 1e-4 or at == 0 or not np.isfinite(at) and name == "fcc", "value at the point", at=at, ref=ref)


# k-sum (tools/gen_lattice_table.py, n=128) at x = 10**-1, 10**-1.5, ... 10**-12.5
SC0 = [0.8570845294101, 0.8561421632252, 0.8560483190853, 0.8560389385734, 0.8560380005613, 0.8560379067604,
          0.8560378973803, 0.8560378964423, 0.8560378963485, 0.8560378963392, 0.8560378963382, 0.8560378963381,
          0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381,
          0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381, 0.8560378963381]


def sc_center(c):
    """sc switches to an expansion around the band centre: same function on both sides of any switch."""
    D = c.choose("D", DT)
    sign = c.choose("sign", [1, -1])
    x = sign * 10.0**-np.arange(1, 13, 0.5) * D
    c.close(np.asarray(LATS["sc"].dos(x, D)) * D, np.array(SC0), "sc dos around the band centre", rtol=0, atol=1e-10)
    c.close(float(LATS["sc"].dos(np.array(0.0), D)) * D, SC0[-1], "sc dos at the band centre", rtol=0, atol=1e-10)


def divergences(c):
    """Documented divergences are returned as inf, approached monotonically."""
    name, s = c.choose("point", [("square", 0.0), ("bcc", 0.0), ("fcc", -0.5), ("onedim", 1.0), ("onedim", -1.0),
                                 ("triangular", -4 / 9), ("honeycomb", 1 / 3), ("honeycomb", -1 / 3), ("kagome", 0.0), ("kagome", 2 / 3),
                                 ("lieb", .5**.5), ("lieb", -.5**.5), ("rectangular1.0", 0.0)])
    lat = LATS[name]
    D = c.choose("D", [1.0, 2.25, 9.0, 4.0, 0.5, 2, 1, 36.0])
    typ = c.choose("container", [float, np.float64, np.array, lambda x: np.array([x]), lambda x: np.array([0.3 * D, x])])
    val = np.asarray(lat.dos(typ(s * D), D)).ravel()[-1]
    exact = s * D == int(s * D) and s in (0.0, 1.0, -1.0, -0.5) or (name == "triangular" and D in (2.25, 9.0, 36.0))
    if exact and name in ("square", "bcc", "fcc", "onedim", "triangular"):
        c.check(np.isposinf(val), "inf at the documented divergence", val=val)
    else:
        c.check(val * D > 3, "large or inf at the documented divergence", val=val)
    for side in (-1, 1):
        if not lat.band[0] < s + side * 1e-3 < lat.band[1]:
            continue
        seq = np.asarray(lat.dos((s + side * 10.0**-np.arange(2, 10)) * D, D))
        c.check(np.all(np.diff(seq) > 0), "increases towards the divergence", seq=seq)


def regular_edges(c):
    """Values at the very band edge: 0 or the one-sided limit, never junk."""
    lat = c.choose("lattice", LATS)
    D = c.choose("D", [1.0, 1, 2, 0.5, 3.0, 0.37])
    side = c.choose("side", [0, 1])
    edge = lat.band[side]
    c.require(lat.name != "bethez2")       # 0/0 at the divergent edge of the chain
    val = float(np.asarray(lat.dos(np.array(edge * D), D)))
    near = float(np.asarray(lat.dos(np.array((edge - (2 * side - 1) * 1e-7) * D), D)))
    c.check(val >= 0, "not negative or nan", val=val)
    if edge in lat.sing or lat.name == "fcc" and side == 0:
        c.check(val == 0 or val * D > 3, "edge divergence", val=val)
    else:
        c.check(val == 0 or abs(val - near) * D <= 2e-3, "one-sided limit or 0 at the edge", val=val, near=near)


def effective_mass(c):
    """3d band edges: dos -> V (edge distance)^(1/2) / (4 pi^2 t^(3/2)), linear corrections."""
    name, s, want, curv = c.choose("edge", [("sc", 1.0, 6**1.5 / (4 * np.pi**2), 1.0), ("sc", -1.0, 6**1.5 / (4 * np.pi**2), 1.0),
                                            ("fcc", 1.5, 8**1.5 / (16 * np.pi**2), 1.0), ("bcc", 1.0, None, 1.0), ("bcc", -1.0, None, 1.0)])
    if want is None:       # eps = D (1 - k^2/2) at four equivalent maxima
        want = 2 * 2**0.5 / np.pi**2
    D = c.choose("D", DT)
    d = np.array([1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 3e-7, 1e-8, 1e-9, 1e-10])
    got = np.asarray(LATS[name].dos((s - np.sign(s) * d) * D, D)) * D / np.sqrt(d) / want
    c.close((got - 1) / (1.5 * curv * d + 1e-5 + 1e-15 / d), np.zeros(d.size), "effective-mass law at the band edge", rtol=0, atol=1.0)


def _strided(x):
    buf = np.full(2 * x.size, 0.123)
    buf[::2] = x
    return buf[::2]


def _ro(x):
    x = x.copy()
    x.setflags(write=False)
    return x


CONT = {
    "scalar": None, "np.float64": None, "0d": None, "list-like 2d": lambda x: x.reshape(2, -1), "3d": lambda x: x.reshape(1, 2, -1),
    "strided": _strided, "reversed": lambda x: x[::-1].copy()[::-1], "fortran": lambda x: np.asfortranarray(x.reshape(2, -1)),
    "readonly": _ro, "empty": lambda x: x[:0], "len1": lambda x: x[:1],
}


def containers(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("D", [1.0, 2, 0.37])
    kind = c.choose("container", list(CONT))
    x = np.linspace(lat.band[0] - 0.31, lat.band[1] + 0.27, 14) * D
    base = np.asarray(lat.dos(x.copy(), D))
    scl = 1e-12 * np.max(base[np.isfinite(base)])
    if CONT[kind] is None:
        mk = dict(scalar=float)
        mk["np.float64"], mk["0d"] = np.float64, np.array
        got = [lat.dos(mk[kind](v), D) for v in x]
        for v in got:
            c.equal(np.shape(v), (), "scalar in, scalar out")
        c.close(np.array([float(v) for v in got]), base, "scalar values", rtol=1e-12, atol=scl)
    else:
        arg = CONT[kind](x)
        keep = arg.copy()
        got = np.asarray(lat.dos(arg, D))
        want = base[:arg.size].reshape(arg.shape) if arg.size <= base.size else base
        c.close(got, want, "values independent of the container", rtol=1e-12, atol=scl)
        c.check(np.array_equal(arg, keep), "input not modified")


def integers(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("D", [4, 4.0, 7, 7.0, 12])
    typ = c.choose("dtype", [int, np.int64, np.int32, "array int64", "array int32"])
    lo, hi = int(np.floor(lat.band[0] * D)) - 2, int(np.ceil(lat.band[1] * D)) + 2
    xs = np.arange(lo, hi + 1)
    want = np.asarray(lat.dos(xs.astype(float), float(D)))
    if isinstance(typ, str):
        got = lat.dos(xs.astype(typ.split()[1]), D)
    else:
        got = [float(lat.dos(typ(x), D)) for x in xs]
    c.close(got, want, "integer typed energies", rtol=1e-10, atol=1e-14)


HARNESSES = dict(grid=grid, outside=outside, vanhove=vanhove, cusp=cusp, sc_center=sc_center, divergences=divergences,
                 regular_edges=regular_edges, effective_mass=effective_mass, containers=containers, integers=integers)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(bcc|bethe|bethez|box|fcc|honeycomb|kagome|lieb|onedim|rectangular|sc|square|triangular)\.dos$")
