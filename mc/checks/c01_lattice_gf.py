"""C01: every lattice Green's function equals its k-space definition, in both half-planes."""
import numpy as np

from mc.lat import LATS, table

BOUNDS = ("13 lattices (24 parameterisations) x half-bandwidths 1e-3..1e3 x {retarded, advanced} x ~1300 "
          "frequencies each (19 rays x 39 radii 1e-3..1e3 plus a 135 x 6 grid over the band) x entry points; "
          "input containers x 16 frequencies; reference: converged deformed-contour k-sums (mc/ref)")
ASSUMPTIONS = ["reference tables mc/ref/tables/lattice.npz (tools/gen_lattice_table.py) are k-sums of the "
               "documented dispersions, two grid sizes agreeing", "IEEE double arithmetic; tolerance 1e-11 (2D), 5e-8 (3D) relative"]

D_QUICK = [1.0, 1, 0.37, 2, 2.5, 1e-3, 17.3, 1e3, 0.05]
D_THOROUGH = D_QUICK + [1e-6, 3.0, 4.0, 0.25, 1.5, 9 / 4, 2**1.5, 1e6, 6, 12, 0.9999, 1.1, 7e-2, 333.3]

ALIASES = ["bethe", "onedim", "square", "triangular", "honeycomb", "sc", "bcc", "fcc"]


def definition(c):
    lat = c.choose("lattice", LATS)
    D = c.choose("half_bandwidth", c.pick(D_QUICK, D_THOROUGH))
    plane = c.choose("half_plane", ["retarded", "advanced"])
    entries = ["gf_z"] + (["hilbert_transform"] if lat.has("hilbert_transform") else [])
    entry = c.choose("entry", entries)
    z, g = table(lat.name)
    keep = z.imag > 0
    z, g = z[keep], g[keep]
    if plane == "advanced":
        z, g = z.conj(), g.conj()
    fct = lat.gf_z if entry == "gf_z" else lat.hilbert
    arg = z * D
    got = np.asarray(fct(arg, D))
    c.equal(got.shape, arg.shape, "shape")
    # scaled by the modulus of g: real and imaginary part are both decided
    c.close(got * (D / abs(g)), g / abs(g), "G(z) against the k-space definition", rtol=0, atol=lat.rtol)


def real_axis(c):
    """Real-typed frequencies: outside the band the exact real value, inside one of the two limits."""
    lat = c.choose("lattice", LATS)
    D = c.choose("half_bandwidth", c.pick([1.0, 2, 0.37], [1.0, 1, 2, 0.37, 1e-3, 50.0]))
    kind = c.choose("type", ["float", "complex+0j"])
    z, g = table(lat.name)
    keep = z.imag == 0
    x, g = z[keep].real, g[keep]
    arg = x * D if kind == "float" else x * D + 0j
    got = np.asarray(lat.gf_z(arg, D)) * D
    c.equal(got.shape, arg.shape, "shape")
    c.close(got.real / abs(g), g.real / abs(g), "Re G on the real axis", rtol=0, atol=10 * lat.rtol)
    c.close(abs(got.imag) / abs(g), abs(g.imag) / abs(g), "|Im G| on the real axis", rtol=0, atol=10 * lat.rtol)


def _containers(z):
    arr = np.array([z, 2 * z, z, z.conjugate(), -z, 3 * z])
    cont = {
        "python": (z, np.array(z)),
        "np.complex128": (np.complex128(z), np.array(z)),
        "0-d": (np.array(z), np.array(z)),
        "(1,)": (np.array([z]), np.array([z])),
        "(6,)": (arr, arr),
        "(2,3)": (arr.reshape(2, 3), arr.reshape(2, 3)),
        "(3,2) Fortran": (np.asfortranarray(arr.reshape(3, 2)), arr.reshape(3, 2)),
        "(3,1,2)": (arr.reshape(3, 1, 2), arr.reshape(3, 1, 2)),
        "strided": (np.repeat(arr, 2)[::2], arr),
        "reversed": (arr[::-1][::1], arr[::-1]),
        "transposed": (arr.reshape(2, 3).T, arr.reshape(2, 3).T),
        "empty": (np.zeros(0, dtype=complex), np.zeros(0, dtype=complex)),
        "(2,0)": (np.zeros((2, 0), dtype=complex), np.zeros((2, 0), dtype=complex)),
        "clongdouble": (arr.astype(np.clongdouble), arr),
    }
    ro = arr.copy()
    ro.flags.writeable = False
    cont["read-only"] = (ro, arr)
    return cont


def containers(c):
    lat = c.choose("lattice", LATS)
    z = c.choose("z", [0.3 + 0.2j, -0.4 + 0.1j, 0.7 - 0.05j, -0.6 - 0.3j, 1.4 + 0.01j, -1.7 - 0.02j, 0.9j, 3 - 2j]
                 + c.pick([], [0.1 - 0.01j, -0.35 + 0.003j, 0.99 + 1j, -12 + 1e-3j, 1e-2 + 1e-2j, -1e-2 - 3e-2j, 1.1 - 9j, -0.45 - 1e-4j]))
    D = c.choose("D", [1.0, 2] + c.pick([], [np.float64(0.7), np.array(1.3)]))
    arg, val = c.choose("container", _containers(z))
    want = np.array([complex(lat.gf_z(np.array([zi]), float(D))[0]) for zi in np.ravel(val)], dtype=complex).reshape(val.shape)
    got = lat.gf_z(arg, D)
    c.close(np.asarray(got).astype(complex), want, "container independent", rtol=1e-12, atol=0)
    c.check(np.all(np.asarray(arg) == val), "input left unchanged")


def integers(c):
    """Integer-typed frequencies outside the band."""
    lat = c.choose("lattice", LATS)
    n = c.choose("z", [2, 3, -2, -3, 7])
    D = c.choose("D", [1.0, 1])
    form = c.choose("form", ["int", "int array", "list-like 2d"])
    arg = {"int": n, "int array": np.array([n, n + n]), "list-like 2d": np.array([[n], [2 * n]])}[form]
    want = lat.gf_z(np.asarray(arg, dtype=float) + 0j, 1.0)
    got = lat.gf_z(arg, D)
    c.close(np.asarray(got).real, np.asarray(want).real, "integer z", rtol=1e-11, atol=1e-13)


integers.skip_doc = "integer powers of integers are undefined in numpy for some closed forms"


def aliases(c):
    """gftool.<lattice>_gf_z & co. are the lattice functions."""
    import gftool as gt
    name = c.choose("lattice", ALIASES)
    lat = LATS[name]
    D = c.choose("D", [1.0, 0.8, 3])
    z = np.array([0.3 + 0.2j, -0.7 - 0.1j, 2 + 1j, 1e-2 + 1e-1j])
    x = np.array([0.21, -0.43, 0.77, 1.9]) * D
    c.close(getattr(gt, name + "_gf_z")(z, half_bandwidth=D), lat.gf_z(z, D), "alias gf_z", rtol=1e-13)
    c.close(getattr(gt, name + "_hilbert_transform")(z, half_bandwidth=D), lat.gf_z(z, D), "alias hilbert", rtol=1e-13)
    c.close(getattr(gt, name + "_dos")(x, half_bandwidth=D), lat.dos(x, D), "alias dos", rtol=1e-13)
    for m in (1, 2, 3, 4):
        c.close(getattr(gt, name + "_dos_moment")(m, half_bandwidth=D), lat.module().dos_moment(m, half_bandwidth=D), "alias moment", rtol=1e-13)


def extended(c):
    """Extended-precision frequencies give the Bethe Green's function in extended precision."""
    from mpmath import mp, mpc, mpf
    D = c.choose("D", [1.0, 2, 0.5, 16.0])   # exact prefactors
    rad = c.choose("radius", [1e-3, 0.1, 0.5, 0.9, 1.0, 1.3, 3.0, 50.0])
    plane = c.choose("half plane", [1, -1])
    ang = np.linspace(0.1, np.pi - 0.1, 9)
    z = (rad * np.exp(plane * 1j * ang) * D).astype(np.clongdouble)
    z += np.clongdouble(1e-19 * (1 + 1j)) * abs(z)      # not representable in double precision
    got = LATS["bethe"].gf_z(z, D)
    c.equal(np.asarray(got).dtype, np.dtype(np.clongdouble), "extended-precision result")
    if np.asarray(got).dtype != np.clongdouble:
        return
    num = lambda x: mpf(float(x)) + mpf(float(x - np.longdouble(float(x))))
    with mp.workdps(40):
        for zi, gi in zip(z, got):
            w = mpc(num(zi.real), num(zi.imag)) / mpf(float(D))
            ref = 2 / mpf(float(D)) / (w * (1 + mp.sqrt(1 - 1 / w**2)))
            err = abs(mpc(num(gi.real), num(gi.imag)) - ref) / abs(ref)
            c.check(err < 1e-17 / min(rad, 1), "extended precision", err=float(err))


HARNESSES = dict(extended=extended, definition=definition, real_axis=real_axis, containers=containers, integers=integers, aliases=aliases)

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^(bcc|bethe|bethez|box|fcc|honeycomb|kagome|lieb|onedim|rectangular|sc|square|triangular)\.(gf_z|hilbert_transform)$")
