"""C14: Laplace quadratures of real-time data."""
import numpy as np
import gftool as gt
from gftool import fourier

from .c12_fourier_fermi import lin_weights

BOUNDS = ("every grid length 2..10 (thorough 2..24) x full basis of the input space (real and imaginary units) x 4 time grids (start, step, direction) x "
          "frequencies incl. 0, +-1e-17..1e3, real and complex x 9 broadcast shapes of z and gf_t; long grids up to 2048 (5000) times x 333 frequencies; rejected half-planes and grids; empty inputs")
ASSUMPTIONS = ["direct summation of the documented rule; Filon integral by Gauss-Legendre (30 nodes per interval)"]

ZU = np.array([0, 1e-17, -1e-12j * -1, 1e-8, -1e-5, 1e-4 + 1e-4j, 5e-4j, 9.9e-4, 1.1e-3, 0.05, -0.3 + 0.2j, 1j, 2.5, -3 + 0.01j, 1 + 3j, 10.0])


def ref(rule, tt, g, z):
    """g (k, nt), z (nz) -> (k, nz)."""
    nt = tt.size
    if rule == "tt2z_trapz":
        w = np.zeros(nt)
        d = np.diff(tt)
        w[:-1] += d / 2
        w[1:] += d / 2
        return (np.exp(1j * np.multiply.outer(z, tt)) * w @ g.T).T
    h = (tt[-1] - tt[0]) / (nt - 1)
    if rule == "tt2z_simps":
        w = np.full(nt, h / 3)
        w[1::2] *= 4
        w[2::2] *= 2
        return (np.exp(1j * np.multiply.outer(z, tt)) * w @ g.T).T
    w0, w1 = lin_weights(1j * z * h)
    ph = np.exp(1j * np.multiply.outer(z, tt[:-1]))
    return (h * ((w0 - w1)[:, None] * (ph @ g[:, :-1].T) + w1[:, None] * (ph @ g[:, 1:].T))).T


RULES = ["tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z"]


def call(rule, tt, g, z, via):
    if via == "tt2z":
        return fourier.tt2z(tt, g, z) if rule == "tt2z" else fourier.tt2z(tt, g, z, laplace=getattr(fourier, rule))
    return (fourier.tt2z if rule == "tt2z" else getattr(fourier, rule))(tt, g, z)


def values(c):
    rule = c.choose("rule", RULES)
    via = c.choose("via", ["direct", "tt2z"])
    nt = c.choose("nt", range(2, c.pick(10, 24) + 1))
    grid = c.choose("grid", ["ret", "ret offset", "adv", "adv ascending", "nonequi"])
    h = c.choose("dt", [1.0, 0.01, 0.37, 5.0])
    lay = c.choose("layout", ["stack", "single", "strided", "readonly", "real", "z2d", "one z"])
    k = np.arange(nt)
    c.require(grid != "nonequi" or rule == "tt2z_trapz")
    tt = {"ret": h * k, "ret offset": 0.3 + h * k, "adv": -h * k, "adv ascending": h * (k - (nt - 1.0)), "nonequi": h * (k + 0.3 * k**2)}[grid]
    c.require(grid != "nonequi" or nt <= 10)
    z = ZU if not grid.startswith("adv") else ZU.conj()
    z = z / max(1.0, h)
    g = np.concatenate((np.eye(nt), 1j * np.eye(nt), [np.exp(1j * k)]))
    want = ref("tt2z_lin" if rule == "tt2z" else rule, tt, g, z)
    scale = h * nt * (1 if grid != "nonequi" else nt)
    tol = 1e-11 + 1e-15 * np.max(abs(tt)) * np.max(abs(z))
    sel = slice(None)
    if lay == "single":
        got = np.array([call(rule, tt, gi, z, via) for gi in g])
    elif lay == "strided":
        buf = np.zeros((len(g), 2 * nt), complex)
        buf[:, ::2] = g
        got = call(rule, tt, buf[:, ::2], z, via)
    elif lay == "real":
        got, sel = call(rule, tt, np.eye(nt), z, via), slice(nt)
    elif lay == "z2d":
        got = call(rule, tt, g[:, None, :], z.reshape(4, 4), via).reshape(len(g), z.size)
    elif lay == "one z":
        got = np.concatenate([call(rule, tt, g, z[i:i + 1], via) for i in range(z.size)], axis=-1)
    else:
        a, zz, t2 = g.copy(), z.copy(), tt.copy()
        if lay == "readonly":
            for x in (a, zz, t2):
                x.setflags(write=False)
        got = call(rule, t2, a, zz, via)
        c.check(np.array_equal(a, g) and np.array_equal(zz, z) and np.array_equal(t2, tt), "inputs not modified")
    c.close(got / scale, want[sel] / scale, rule, rtol=0, atol=tol)


def large(c):
    """Long time grids and many frequencies, dense data without any smoothness."""
    rule = c.choose("rule", RULES)
    nt = c.choose("nt", c.pick([*range(11, 34), 64, 65, 100, 101, 128, 257, 1000, 1001, 2048], [*range(11, 80), 100, 101, 128, 129, 256, 257, 500, 512, 1000, 1001, 2048, 3001, 5000]))
    nz = c.choose("nz", [1, 3, 64, 333])
    adv = c.choose("advanced", [False, True])
    k = np.arange(nt)
    tt = (-0.02 if adv else 0.02) * k
    g = np.stack([np.cos(0.3 * k * k) + 1j * np.sin(1.1 * k * k), np.sin(0.9 * k * k) + 0j])
    z = np.linspace(-4, 5, nz) + 1j * (0.1 + 0.2 * np.cos(np.arange(nz))**2) * (-1 if adv else 1)
    want = ref("tt2z_lin" if rule == "tt2z" else rule, tt, g, z)
    c.close(call(rule, tt, g, z, "direct"), want, rule + " batch", rtol=0, atol=1e-12 * nt)
    c.close(call(rule, tt, g[0], z, "direct"), want[0], rule, rtol=0, atol=1e-12 * nt)


SHAPES = [((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((3, 1), (2,)), ((2,), (3, 1)), ((2, 3), (3,)), ((0,), ()), ((1,), (0, 1)), ((2, 0), (0,))]


def shapes(c):
    rule = c.choose("rule", RULES)
    bg, bz = c.choose("shapes", SHAPES)
    nt = c.choose("nt", [2, 3, 6])
    nz = c.choose("nz", [1, 2, 5])
    zk = c.choose("z", ["complex", "with zero", "zeros"])
    c.require(rule == "tt2z" or 0 not in bg + bz)      # empty input is documented for tt2z only
    tt = 0.3 * np.arange(nt)
    g = (np.cos(np.arange(int(np.prod(bg, dtype=int)) * nt)) + 1j).reshape(*bg, nt)
    z = (0.3 * np.arange(int(np.prod(bz, dtype=int)) * nz) - 0.3 + 0.1j).reshape(*bz, nz)
    if zk == "with zero":
        z = z.copy()
        z.reshape(-1)[::2] = 0
    elif zk == "zeros":
        z = np.zeros_like(z)
    out = np.broadcast_shapes(bg, bz)
    got = call(rule, tt, g, z, "direct")
    c.equal(got.shape, (*out, nz), "documented shape")
    G, Z = np.broadcast_to(g, (*out, nt)), np.broadcast_to(z, (*out, nz))
    if rule == "tt2z" and g.size and not z.size:
        return
    for idx in np.ndindex(*out):
        c.close(got[idx], ref("tt2z_lin" if rule == "tt2z" else rule, tt, G[idx][None], Z[idx])[0], "batched " + rule, rtol=0, atol=1e-12)


def empty(c):
    """tt2z returns NaN of the right shape for empty input."""
    lap = c.choose("laplace", ["default", "tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    case = c.choose("case", ["no z", "no time", "no functions", "no z 2d", "no time batch", "no both"])
    bz = c.choose("sign", [1, -1])
    kw = {} if lap == "default" else dict(laplace=getattr(fourier, lap))
    tt = bz * np.linspace(0, 3, 7)
    z = np.array([1 + 1j * bz, 2.0 + 2j * bz, 3j * bz])
    g = np.ones((2, 7), complex)
    args, shape = {"no z": ((tt, g, z[:0]), (2, 0)), "no time": ((tt[:0], g[0, :0], z), (3,)), "no functions": ((tt, g[:0], z), (0, 3)),
                   "no z 2d": ((tt, g, np.zeros((2, 0), complex)), (2, 0)), "no time batch": ((tt[:0], g[:, :0], z), (2, 3)),
                   "no both": ((tt[:0], g[:, :0], z[:0]), (2, 0))}[case]
    got = fourier.tt2z(*args, **kw)
    c.equal(got.shape, shape, "shape of empty result")
    c.check(np.all(np.isnan(got)), "no made up values")


def reject(c):
    """Wrong half-planes are refused by tt2z whatever the back-end."""
    lap = c.choose("laplace", ["default", "tt2z_trapz", "tt2z_simps", "tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    case = c.choose("case", ["ret-lower", "adv-upper", "mixed z ret", "mixed z adv", "mixed tt upper", "mixed tt lower", "mixed tt real", "one bad z",
                             "one bad t"])
    nt = c.choose("nt", [3, 6, 9])
    tt = np.linspace(0, 4, nt)
    sym = np.linspace(-2, 2, nt)
    up, lo = np.array([0.3 + 1j, 2 + 1e-3j]), np.array([0.3 - 1j, 2 - 1e-3j])
    args = {"ret-lower": (tt, lo), "adv-upper": (-tt, up), "mixed z ret": (tt, np.r_[up, lo]), "mixed z adv": (-tt, np.r_[lo, up]),
            "mixed tt upper": (sym, up), "mixed tt lower": (sym, lo), "mixed tt real": (sym, np.array([1.0 + 0j, 2])),
            "one bad z": (tt, np.r_[up, up, 1 - 1e-9j]), "one bad t": (tt - 1e-9, up)}[case]
    kw = {} if lap == "default" else dict(laplace=getattr(fourier, lap))
    g = np.ones(nt, complex)
    c.raises(ValueError, lambda: fourier.tt2z(args[0], g, args[1], **kw), "wrong half-plane")
    c.raises(ValueError, lambda: fourier.tt2z(args[0], np.stack([g, g]), args[1], **kw), "wrong half-plane")


def equidistant(c):
    lap = c.choose("laplace", ["tt2z_lin", "tt2z_pade", "tt2z_herm2", "tt2z_lpz"])
    nt = c.choose("nt", [6, 9, 14])
    bad = c.choose("moved point", range(14))
    by = c.choose("by", [0.05, -0.05, 0.3])
    via = c.choose("via", ["direct", "tt2z"])
    c.require(1 <= bad < nt)
    tt = np.linspace(0, 3, nt)
    tt[bad] += by * tt[1]
    g = np.exp(-(0.3 + 1j) * tt)
    z = np.array([0.3 + 1j, 2 + 0.5j])
    f = getattr(fourier, lap)
    c.raises(ValueError, lambda: f(tt, g, z) if via == "direct" else fourier.tt2z(tt, g, z, laplace=f), "non-equidistant times")


def callback(c):
    """tt2z passes its arguments and keywords on to the given transform."""
    kwn = c.choose("kwds", [{}, {"a": 1}, {"order": 3, "quad": "simps"}])
    shape = c.choose("shape", [(5,), (2, 5)])
    adv = c.choose("advanced", [False, True])
    tt = np.linspace(0, 1, 5) * (-1 if adv else 1)
    z = np.array([1 + 1j, 2j])
    z = z.conj() if adv else z
    g = np.arange(np.prod(shape)).reshape(shape) + 1j
    seen = []

    def lap(tt, gf_t, z, **kwds):
        seen.append((tt, gf_t, z, kwds))
        return "result"
    c.equal(fourier.tt2z(tt, g, z, laplace=lap, **kwn), "result", "result of the back-end")
    c.equal(len(seen), 1, "one call")
    c.check(np.array_equal(seen[0][0], tt) and np.array_equal(seen[0][1], g) and np.array_equal(seen[0][2], z), "arguments")
    c.equal(seen[0][3], kwn, "keywords")


def convergence(c):
    """G(z) of damped pole functions to the quadrature error of the rule."""
    rule = c.choose("rule", RULES)
    p = c.choose("pole", [0.0, 0.5, -0.8])
    eta = c.choose("Im z", [0.5, 1.0, 2.0])
    h = c.choose("dt", [0.1, 0.05, 0.01])
    adv = c.choose("advanced", [False, True])
    nt = int(40 / eta / h)
    tt = h * np.arange(nt)
    z = np.linspace(-2, 2, 9) + 1j * eta
    g = -1j * np.exp(-1j * p * tt)
    want = 1 / (z - p)
    if adv:   # G^adv(t) = conj G^ret(-t) ; int_-T^0 dt
        tt, g, z, want = -tt[::-1], g.conj()[::-1], z.conj(), want.conj()
        if rule == "tt2z_simps":
            nt2 = nt - (nt + 1) % 2
            tt, g = tt[-nt2:], g[-nt2:]
    got = call(rule, tt, g, z, "tt2z")
    x = abs(z - p) * h if rule not in ("tt2z_lin", "tt2z") else (abs(p) + 1e-3) * h
    lead = dict(tt2z_trapz=x**2 / 12, tt2z_simps=x**4 / 180).get(rule, x**2 / 12 * (1 + abs(z)))
    if adv and rule == "tt2z_simps":
        lead = lead + h     # no end-point correction: the last weight multiplies G(t=0)
    c.close((got - want) / (3 * abs(want) * lead + 1e-8), np.zeros(9), "quadrature error", rtol=0, atol=1.0)


_plain = []


def plain_module():
    """The transforms as they are imported where the optional numexpr is not installed."""
    if not _plain:
        import importlib.util
        import sys
        missing = object()
        keep = sys.modules.get("numexpr", missing)
        sys.modules["numexpr"] = None
        try:
            spec = importlib.util.spec_from_file_location("gftool._fourier_without_numexpr", fourier.__file__)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
        finally:
            if keep is missing:
                del sys.modules["numexpr"]
            else:
                sys.modules["numexpr"] = keep
        _plain.append(mod)
    return _plain[0]


def without_numexpr(c):
    """The optional dependency only changes the speed."""
    rule = c.choose("rule", [*RULES, "tt2z_pade", "tt2z_lpz"])
    nt = c.choose("nt", [3, 8, 33, 130])
    h = c.choose("dt", [1.0, 0.02, 7.0])
    sign = c.choose("direction", [1, -1])
    shape = c.choose("shape", ["flat", "2d", "stack", "both"])
    c.require(sign == 1 or rule in RULES)
    tt = sign * h * np.arange(nt)
    z = (np.array([0.3 + 0.2j, -1 + 0.05j, 1j, 2.5 + 1j, 40 + 3j, 1e-7j + 1e-8]) / h).reshape(2, 3)
    z = z if sign > 0 else z.conj()
    g = np.stack([np.exp((-0.3 - 0.4j) * abs(tt) / h), 1j * np.cos(0.2 * np.arange(nt)**2) * np.exp(-0.1 * np.arange(nt))])
    if rule not in RULES:
        g = np.stack([g[0], g[0].conj() * 0.5])
    z = z if shape in ("2d",) and rule in RULES else z.ravel()
    g = g if shape == "stack" else g[0]
    f = getattr(plain_module(), rule)
    got = f(tt, g, z)
    if rule in RULES:
        want = ref("tt2z_lin" if rule == "tt2z" else rule, tt, np.atleast_2d(g), z.ravel())
        want = want.reshape(g.shape[:-1] + z.shape)
        c.close(got, want, "direct sum", rtol=1e-9, atol=1e-10 * h * nt)
        if shape == "both":
            c.close(plain_module().tt2z(tt, g, z), fourier.tt2z(tt, g, z), "with and without numexpr", rtol=1e-9, atol=1e-10 * h * nt)
    else:
        c.close(got, getattr(fourier, rule)(tt, g, z), "with and without numexpr", rtol=1e-5, atol=1e-6 * h)


HARNESSES = dict(without_numexpr=without_numexpr, large=large, values=values, shapes=shapes, empty=empty, reject=reject, equidistant=equidistant, callback=callback, convergence=convergence)
for _h in HARNESSES.values():
    _h.shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^fourier\.(tt2z_(trapz|simps|lin)|tt2z|tt2z\.(tt2z_trapz|tt2z_simps|empty)|tt2z_lin\.zero)$", units=r"^fourier\.laplace$", origin=r"^fourier\.laplace$")
