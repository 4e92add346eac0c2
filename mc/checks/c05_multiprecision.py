"""C05: multi-precision DOS / Green's functions."""
import importlib

import numpy as np
from mpmath import mp, mpf

from mc.lat import LATS, table
from mc.ref import dosmp
from mc.ref import moments as mom

BOUNDS = ("10 lattices with dos_mp x half-bandwidths (int, float, mpf, str) x ~60 energies incl. distances 1e-2..1e-9 to "
          "special points x mp.dps in {15, 30, 50}; integrals eps^m, m=0..4 at 30 digits against exact rational moments; "
          "energies given as float, int, numpy float")
ASSUMPTIONS = ["AGM closed forms at dps+60 digits (mc/ref/dosmp.py), exact closed-walk moments"]
NAMES = [n for n in ("sc", "fcc", "bcc", "bethe", "square", "triangular", "honeycomb", "kagome", "lieb", "onedim")]
DS = {"1": 1, "2": 2, "7": 7, "0.37": 0.37, "1.0": 1.0, "mpf 0.3": "0.3", "1e-3": 1e-3, "250": 250}


def mod(name):
    return importlib.import_module("gftool.lattice." + name)


def energies(lat):
    pts = [mpf(k) / 100 for k in range(-163, 164, 7)]
    for s in sorted({*lat.vhs, 0.0}):
        for d in (2, 3, 4, 5, 7, 9):
            pts += [mpf(s) + mpf(10)**-d, mpf(s) - mpf(10)**-d]
    return [p for p in pts if min(abs(p - b) for b in (*lat.band, *lat.vhs, *lat.sing)) > 1e-10]


def pointwise(c):
    name = c.choose("lattice", NAMES)
    D = c.choose("D", DS)
    dps = c.choose("dps", [15, 30, 50])
    lat = LATS[name]
    old = mp.dps
    try:
        mp.dps = dps
        D = mpf(D) if isinstance(D, str) else D
        Dm = mpf(D)
        xs = [x * Dm for x in energies(lat)]
        got = [mod(name).dos_mp(x, half_bandwidth=D) for x in xs]
        c.equal(mp.dps, dps, "working precision left unchanged")
        mp.dps = dps + 60
        worst, at = mpf(0), None
        for x, g in zip(xs, got):
            c.check(mp.im(g) == 0 and mp.re(g) >= 0, "real and non-negative", x=x, got=g)
            inside = lat.band[0] < x / Dm < lat.band[1]
            if not inside:
                c.check(g == 0, "0 outside the band", x=x, got=g)
                continue
            if dosmp.has(name):
                want = dosmp.dos_mpf(name, x, Dm, dps + 60)
            else:
                want = mod(name).dos_mp(x, half_bandwidth=D)
                if float(x / Dm) != 0:
                    dbl = float(lat.dos(np.array(float(x)), float(Dm)))
                    c.close(float(want) * float(Dm), dbl * float(Dm), "agrees with the double-precision dos", rtol=1e-6, atol=1e-7)
            # digits lost at special points: backward error of the energy of 10^-dps
            dist = min([abs(x / Dm - mpf(b)) for b in (*lat.band, *lat.vhs)])
            tol = mpf(10)**(2 - dps) * (1 + 1 / dist)
            if name == "sc":      # documented expansion switch: about 7/8 of the digits next to the centre
                tol = max(tol, mpf(10)**(-mpf(dps) * 3 / 4))
            err = abs(g - want) / abs(want) / tol
            if err > worst:
                worst, at = err, x
        c.close(float(worst), 0.0, "dos_mp accurate to the working precision", rtol=0, atol=1.0, at=at)
    finally:
        mp.dps = old


def integrals(c):
    """Moments of dos_mp at 30 digits by tanh-sinh quadrature: exact rational numbers."""
    name = c.choose("lattice", NAMES)
    D = c.choose("D", c.pick(["1", "7/3"], ["1", "7/3", "0.37", "5"]))
    m = c.choose("m", c.pick([0, 2, 3], [0, 1, 2, 3, 4]))
    lat = LATS[name]
    old = mp.dps
    try:
        mp.dps = 30
        D = mpf(D)
        third = {1 / 3: mpf(1) / 3, -1 / 3: -mpf(1) / 3, 2 / 3: mpf(2) / 3, -2 / 3: -mpf(2) / 3, 4 / 3: mpf(4) / 3,
                 -4 / 9: -mpf(4) / 9, 0.5**.5: mp.sqrt(mpf(1) / 2), -0.5**.5: -mp.sqrt(mpf(1) / 2)}
        pts = sorted({*lat.band, *lat.vhs, *lat.sing})
        pts = [third.get(p, mpf(p)) for p in pts]
        # substitute x = a + s^2, b - s^2 on half intervals: resolves the end points relative to themselves
        val = mpf(0)
        for a, b in zip(pts[:-1], pts[1:]):
            val += mp.quad(lambda x: mod(name).dos_mp(x * D, half_bandwidth=D) * D * x**m, [a, (a + b) / 2, b])
        for e, w in lat.peaks:
            e = third.get(e, mpf(e))
            val += (mpf(1) / 3) * e**m
        want = mom.moment(name, m)
        want = mpf(want.numerator) / want.denominator
        c.close(float(abs(val - want)), 0.0, "integral of eps^m dos_mp is the exact moment",
                rtol=0, atol=1e-12 if name in ("onedim", "sc") else 1e-20)
    finally:
        mp.dps = old


def sc_gf(c):
    D = c.choose("D", DS)
    dps = c.choose("dps", [15, 30, 50])
    part = c.choose("part", range(8))
    z, g = table("sc")
    keep = (z.imag > 0) & (abs(z) > 1e-2)
    z, g = z[keep][part::40], g[keep][part::40]
    old = mp.dps
    try:
        mp.dps = dps
        D = mpf(D) if isinstance(D, str) else D
        zs = [mp.mpc(v) * D for v in z]
        got = [mod("sc").gf_z_mp(v, half_bandwidth=D) for v in zs]
        c.equal(mp.dps, dps, "working precision left unchanged")
        c.close(np.array([complex(v * D) for v in got]), g, "gf_z_mp agrees with the k-sum", rtol=1e-7, atol=0)
        mp.dps = dps + 60
        ref = [mod("sc").gf_z_mp(v, half_bandwidth=mpf(D)) for v in zs]
        err = max(abs((a - b) / b) for a, b in zip(got, ref)) * mpf(10)**(dps - 8)
        c.close(float(err), 0.0, "gf_z_mp accurate to the working precision", rtol=0, atol=1.0)
        adv = [mp.conj(mod("sc").gf_z_mp(mp.conj(v), half_bandwidth=D)) for v in zs[::7]]
        c.close(np.array([complex(v * D) for v in adv]), g[::7], "advanced", rtol=1e-7, atol=0)
    finally:
        mp.dps = old


def inputs(c):
    """Floats, integers and strings are taken at face value: the result is that of the exactly converted energy."""
    name = c.choose("lattice", NAMES)
    D = c.choose("D", {"1": 1, "1.0": 1.0, "0.3": 0.3, "mpf 0.7": mpf("0.7"), "3": 3})
    x = c.choose("eps", [0.1, 0.2, 0.7, -0.1, -0.3, 0.05, 1e-3, 0, -1, 2, np.float64(0.11), np.float64(-0.23)])
    dps = c.choose("dps", [15, 30, 50])
    typ = c.choose("type", ["number", "mpf", "default D"])
    c.require(typ != "default D" or D == 1)
    lat = LATS[name]
    old = mp.dps
    try:
        mp.dps = dps
        c.require(min(abs(mpf(float(x)) / mpf(D) - b) for b in (*lat.band, *lat.vhs, *lat.sing)) > 1e-10 or name in ("bcc", "bethe") or name == "sc" and x == 0)
        arg = mpf(x) if typ == "mpf" else x
        got = mod(name).dos_mp(arg) if typ == "default D" else mod(name).dos_mp(arg, half_bandwidth=D)
        c.check(isinstance(got, mp.mpf), "multi-precision result", type=type(got).__name__)
        mp.dps = dps + 40
        want = mod(name).dos_mp(mpf(x), half_bandwidth=mpf(D))
        if name == "sc" and abs(x / D) < 1e-2:
            return
        if mp.isinf(want) or want == 0:
            c.check(got == want, "limit", got=got, want=want)
        else:
            dist = min([abs(mpf(float(x)) / mpf(D) - mpf(b)) for b in (*lat.band, *lat.vhs)])
            c.check(abs(got - want) <= abs(want) * mpf(10)**(3 - dps) * (1 + 1 / (dist + mpf(10)**-dps)), "dos_mp of the exact energy", got=got, want=want)
    finally:
        mp.dps = old


HARNESSES = dict(pointwise=pointwise, integrals=integrals, sc_gf=sc_gf, inputs=inputs)
for _h in HARNESSES.values():
    _h.shard = 2
