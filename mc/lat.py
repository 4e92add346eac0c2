"""Catalogue of the lattices of gftool as seen through the public interface."""
import pathlib

import numpy as np

from mc.ref import lattice as ref

TABLE = pathlib.Path(__file__).resolve().parent / "ref" / "tables" / "lattice.npz"
_tab = None


def table(name):
    """(z, g): converged reference values, unit half-bandwidth, Im z >= 0 (retarded)."""
    global _tab
    if _tab is None:
        with np.load(TABLE) as dat:
            _tab = {k: dat[k] for k in dat.files}
    if name + "_z" in _tab:
        return _tab[name + "_z"], _tab[name + "_g"]
    z = _tab["triangular_z"]        # same grid, elementary closed forms
    z = z[(abs(z - 1) > 1e-9) & (abs(z + 1) > 1e-9)]
    if name.startswith("bethez"):
        return z, ref.gf_closed("bethez", z, coordination=float(name[6:]))
    return z, ref.gf_closed(name, z)


class Lat:
    def __init__(self, name, mod, kwds=None, *, rtol, sym, band, vhs=(), sing=(), peaks=(), d3=False):
        self.name, self.mod, self.kwds = name, mod, kwds or {}
        self.rtol = rtol          # accuracy granted relative to |g|
        self.sym = sym            # particle-hole symmetric
        self.band = band          # band edges for unit half-bandwidth
        self.vhs = vhs            # inner van Hove energies
        self.sing = sing          # energies with divergent dos
        self.peaks = peaks        # (energy, weight) of flat bands (not part of dos)
        self.d3 = d3

    def module(self):
        import importlib
        return importlib.import_module("gftool.lattice." + self.mod)

    def gf_z(self, z, D):
        return self.module().gf_z(z, half_bandwidth=D, **self.kwds)

    def hilbert(self, z, D):
        return self.module().hilbert_transform(z, half_bandwidth=D, **self.kwds)

    def dos(self, eps, D):
        return self.module().dos(eps, half_bandwidth=D, **self.kwds)

    def has(self, fct):
        return hasattr(self.module(), fct)


B1 = (-1.0, 1.0)
LATS = {}
for _n, _k in [
    ("onedim", dict(rtol=1e-11, sym=True, band=B1, sing=(-1.0, 1.0))),
    ("square", dict(rtol=1e-11, sym=True, band=B1, vhs=(0.0,), sing=(0.0,))),
    ("lieb", dict(rtol=1e-9, sym=True, band=B1, vhs=(0.0, -0.5**.5, 0.5**.5), sing=(-0.5**.5, 0.5**.5), peaks=((0.0, 1 / 3),))),
    ("triangular", dict(rtol=1e-11, sym=False, band=(-2 / 3, 4 / 3), vhs=(-4 / 9,), sing=(-4 / 9,))),
    ("honeycomb", dict(rtol=1e-11, sym=True, band=B1, vhs=(0.0, -1 / 3, 1 / 3), sing=(-1 / 3, 1 / 3))),
    ("kagome", dict(rtol=1e-11, sym=False, band=(-2 / 3, 4 / 3), vhs=(0.0, 1 / 3, 2 / 3), sing=(0.0, 2 / 3), peaks=((-2 / 3, 1 / 3),))),
    ("sc", dict(rtol=2e-9, sym=True, band=B1, vhs=(-1 / 3, 1 / 3), d3=True)),
    ("bcc", dict(rtol=2e-8, sym=True, band=B1, vhs=(0.0,), sing=(0.0,), d3=True)),
    ("fcc", dict(rtol=5e-8, sym=False, band=(-0.5, 1.5), vhs=(0.0,), sing=(-0.5,), d3=True)),
    ("bethe", dict(rtol=1e-11, sym=True, band=B1)),
    ("box", dict(rtol=1e-11, sym=True, band=B1)),
]:
    LATS[_n] = Lat(_n, _n, **_k)
for _s in ref.SCALES:
    _v = abs(_s - 1) / (_s + 1)
    LATS[f"rectangular{_s}"] = Lat(f"rectangular{_s}", "rectangular", dict(scale=_s), rtol=1e-11, sym=True,
                                   band=B1, vhs=(-_v, _v), sing=(-_v, _v))
for _Z in (2, 2.5, 3, 4, 6, 12, 1000):
    LATS[f"bethez{_Z}"] = Lat(f"bethez{_Z}", "bethez", dict(coordination=_Z), rtol=1e-11, sym=True, band=B1,
                              sing=(-1.0, 1.0) if _Z == 2 else ())
