"""C18: search of the chemical potential against every answer pattern of the environment.

The occupation function is the environment: it is enumerated as monotone function
(shape x position of the root x width x amplitude), and the complete history of
queries is recorded.
"""
import numpy as np
import gftool as gt

BOUNDS = ("11 monotone shapes x root positions {0, +-1e-9 .. +-1e8} x amplitudes x mu0 x step0 x solver options; functions without root; non-convergence for every maxiter 1..8")
ASSUMPTIONS = ["occupation functions are monotone increasing, as documented"]
ROOTS = [0.0, 1e-9, -1e-3, 0.3, -1.0, 2.0, -7.7, 1e3, -1e5, 1e8]


def sig(x):
    return 0.5 * (np.tanh(0.5 * x) + 1)


SHAPES = dict(
    linear=lambda x: x,
    cubic=lambda x: x**3 + 0.1 * x,
    cbrt=np.cbrt,
    sigmoid=lambda x: np.tanh(x),
    fermi=lambda x: sig(x) - 0.5,
    skew=lambda x: sig(x + 2) - sig(2.0),               # nearly filled
    empty=lambda x: sig(x - 4) - sig(-4.0),             # nearly empty
    ramp=lambda x: min(max(x, -1.0), 1.0),
    levels=lambda x: sum(sig(30 * (x - e)) for e in (-1.3, 0.2, 1.1)) - sum(sig(-30 * e) for e in (-1.3, 0.2, 1.1)),
    heavy=lambda x: x / (1 + abs(x)),
    kink=lambda x: x if x > 0 else 1e-3 * x,
)


def bounded(fct):
    """Occupations are bounded."""
    return lambda x: min(max(fct(x), -3.0), 3.0)


SHAPES = {_key: bounded(_fct) for _key, _fct in SHAPES.items()}


class Recorder:
    def __init__(self, fct):
        self.fct, self.hist = fct, []

    def __call__(self, mu):
        val = self.fct(mu)
        self.hist.append((mu, val))
        return val


def root(c):
    shape = c.choose("shape", SHAPES)
    r = c.choose("root", ROOTS)
    amp = c.choose("amplitude", c.pick([1.0, 1e-12, 1e6], [1.0, 1e-3, 50.0, 1e-6, 1e-12, 1e6]))
    mu0 = c.choose("mu0", c.pick(["default", 0.0, -3.0, 100.0], ["default", 0, 0.0, -3, 1e-4, 100.0, -1e6]))
    step0 = c.choose("step0", c.pick(["default", 0.01, 30.0], ["default", 1e-6, 0.01, 2, 30.0, 1e4]))
    solver = c.choose("solver", c.pick([{}, dict(xtol=1e-6)], [{}, dict(xtol=1e-6), dict(method="bisect"), dict(rtol=1e-10), dict(method="toms748")]))
    rec = Recorder(lambda mu: amp * shape(mu - r))
    kw = dict(solver)
    if mu0 != "default":
        kw["mu0"] = mu0
    if step0 != "default":
        kw["step0"] = step0
    mu = gt.chemical_potential(rec, **kw)
    tol = 1e-5 if "xtol" in solver else 1e-8
    tol = tol * (1 + 0 * abs(r)) + 1e-9 * abs(r) if "rtol" not in solver else 1e-8 + 1e-9 * abs(r)
    # tanh saturates at rounding level far away: the answer has to be a root, not a particular one
    plateau = abs(rec.fct(mu)) <= 1e-15 * amp
    c.check(plateau or abs(mu - r) <= tol, "root found", got=mu, want=r)
    c.check(abs(rec.fct(mu)) <= max(abs(rec.fct(r + 2 * tol)), abs(rec.fct(r - 2 * tol))) + 1e-15 * amp, "occupation matched", got=rec.fct(mu))
    c.check(len(rec.hist) < 400, "finitely many evaluations", n=len(rec.hist))


def at_start(c):
    """mu0 with the correct occupation is returned as it is."""
    shape = c.choose("shape", SHAPES)
    r = c.choose("mu0", ROOTS + [3, -2])
    step0 = c.choose("step0", [1.0, 7])
    rec = Recorder(lambda mu: shape(mu - r))
    got = gt.chemical_potential(rec, mu0=r, step0=step0)
    c.equal(got, r, "mu0 returned")
    got = gt.chemical_potential(rec, r, step0)
    c.equal(got, r, "positional arguments")


def on_edge(c):
    """The root coincides with a point of the doubling sequence: f vanishes exactly there."""
    k = c.choose("doublings", range(0, 12))
    sgn = c.choose("direction", [1, -1])
    mu0 = c.choose("mu0", [0.0, 1.0, -2.0])
    r = mu0 + sgn * 2.0**k
    for step0 in (1.0, 0.5, 0.25):
        rec = Recorder(lambda mu: (mu > r) * 1.0 - (mu < r) * 1.0)      # exact zero only at r
        mu = gt.chemical_potential(rec, mu0=mu0, step0=step0)
        c.check(abs(mu - r) < 1e-9, "root found", got=mu, want=r)
        rec = Recorder(lambda mu: float(np.sign(mu - r)) * (abs(mu - r) > 0.25))   # plateau of roots
        mu = gt.chemical_potential(rec, mu0=mu0, step0=step0)
        c.check(abs(mu - r) <= 0.25 + 1e-9, "root on the plateau", got=mu, want=r)


def jump(c):
    """Discontinuous occupation (T=0): the position of the jump is found."""
    r = c.choose("jump", ROOTS)
    lo = c.choose("below", [-1.0, -1e-3])
    hi = c.choose("above", [1.0, 0.2])
    mu0 = c.choose("mu0", [0.05, -3.0, 50.0])
    mu = gt.chemical_potential(lambda m: hi if m >= r else lo, mu0=mu0)
    c.check(abs(mu - r) <= 1e-8 + 1e-9 * abs(r), "position of the jump", got=mu, want=r)


def no_root(c):
    shape = c.choose("shape", dict(full=lambda m: 0.5 + sig(m), empty=lambda m: -0.5 - sig(-m), const=lambda m: -1.0,
                                   constp=lambda m: 1e-3, small=lambda m: -1e-8))
    mu0 = c.choose("mu0", [0.0, -5, 1e3])
    step0 = c.choose("step0", [1.0, 1e-3, 100.0])
    solver = c.choose("solver", [{}, dict(xtol=1e-3)])
    rec = Recorder(shape)
    err = c.raises(RuntimeError, lambda: gt.chemical_potential(rec, mu0=mu0, step0=step0, **solver), "RuntimeError if there is no root")
    c.check(len(rec.hist) < 2000, "finitely many evaluations")
    c.check(err is None or str(err) != "", "message")
    c.check(max(abs(m) for m, __ in rec.hist) > 1e6, "the search covers a wide range")


def no_convergence(c):
    """The inner solver is stopped after every number of iterations."""
    it = c.choose("maxiter", range(1, 9))
    shape = c.choose("shape", ["fermi", "cubic", "skew", "levels"])
    r = c.choose("root", [0.3, -7.7, 1e3])
    rec = Recorder(lambda m: SHAPES[shape](m - r))
    try:
        mu = gt.chemical_potential(rec, maxiter=it)
    except RuntimeError as err:
        c.check(hasattr(err, "mu") and np.isfinite(err.mu), "last chemical potential attached")
        c.check(hasattr(err, "mu") and any(err.mu == m for m, __ in rec.hist), "attached mu has been visited")
    else:
        c.check(abs(mu - r) < 1e-6, "accepted only when converged", got=mu, want=r)


HARNESSES = dict(root=root, at_start=at_start, on_edge=on_edge, jump=jump, no_root=no_root, no_convergence=no_convergence)
HARNESSES["root"].shard = 3

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^density\.chemical_potential", units=r"^density\.chemical_potential$", origin=r"^chemical_potential$")
