"""C10: every representation of the pole basis describes the same function."""
import itertools

import numpy as np
from mpmath import mp, mpc, mpf

import gftool as gt
from gftool.basis import PoleFct, PoleGf, pole

BOUNDS = ("all multisets of 0..3 (thorough 0..4) poles over an alphabet of 9 energies (0, +-1e-9, +-0.5, +-3, +-400) x 4 weight patterns x 6 beta x "
          "8 tau in [0, beta] incl. both ends; retarded times of both signs; orders 1..8; batch shapes; rejections; up to 4096 poles and 500 points")
ASSUMPTIONS = ["40-digit evaluation of sum_j w_j K(eps_j) for each kernel K"]
ALPHA = [0.0, 1e-9, -1e-9, 0.5, -0.5, 3.0, -3.0, 400.0, -400.0]
WPAT = {"ones": [1.0, 1.0, 1.0, 1.0], "mixed": [0.7, -1.3, 2.0, -0.1], "zero": [0.0, 1.0, 0.0, 2.0], "complex": [1j, 0.5 - 1j, 2.0, 1 + 1j]}
BETA = [1.0, 1, 0.1, 10, 137.0, 1e3]


def kern_tau(e, tau, beta):
    e, tau, beta = mpf(e), mpf(tau), mpf(beta)
    return -mp.exp(-tau * e) / (1 + mp.exp(-beta * e))


def kern_tau_b(e, tau, beta):
    e, tau, beta = mpf(e), mpf(tau), mpf(beta)
    return mp.exp(-tau * e) / mp.expm1(-beta * e)


_cache = {}


def K(name, *args):
    key = (name, *args)
    if key not in _cache:
        with mp.workdps(40):
            if name == "tau":
                _cache[key] = float(kern_tau(*args))
            elif name == "tau_b":
                _cache[key] = float(kern_tau_b(*args))
            elif name == "fermi":
                _cache[key] = float(1 / (mp.exp(mpf(args[0]) * mpf(args[1])) + 1))
    return _cache[key]


def pole_set(c, nmax):
    n = c.choose("n_pole", range(nmax + 1))
    out, lo = [], 0
    for k in range(n):
        i = c.choose(f"pole{k}", list(range(lo, len(ALPHA))))
        lo = i
        out.append(ALPHA[i])
    return np.array(out, dtype=float)


ZS = np.array([0.3 + 0.2j, -1 - 1j, 5j, -7 + 0.01j, 100.0 - 3j, 2.4, 1e6j, -0.25, 1e-3j])


def thermo(c):
    poles = pole_set(c, c.pick(3, 4))
    wn = c.choose("weights", ["ones", "mixed", "zero"])
    w = np.array(WPAT[wn])[:poles.size]
    gf = PoleGf(poles=poles, residues=w)
    for beta in BETA:
        tau = np.array([0.0, 1e-6, 0.01, 0.3, 0.5, 0.77, 1 - 1e-6, 1.0]) * beta
        kern = np.array([[K("tau", e, t, beta) for e in poles] for t in tau]).reshape(tau.size, poles.size)
        want = kern @ w
        scale = abs(kern) @ abs(w) + 1e-300
        cond = 1e-12 + 1e-15 * beta * max([abs(e) for e in poles], default=0) * 4
        got = pole.gf_tau(tau, poles=poles, weights=w, beta=beta)
        c.check(np.all(np.isfinite(got)), "no overflow")
        c.check(np.isrealobj(got), "real")
        c.close((got - want) / scale / cond, np.zeros(tau.size), "G(tau)", rtol=0, atol=1.0)
        c.close((gf.eval_tau(tau, beta=beta) - want) / scale / cond, np.zeros(tau.size), "PoleGf.eval_tau", rtol=0, atol=1.0)
        f = np.array([K("fermi", e, beta) for e in poles])
        occ = f @ w
        occ_scale = f @ abs(w) + 1e-300
        got_occ = gf.occ(beta)
        c.close((got_occ - occ) / occ_scale / cond, 0.0, "occupation", rtol=0, atol=1.0)
        # G(tau=beta^-) = -n, G(0) + G(beta) = -sum(w)
        c.close((got[-1] + got_occ) / (scale[-1] + occ_scale) / cond, 0.0, "G(beta) = -occ", rtol=0, atol=1.0)
        c.close(got[0] + got[-1], -np.sum(w), "jump is the first moment", rtol=0, atol=1e-12)
        for t, v in zip(tau[[0, 4, 7]], want[[0, 4, 7]]):
            c.close((float(pole.gf_tau(t, poles=poles, weights=w, beta=beta)) - v) / (abs(v) + 1e-6) / cond, 0.0,
                    "scalar tau", rtol=0, atol=30.0)


def analytic(c):
    """z-function, derivative, moments and retarded time (complex residues allowed)."""
    poles = pole_set(c, c.pick(3, 4))
    w = np.array(c.choose("weights", WPAT))[:poles.size]
    fct = PoleFct(poles=poles, residues=w)
    gf = PoleGf(poles=poles, residues=w)
    d = ZS[:, None] - poles
    want = (w / d).sum(-1) if poles.size else np.zeros(ZS.size, complex)
    scale = np.sum(abs(w / d), axis=-1) + 1e-300
    for nm, f in dict(gf_z=lambda z: pole.gf_z(z, poles=poles, weights=w), pole_gf_z=lambda z: gt.pole_gf_z(z, poles=poles, weights=w),
                      eval_z=fct.eval_z, eval_z2=gf.eval_z).items():
        c.close((f(ZS) - want) / scale, np.zeros(ZS.size), nm, rtol=0, atol=1e-12)
        c.close((f(ZS[0]) - want[0]) / scale[0], 0.0, nm + " scalar", rtol=0, atol=1e-12)
        c.close((f(ZS.reshape(3, 3)) - want.reshape(3, 3)) / scale.reshape(3, 3), np.zeros((3, 3)), nm + " 2d", rtol=0, atol=1e-12)
    order = np.arange(1, 9)
    mom = np.array([np.sum(w * poles**(m - 1.0)) for m in order])
    msc = np.array([np.sum(abs(w) * abs(poles)**(m - 1.0)) for m in order]) + 1e-300
    for nm, f in dict(moments=lambda o: pole.moments(poles, w, order=o), meth=fct.moments, gt=lambda o: gt.pole_gf_moments(poles, w, o)).items():
        c.close((f(order) - mom) / msc, np.zeros(8), "moments " + nm, rtol=0, atol=1e-12)
        c.close((f([3, 1]) - mom[[2, 0]]) / msc[[2, 0]], np.zeros(2), "moments of listed orders " + nm, rtol=0, atol=1e-12)
    tt = np.array([-50.0, -1.0, -1e-9, 0.0, 1e-9, 0.3, 2.0, 70.0])
    ret = np.where(tt >= 0, -1j * (np.exp(-1j * np.multiply.outer(tt, poles)) * w).sum(-1), 0) if poles.size else np.zeros(tt.size)
    tol = 1e-12 + 1e-13 * np.sum(abs(w)) * (1 + 70 * max(abs(poles), default=0) / 100)
    for nm, f in dict(gf_ret_t=lambda t: pole.gf_ret_t(t, poles=poles, weights=w), meth=gf.eval_ret_t,
                      gt=lambda t: gt.pole_gf_ret_t(t, poles=poles, weights=w)).items():
        got = f(tt)
        c.close(got, ret, "G^ret(t) " + nm, rtol=0, atol=tol)
        c.check(np.all(got[tt < 0] == 0), "G^ret(t<0) = 0")
        c.close(f(0.3), ret[5], "G^ret scalar time", rtol=0, atol=tol)
    # the same function: tail of z-function given by moments, G^ret(0) = -i m_1
    if poles.size and max(abs(poles)) < 10:
        z = np.array([300j, -300.0, 200 + 200j])
        tail = sum(mom[m - 1] / z**m for m in order)
        c.close(fct.eval_z(z), tail, "tail = moments", rtol=0, atol=1e-13 * np.sum(abs(w)) + 1e-15)


def bosonic(c):
    n = c.choose("n_pole", [0, 1, 2, 3])
    pos = [1e-3, 0.5, 3.0, 400.0]
    poles, lo = [], 0
    for k in range(n):
        i = c.choose(f"pole{k}", list(range(lo, 4)))
        lo = i
        poles.append(pos[i])
    poles = np.array(poles)
    w = np.array(WPAT[c.choose("weights", ["ones", "mixed"])])[:n]
    for beta in BETA:
        tau = np.array([0.0, 1e-6, 0.01, 0.3, 0.5, 0.77, 1 - 1e-6, 1.0]) * beta
        kern = np.array([[K("tau_b", e, t, beta) for e in poles] for t in tau]).reshape(tau.size, n)
        want, scale = kern @ w, abs(kern) @ abs(w) + 1e-300
        got = gt.pole_gf_tau_b(tau, poles, w, beta=beta)
        cond = 1e-12 + 1e-15 * beta * max(poles, default=0) * 4
        c.close((got - want) / scale / cond, np.zeros(tau.size), "bosonic G(tau)", rtol=0, atol=1.0)
        # commutator: G(0) - G(beta) = -sum(w)
        c.close((got[0] - got[-1] + w.sum()) / (1 + scale[0]), 0.0, "bosonic jump", rtol=0, atol=1e-12)
        one = gt.pole_gf_tau_b(tau[3], poles, w, beta=beta)
        c.equal(np.shape(one), (), "scalar tau")
        c.close((one - want[3]) / scale[3] / cond, 0.0, "bosonic scalar", rtol=0, atol=1.0)


def scalars(c):
    """Plain numbers and lists for pole and weight, complex poles (damped modes)."""
    poles = c.choose("poles", [0.5, -3, 0.7 - 0.2j, -0.4 - 1j, 2 + 0.3j, [0.7], [0.2 - 5j, -1.0], [1 - 2j, 0.1 - 0.3j, -4]])
    w = c.choose("weight", [1.0, -2, 0.3 + 1j])
    cont = c.choose("container", ["plain", "array"])
    what = c.choose("what", ["z", "d1", "tau", "ret_t", "moments", "occ"])
    beta = 3.0
    ps = np.atleast_1d(np.array(poles, complex))
    p = np.array(poles) if cont == "array" else poles
    if what == "moments":
        order = np.array([1, 2, 5])
        c.close(pole.moments(p, w, order), [np.sum(w * ps**(k - 1)) for k in order], what, rtol=1e-12, atol=1e-12)
        c.close(gt.pole_gf_moments(p, w, order), [np.sum(w * ps**(k - 1)) for k in order], what, rtol=1e-12, atol=1e-12)
        return
    if what == "occ":
        c.require(np.ndim(poles) > 0)
        c.close(PoleGf(np.array(poles), np.array(w)).occ(beta), np.sum(w / (1 + np.exp(beta * ps))), what, rtol=1e-12, atol=1e-12)
        return
    args = dict(z=[0.3 + 0.2j, -1j, 5.0], d1=[0.3 + 0.2j, -1j, 5.0], tau=[0.0, 1.1, 3.0], ret_t=[-1.0, 0.0, 2.5])[what]
    ref = dict(z=lambda x: np.sum(w / (x - ps)), d1=lambda x: -np.sum(w / (x - ps)**2), tau=lambda x: -np.sum(w * np.exp(-x * ps) / (1 + np.exp(-beta * ps))),
               ret_t=lambda x: -1j * np.sum(w * np.exp(-1j * ps * x)) if x >= 0 else 0)[what]
    fcts = dict(z=[pole.gf_z, gt.pole_gf_z], d1=[pole.gf_d1_z], tau=[lambda *a: pole.gf_tau(*a, beta=beta), lambda *a: gt.pole_gf_tau(*a, beta=beta)],
                ret_t=[pole.gf_ret_t, gt.pole_gf_ret_t])[what]
    want = np.array([ref(x) for x in args])
    for f in fcts:
        got = f(np.array(args), p, w)
        c.equal(np.shape(got), (3,), "shape")
        c.close(got, want, what, rtol=1e-12, atol=1e-12)
        for x, v in zip(args, want):
            got = f(x, p, w)
            c.equal(np.shape(got), (), "shape")
            c.close(got, v, what + " scalar", rtol=1e-12, atol=1e-12)


def bosonic_cplx(c):
    """Complex poles (positive real part), plain scalars for pole, weight and time, integers and lists."""
    poles = c.choose("poles", [0.5, 3, 0.5 + 1j, 2 - 3j, [0.7], [0.2 + 5j, 1.0], [1 - 2j, 0.1 + 0.3j, 4]])
    cont = c.choose("container", ["plain", "array"])
    w = c.choose("weight", [1.0, -2, 0.3 + 1j])
    beta = c.choose("beta", [1, 7.5])
    x = c.choose("tau/beta", [0, 0.3, 1])
    with mp.workdps(40):
        want = complex(sum(mp.mpmathify(complex(w)) * mp.exp(-mpf(x) * mpf(beta) * mp.mpmathify(complex(p))) / mp.expm1(-mpf(beta) * mp.mpmathify(complex(p)))
                           for p in np.atleast_1d(poles)))
    p = np.array(poles) if cont == "array" else poles
    got = gt.pole_gf_tau_b(x * beta, p, w, beta=beta)
    c.equal(np.shape(got), (), "shape")
    c.close(got, want, "bosonic G(tau)", rtol=1e-12, atol=1e-12)
    got = gt.pole_gf_tau_b(np.array([x, 0.5]) * beta, p, w, beta=beta)
    c.equal(np.shape(got), (2,), "shape")
    c.close(got[0], want, "bosonic G(tau), array of times", rtol=1e-12, atol=1e-12)


def reject(c):
    beta = c.choose("beta", [1.0, 10])
    bad = c.choose("tau", [-1e-3, -5.0, 1.001, 2.0])
    fct = c.choose("fct", ["gf_tau", "pole_gf_tau_b", "eval_tau"])
    tau = np.array([0.0, 0.5 * beta, bad * beta])
    p, w = np.array([0.5]), np.array([1.0])
    f = dict(gf_tau=lambda t: gt.pole_gf_tau(t, p, w, beta=beta), pole_gf_tau_b=lambda t: gt.pole_gf_tau_b(t, p, w, beta=beta),
             eval_tau=lambda t: PoleGf(p, w).eval_tau(t, beta=beta))[fct]
    c.raises(Exception, lambda: f(tau), "times outside [0, beta] are rejected")
    c.raises(Exception, lambda: f(tau[-1]), "scalar time outside [0, beta] is rejected")


def reject_boson(c):
    ps = c.choose("poles", [[0.0], [-1.0], [1.0, 0.0], [0.5, -2.0], [1.0, 2.0, 0.0], [-1e-9, 3.0], 0.0, -2.0])
    beta = c.choose("beta", [1.0, 10])
    tau = np.linspace(0, beta, 4)
    c.raises(ValueError, lambda: gt.pole_gf_tau_b(tau, np.array(ps), 1.0, beta=beta), "non-positive bosonic poles are rejected")


BATCH = [(), (1,), (2,), (3, 2), (0,)]


def batch(c):
    """Leading axes: poles/weights (..., N) against z/tau/t/order."""
    bp = c.choose("poles batch", BATCH)
    bw = c.choose("weights batch", [(), "same", "scalar"])
    n = c.choose("N", [1, 2, 3])
    what = c.choose("what", ["z", "d1", "tau", "tau_b", "ret_t", "moments", "occ"])
    beta = c.choose("beta", [2.0, "array"])
    rng = np.arange(1, 1 + int(np.prod(bp)) * n, dtype=float)
    poles = (0.3 + 0.7 * (rng * 0.37 % 2)).reshape(*bp, n)
    if what != "tau_b":
        poles = poles - 1.1
    wshape = dict(same=(*bp, n)).get(bw, (n,)) if bw != "scalar" else ()
    w = np.cos(1 + np.arange(int(np.prod(wshape, dtype=int)))).reshape(wshape)
    wb = np.broadcast_to(w, poles.shape)
    if beta == "array":
        c.require(what in ("tau", "tau_b", "occ"))
        bt = np.linspace(1.0, 3.0, int(np.prod(bp))).reshape(bp)
    else:
        bt = np.broadcast_to(beta, bp)
    out = {}
    if what == "occ":
        c.require(bw != "scalar")
        b = bt[..., None] if beta == "array" else beta
        got = PoleGf(poles, w).occ(b)
        want = np.sum(wb / (np.exp(bt[..., None] * poles) + 1), axis=-1)
    elif what == "moments":
        order = np.array([1, 2, 5])
        got = pole.moments(poles, w, order)
        want = np.sum(wb[..., None, :] * poles[..., None, :]**(order - 1.0)[:, None], axis=-1)
    else:
        arg = 0.4 + 0.1 * np.arange(int(np.prod(bp))).reshape(bp)
        e = poles
        a = arg[..., None]
        if what == "z":
            got, want = pole.gf_z(arg + 1j, poles, w), np.sum(wb / (a + 1j - e), axis=-1)
        elif what == "d1":
            got, want = pole.gf_d1_z(arg + 1j, poles, w), -np.sum(wb / (a + 1j - e)**2, axis=-1)
        elif what == "tau":
            b = bt if beta == "array" else beta
            got = pole.gf_tau(arg, poles, w, beta=b)
            want = -np.sum(wb * np.exp(-a * e) / (1 + np.exp(-bt[..., None] * e)), axis=-1)
        elif what == "tau_b":
            b = bt if beta == "array" else beta
            got = gt.pole_gf_tau_b(arg, poles, w, beta=b)
            want = np.sum(wb * np.exp(-a * e) / np.expm1(-bt[..., None] * e), axis=-1)
        else:
            arg = arg - 0.55
            got = pole.gf_ret_t(arg, poles, w)
            want = np.where(arg >= 0, np.sum(-1j * wb * np.exp(-1j * arg[..., None] * e), axis=-1), 0)
    c.close(got, want, "batched " + what, rtol=1e-12, atol=1e-13)


def outer(c):
    """A grid of arguments against a batch of functions, with the explicit new axis of the documentation."""
    what = c.choose("what", ["z", "d1", "tau", "ret_t"])
    nb = c.choose("n_fct", [1, 2, 3])
    na = c.choose("n_arg", [1, 2, 5])
    n = c.choose("N", [1, 2, 4])
    lay = c.choose("layout", ["C", "F", "strided"])
    poles = np.linspace(-1.3, 2.1, nb * n).reshape(nb, 1, n)
    w = np.linspace(-0.4, 1.7, nb * n).reshape(nb, 1, n)
    if lay == "F":
        poles, w = np.asfortranarray(poles), np.asfortranarray(w)
    elif lay == "strided":
        poles, w = np.repeat(poles, 2, axis=-1)[..., ::2], np.repeat(w, 2, axis=-1)[..., ::2]
    arg = np.linspace(0.05, 1.9, na)
    kern = dict(z=lambda a, e: 1 / (a + 0.3j - e), d1=lambda a, e: -1 / (a + 0.3j - e)**2,
                tau=lambda a, e: -np.exp(-a * e) / (1 + np.exp(-2 * e)), ret_t=lambda a, e: -1j * np.exp(-1j * a * e))[what]
    f = dict(z=lambda a: pole.gf_z(a + 0.3j, poles, w), d1=lambda a: pole.gf_d1_z(a + 0.3j, poles, w),
             tau=lambda a: pole.gf_tau(a, poles, w, beta=2), ret_t=lambda a: pole.gf_ret_t(a, poles, w))[what]
    want = np.sum(w * kern(arg[:, None], poles), axis=-1)
    c.close(f(arg), want, "outer " + what, rtol=1e-12, atol=1e-13)


def integers(c):
    """Integer typed poles, weights, beta, times give the values of the float typed ones."""
    what = c.choose("what", ["z", "d1", "tau", "tau_b", "ret_t", "moments", "occ"])
    which = c.choose("integer", ["poles", "weights", "beta", "arg", "all"])
    p, w, b, a = [np.array([1.0, 2.0, 5.0]), np.array([2.0, -1.0, 3.0]), 4.0, np.array([0.0, 1.0, 2.0, 4.0])]
    f = dict(z=lambda p, w, b, a: pole.gf_z(a - 7, p, w), d1=lambda p, w, b, a: pole.gf_d1_z(a - 7, p, w),
             tau=lambda p, w, b, a: pole.gf_tau(a, p, w, beta=b), tau_b=lambda p, w, b, a: gt.pole_gf_tau_b(a, p, w, beta=b),
             ret_t=lambda p, w, b, a: pole.gf_ret_t(a, p, w), moments=lambda p, w, b, a: pole.moments(p, w, np.array([1, 2, 4])),
             occ=lambda p, w, b, a: PoleGf(p, w).occ(b))[what]
    c.require(not (what == "d1" and which in ("all",)))   # negative integer powers are numpy's own error
    want = f(p, w, b, a)
    cast = [v.astype(int) if isinstance(v, np.ndarray) else int(v) for v in (p, w, b, a)]
    args = [ci if which in (n, "all") else v for n, ci, v in zip(("poles", "weights", "beta", "arg"), cast, (p, w, b, a))]
    c.close(f(*args), want, "integer typed input", rtol=1e-12, atol=1e-300)


def sizes(c):
    """Many poles and many points."""
    n = c.choose("n_pole", [5, 17, 64, 255, 1000, 4096])
    npt = c.choose("n_points", [1, 33, 500])
    wk = c.choose("weights", ["real", "complex"])
    i = np.arange(n)
    poles = 3 * np.cos(1.7 * i**2 + 0.3)
    w = np.cos(0.9 * i) / n + (1j * np.sin(0.4 * i) / n if wk == "complex" else 0)
    t = (np.arange(npt) + 0.5) / npt
    z = 4 * np.cos(5 * t) + 1j * (0.3 + t)
    beta = 2.3
    fermi = 1 / (np.exp(beta * poles) + 1)

    def acc(kern):
        return np.array([np.sum(w * kern(x)) for x in z]), np.array([np.sum(w * kern(x)) for x in t])

    pg = PoleGf(poles, w)
    c.close(gt.pole_gf_z(z, poles, w), acc(lambda x: 1 / (x - poles))[0], "gf_z", rtol=1e-11, atol=1e-11)
    c.close(pg.eval_z(z), acc(lambda x: 1 / (x - poles))[0], "eval_z", rtol=1e-11, atol=1e-11)
    c.close(pole.gf_d1_z(z, poles, w), acc(lambda x: -1 / (x - poles)**2)[0], "derivative", rtol=1e-11, atol=1e-11)
    tau = t * beta
    want = np.array([np.sum(-w * np.exp(-x * poles) * (1 - fermi)) for x in tau])
    c.close(gt.pole_gf_tau(tau, poles, w, beta=beta), want, "gf_tau", rtol=1e-11, atol=1e-11)
    c.close(pg.eval_tau(tau, beta), want, "eval_tau", rtol=1e-11, atol=1e-11)
    c.close(gt.pole_gf_ret_t(9 * t, poles, w), np.array([np.sum(-1j * w * np.exp(-9j * x * poles)) for x in t]), "gf_ret_t", rtol=1e-11, atol=1e-11)
    c.close(pg.occ(beta), np.sum(w * fermi), "occupation", rtol=1e-11, atol=1e-11)
    order = np.arange(1, 1 + min(npt, 25))
    c.close(gt.pole_gf_moments(poles, w, order), np.array([np.sum(w * poles**(m - 1.0)) for m in order]), "moments", rtol=1e-10, atol=1e-10 * 3.0**(order - 1))
    pos = abs(poles) + 0.1
    want = np.array([np.sum(w * np.exp(-x * pos) / np.expm1(-beta * pos)) for x in tau])
    c.close(gt.pole_gf_tau_b(tau, pos, w, beta=beta), want, "gf_tau_b", rtol=1e-11, atol=1e-11)


HARNESSES = dict(sizes=sizes, integers=integers, thermo=thermo, analytic=analytic, bosonic=bosonic, scalars=scalars, bosonic_cplx=bosonic_cplx, reject=reject, reject_boson=reject_boson, batch=batch, outer=outer)
for _h in (thermo, analytic):
    _h.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^pole\.(gf_z|gf_d1_z|gf_tau|gf_tau_b|gf_ret_t|moments|PoleGf\.(eval|occ)|PoleFct\.moments)", units=r"^pole\.functions$", origin=r"^pole$")
