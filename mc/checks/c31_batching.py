"""C31: stacked calls equal separate calls, for every shape and memory layout."""
import logging
import warnings

import numpy as np

from gftool import pade
from mc.catalogue import CATALOGUE, leaves

BOUNDS = ("all entries of the catalogue of stackable public functions (about 110, every module) x leading shapes (), (1,), (2,), (3,), (17,), (2,1), (1,3), (2,3), (3,1,2), (0,) x which "
          "arguments are stacked (all, each alone, outer product of the arguments) x memory layouts (C, Fortran, strided, reversed, offset, read-only, big-endian); stacks of up to 20011 (thorough 131073) elements; "
          "all entries x floating types (single, extended, complex) x which argument")
ASSUMPTIONS = ["reference: the same function called separately with every core element; the values themselves are decided by the other properties",
               "zero-size stacks are required only of functions that do not go through np.vectorize or LAPACK drivers rejecting them",
               "arguments documented as float (bandwidths, beta) are not stacked"]
ALL = {e.name: e for e in CATALOGUE}
ENTRIES = {e.name: e for e in CATALOGUE if e.batch}
SHAPES = [(), (1,), (2,), (3,), (17,), (2, 1), (1, 3), (2, 3), (3, 1, 2)]
ZERO = [(0,), (2, 0)]


def stack(arg, shape, off):
    """Stack core elements, element k of the stack is variant off + k."""
    size = int(np.prod(shape, dtype=int))
    if size == 0:
        core = np.asarray(arg.make(off))
        return np.zeros(tuple(shape) + core.shape, dtype=core.dtype)
    elems = [np.asarray(arg.make(off + k)) for k in range(size)]
    return np.array(elems).reshape(tuple(shape) + elems[0].shape)


def layout(arr, kind):
    if kind == "C" or arr.ndim == 0:
        out = np.array(arr)
    elif kind == "F":
        out = np.asfortranarray(arr)
    elif kind == "strided":
        big = np.full(arr.shape[:-1] + (2 * arr.shape[-1],), 7.7, dtype=arr.dtype)
        big[..., ::2] = arr
        out = big[..., ::2]
    elif kind == "leading":
        big = np.full((2 * arr.shape[0],) + arr.shape[1:], -3, dtype=arr.dtype)
        big[1::2] = arr
        out = big[1::2]
    elif kind == "reversed":
        out = np.ascontiguousarray(arr[..., ::-1])[..., ::-1]
    elif kind == "offset":
        flat = np.zeros(arr.size + 3, dtype=arr.dtype)
        flat[3:] = arr.ravel()
        out = flat[3:].reshape(arr.shape)
    else:
        raise KeyError(kind)
    assert np.array_equal(out, arr)
    return out


def call(e, values):
    pos = [v for a, v in zip(e.args, values) if a.name is None]
    kwd = {a.name: v for a, v in zip(e.args, values) if a.name is not None}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return leaves(e.fct(*pos, **kwd))


CACHE = {}


def separate(e, variants):
    key = (e.name, tuple(variants))
    if key not in CACHE:
        if len(CACHE) > 20000:
            CACHE.clear()
        CACHE[key] = call(e, [a.make(v) for a, v in zip(e.args, variants)])
    return CACHE[key]


def compare(c, e, shapes, kind, offset=0):
    """`shapes[i]` is the leading shape of argument i or None if it is not stacked."""
    offs = [offset + 2 * i if s is not None else offset for i, s in enumerate(shapes)]
    values = []
    for a, s, off in zip(e.args, shapes, offs):
        values.append(a.make(off) if s is None else layout(stack(a, s, off), kind))
    keep = [np.array(v, copy=True) if isinstance(v, np.ndarray) else v for v in values]
    got = call(e, values)
    for v, k in zip(values, keep):
        if isinstance(v, np.ndarray):
            c.check(np.array_equal(v, k, equal_nan=True), "arguments are left alone")
    full = np.broadcast_shapes(*[s for s in shapes if s is not None]) if any(s is not None for s in shapes) else ()
    if not c.equal(len(got), len(e.out), "number of results"):
        return
    ref0 = separate(e, [o for o in offs])
    for g, r, nd in zip(got, ref0, e.out):
        if not c.equal(g.shape, tuple(full) + r.shape, "shape of the result"):
            return
    index = {}
    for i, s in enumerate(shapes):
        if s is not None:
            index[i] = np.broadcast_to(np.arange(int(np.prod(s, dtype=int))).reshape(s), full)
    for idx in np.ndindex(*full):
        var = [offs[i] + (int(index[i][idx]) if i in index else 0) for i in range(len(e.args))]
        want = separate(e, var)
        for g, w in zip(got, want):
            scale = np.max(np.abs(w)) if w.size else 0
            c.close(g[idx], w, "element of the stack", rtol=e.tol, atol=e.tol * scale + 1e-300, element=idx)


def stackable(e):
    return [i for i, a in enumerate(e.args) if a.core is not None]


def shapes(c):
    e = ENTRIES[c.choose("function", sorted(ENTRIES))]
    args = stackable(e)
    shape = c.choose("shape", c.pick(SHAPES, SHAPES + [(2, 2, 2), (130,), (1, 1)]) + (ZERO if e.empty else []))
    which = c.choose("stacked", ["all"] + (["only%d" % i for i in args] if e.mixed and len(args) > 1 else []))
    offset = c.choose("offset", c.pick([0], [0, 1, 3]))
    sh = [None] * len(e.args)
    for i in args:
        # arguments that are not stacked still have leading shape ()
        sh[i] = shape if which in ("all", "only%d" % i) else ()
    compare(c, e, sh, "C", offset)


def outer(c):
    """Every argument has its own axis."""
    e = ENTRIES[c.choose("function", [n for n in sorted(ENTRIES) if ENTRIES[n].mixed is True and len(stackable(ENTRIES[n])) > 1])]
    args = stackable(e)
    sizes = c.choose("sizes", c.pick([(2, 3, 2, 2), (3, 1, 2, 1)], [(2, 3, 2, 2), (3, 1, 2, 1), (1, 2, 1, 3), (3, 3, 1, 1)]))
    rotate = c.choose("axis", list(range(len(args))))
    sh = [None] * len(e.args)
    n = len(args)
    for j, i in enumerate(args):
        ax = (j + rotate) % n
        # fewer leading axes for the later axes: (n, 1, 1), (m, 1), (k,)
        sh[i] = (sizes[j],) + (1,) * (n - 1 - ax)
    compare(c, e, sh, "C")


def layouts(c):
    e = ENTRIES[c.choose("function", sorted(ENTRIES))]
    args = stackable(e)
    shape = c.choose("shape", [(), (3,), (2, 3)])
    kind = c.choose("layout", ["F", "strided", "leading", "reversed", "offset"])
    core = max(e.args[i].core for i in args)
    c.require(core + len(shape) > 0)
    c.require(kind != "F" or core + len(shape) > 1)
    sh = [None] * len(e.args)
    for i in args:
        sh[i] = shape
    compare(c, e, sh, kind)


def layouts_single(c):
    """Every array argument (also of functions that cannot be stacked) in another layout or precision-preserving dtype."""
    e = ALL[c.choose("function", sorted(ALL))]
    kind = c.choose("layout", ["strided", "leading", "reversed", "offset", "readonly", "bigendian"])
    variant = c.choose("variant", c.pick([0], [0, 1, 2]))
    values = [a.make(variant) for a in e.args]
    want = call(e, [a.make(variant) for a in e.args])
    arrays = [i for i, v in enumerate(values) if isinstance(v, np.ndarray) and v.ndim > 0]
    c.require(arrays)
    for i in arrays:
        v = values[i]
        if kind == "readonly":
            v = v.copy()
            v.flags.writeable = False
            values[i] = v
        elif kind == "bigendian":
            values[i] = v.astype(v.dtype.newbyteorder(">"))
        else:
            values[i] = layout(v, kind)
    got = call(e, values)
    if not c.equal(len(got), len(want), "number of results"):
        return
    for g, w in zip(got, want):
        scale = np.max(np.abs(w)) if w.size else 0
        c.close(g, w, "result for another memory layout", rtol=e.tol, atol=e.tol * scale + 1e-300)


LARGE = {0: ([64, 257, 1024, 1025, 4097, 20011], [63, 64, 65, 128, 257, 511, 513, 1000, 1024, 1025, 2048, 4097, 8193, 20011, 65537, 131073]),
         1: ([64, 129, 1025], [33, 64, 65, 128, 129, 257, 1000, 1025, 3001]),
         2: ([64, 129], [33, 64, 65, 129, 257, 1025])}
SLOW = ("gf_from", "solve_root", "lpz", "tt2z_pade", "herm2", "pcoeff_covar", "iw2tau.fit", "density_iw.fit", "fourier.tau2iw")
PERIOD = 11


def large(c):
    """Long stacks: the elements repeat with period 11, so the reference is cheap."""
    e = ENTRIES[c.choose("function", sorted(ENTRIES))]
    args = stackable(e)
    core = max(e.args[i].core for i in args)
    slow = any(s in e.name for s in SLOW)
    size = c.choose("size", [67, 130] if slow else c.pick(*LARGE[core]))
    form = c.choose("form", ["1d", "2d"])
    c.require(form == "1d" or size <= 4097)
    values = []
    idx = (np.arange(size) * 7) % PERIOD
    shape = (size,) if form == "1d" else (size, 1)
    for i, a in enumerate(e.args):
        if i in args:
            base = np.array([np.asarray(a.make(k)) for k in range(PERIOD)])
            values.append(base[idx].reshape(shape + base.shape[1:]))
        else:
            values.append(a.make(0))
    got = call(e, values)
    want = [separate(e, [k if i in args else 0 for i in range(len(e.args))]) for k in range(PERIOD)]
    if not c.equal(len(got), len(e.out), "number of results"):
        return
    for j, g in enumerate(got):
        w = np.array([want[k][j] for k in range(PERIOD)])
        if not c.equal(g.shape, shape + w.shape[1:], "shape of the result"):
            return
        w = w[idx].reshape(g.shape)
        scale = np.max(np.abs(w)) if w.size else 0
        c.close(g, w, "element of a long stack", rtol=e.tol, atol=e.tol * scale + 1e-300)


UNSTABLE = ("polepade.continuation", "polepade.number_poles", "hermite2", "Hermite2", "cpa.solve", "beb.solve", "izp")     # ill-conditioned, or iterated to an absolute tolerance


def dtypes(c):
    """The same numbers carried by another floating type: same result within the precision of this type."""
    e = ALL[c.choose("function", [n for n in sorted(ALL) if not any(u in n for u in UNSTABLE)])]
    kind = c.choose("type", ["single", "extended", "complex"])
    variant = c.choose("variant", c.pick([0, 1], list(range(7))))
    base = [a.make(variant) for a in e.args]
    arrays = [i for i, v in enumerate(base) if isinstance(v, np.ndarray) and v.dtype.kind in "fc"]
    c.require(arrays)
    which = c.choose("argument", (["all"] if len(arrays) > 1 else []) + arrays)
    ref, val = list(base), list(base)
    for i in arrays:
        if which in ("all", i):
            v = base[i]
            if kind == "single":
                val[i] = v.astype(np.float32 if v.dtype.kind == "f" else np.complex64)
                ref[i] = val[i].astype(v.dtype)
            elif kind == "extended":
                val[i] = v.astype(np.longdouble if v.dtype.kind == "f" else np.clongdouble)
            else:
                val[i] = v.astype(np.complex128)
    want = call(e, ref)
    try:
        got = call(e, val)
    except TypeError:       # LAPACK, FFT and special functions do not know all types
        c.check(kind != "single", "single precision is accepted")
        return
    if not c.equal(len(got), len(want), "number of results"):
        return
    tol = 1e-3 if kind == "single" else e.tol
    for g, w in zip(got, want):
        scale = np.max(np.abs(w)) if w.size else 0
        c.close(g, w, "result for another type", rtol=tol, atol=tol * scale + 1e-300)


def integers(c):
    """Integer valued arguments mean the same numbers, whatever integer type holds them."""
    e = ALL[c.choose("function", [n for n in sorted(ALL) if not any(u in n for u in UNSTABLE)])]
    base = [a.make(0) for a in e.args]
    arrays = [i for i, v in enumerate(base) if isinstance(v, np.ndarray) and v.dtype.kind == "f"]
    c.require(arrays)
    which = c.choose("argument", (["all"] if len(arrays) > 1 else []) + arrays)
    variant = c.choose("variant", c.pick([0, 2], list(range(7))))
    factor = c.choose("factor", [3, 1, 10])
    dtype = c.choose("type", [np.int64, np.int32])
    ref, val = [a.make(variant) for a in e.args], [a.make(variant) for a in e.args]
    for i in arrays:
        if which in ("all", i):
            v = np.round(factor * ref[i])
            v = np.where(v == 0, 1.0, v)
            ref[i], val[i] = v, v.astype(dtype)
    logging.disable(logging.WARNING)
    try:
        try:
            want = call(e, ref)
        except Exception:       # the rounded numbers are no sensible arguments
            c.require(False)
        got = call(e, val)
    finally:
        logging.disable(logging.NOTSET)
    if not c.equal(len(got), len(want), "number of results"):
        return
    for g, w in zip(got, want):
        scale = np.max(np.abs(w[np.isfinite(w)]), initial=0.0)
        c.close(g, w, "result for integers", rtol=max(e.tol, 1e-9), atol=max(e.tol, 1e-9) * scale + 1e-300)


ZIN = 1j * np.pi / 4 * (2 * np.arange(10) + 1)
FIN = 0.4 / (ZIN - 0.3) + 0.6 / (ZIN + 1.1) + 0.02 * np.cos(np.arange(10.0) ** 2)
MESH = {
    "calc_iterator": lambda z: np.array(list(pade.calc_iterator(z, ZIN, pade.coefficients(ZIN, FIN)))),
    "calc_iterator stack": lambda z: np.moveaxis(np.array(list(pade.calc_iterator(z, ZIN, pade.coefficients(ZIN, np.array([FIN, FIN.conj() * 0.7]))))), 1, 0),
    "averaged": lambda z: np.array(pade.averaged(z, ZIN, fct_z=FIN, kind=pade.KindSelf(2, 8))),
    "averaged filter": lambda z: np.array(pade.averaged(z, ZIN, fct_z=FIN, filter_valid=pade.FilterHighVariance(abs_num=3), kind=pade.KindSelf(2, 8))),
    "valid_z": lambda z: np.array(pade.averaged(np.array([0.3 + 1j]), ZIN, valid_z=z, fct_z=FIN, filter_valid=pade.FilterHighVariance(abs_num=3), kind=pade.KindGf(2, 8))),
    "avg_no_neg_imag": lambda z: np.array(pade.avg_no_neg_imag(z, ZIN, fct_z=FIN, threshold=np.inf, kind=pade.KindGf(2, 8))),
    "Averager": lambda z: np.array(pade.Averager(ZIN, pade.coefficients(ZIN, FIN), valid_pades=[True] * 4, kind=pade.KindGf(2, 10))(z)),
    "Mod_Averager": lambda z: np.array(pade.Mod_Averager(ZIN, pade.coefficients(ZIN, FIN), lambda z, p: p + z, valid_pades=[True] * 4, kind=pade.KindGf(2, 10))(z)),
}


def meshes(c):
    """Continuations accept output points of any shape and layout: every point gets the value it has on its own."""
    name = c.choose("function", sorted(MESH))
    shape = c.choose("shape", [(1,), (5,), (2, 3), (3, 2), (2, 2, 2), (1, 4), (4, 1)])
    kind = c.choose("layout", ["C", "F", "strided", "leading", "reversed", "transposed", "readonly"])
    n = int(np.prod(shape))
    z = (np.cos(1.7 * np.arange(n)) + 1j * (0.2 + 0.3 * np.sin(np.arange(n)) ** 2)).reshape(shape)
    if kind == "transposed":
        zz = np.ascontiguousarray(z.T).T
    elif kind == "readonly":
        zz = z.copy()
        zz.flags.writeable = False
    else:
        zz = layout(z, kind)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        got, flat = MESH[name](zz), MESH[name](z.ravel().copy())
    if name == "valid_z":
        c.close(got, flat, "average", rtol=1e-9, atol=1e-12)
        return
    c.equal(got.shape, flat.shape[:-1] + shape, "shape")
    c.close(got, flat.reshape(flat.shape[:-1] + shape), "value of the point", rtol=1e-9, atol=1e-12)


integers.shard = dtypes.shard = large.shard = shapes.shard = meshes.shard = layouts_single.shard = outer.shard = layouts.shard = 1
HARNESSES = {"shapes": shapes, "outer": outer, "layouts": layouts, "layouts_single": layouts_single, "meshes": meshes, "large": large, "dtypes": dtypes, "integers": integers}
