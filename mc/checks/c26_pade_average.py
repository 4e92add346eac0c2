"""C26: selection, filtering and averaging of Pade approximants."""
import itertools

import numpy as np
import gftool as gt
import gftool.pade as gp

BOUNDS = ("all n_min -2..10, n_max 1..13 for both kinds; filters on all sequences of 1..5 approximants over 5 two-component values (all orderings), thresholds/keeps 1..5, batches; "
          "all 2-filter chains; all 2^5 validity masks (1D and per batch element) x output shapes; averaged/avg_no_neg_imag on 4 data sets x kinds x filters x validation ranges x batches; "
          "coinciding approximants (all two-valued patterns up to 6); partly valid batches; calls of the modification; up to 101 approximants")
ASSUMPTIONS = ["the approximants themselves are those of calc_iterator, which C25 decides"]


def numbers(kind, n_min, n_max):
    """Number of points of the approximants: even -> 1/z, odd -> constant tail."""
    return [n for n in range(2, n_max + 1) if n > n_min and n % 2 == (0 if kind == "gf" else 1)]


KIND = dict(gf=gp.KindGf, self=gp.KindSelf)


def kinds(c):
    kind = c.choose("kind", list(KIND))
    n_min = c.choose("n_min", range(-2, 11))
    n_max = c.choose("n_max", range(1, 14))
    want = numbers(kind, n_min, n_max)
    if n_min < 1 or not want:
        c.require(not (n_min == 0 and kind == "gf"))   # rounded up to 1
        c.raises(ValueError, lambda: KIND[kind](n_min, n_max), "invalid range raises")
        return
    sel = KIND[kind](n_min, n_max)
    c.equal(len(sel), len(want), "number of selected approximants")
    c.equal([sel[i] + 2 for i in range(len(sel))], want, "selected indices")
    seq = list(range(2, 60))
    c.equal(list(sel.islice(iter(seq))), want, "islice")
    c.equal(seq[sel.slice], want, "slice")
    c.equal(sel[-1] + 2, want[-1], "last index")
    # high-frequency behaviour
    zin = gt.matsubara_frequencies(np.arange(n_max), beta=4.0)
    f = 0.4 / (zin - 0.3) + 0.1 * np.cos(np.arange(n_max)**2) + 0.3j
    big = np.array([1e7j, 1e9j])
    for g in sel.islice(gp.calc_iterator(big, zin, gp.coefficients(zin, f))):
        if kind == "gf":
            c.close(g[1] / g[0] * 100, 1.0, "1/z tail", rtol=0.01, atol=0)
        else:
            c.close(g[1] / g[0], 1.0, "constant tail", rtol=0.01, atol=0)


VALS = [np.array([0.5 - 1j, -0.5j]), np.array([-0.2 + 0.25j, 0.1 - 1j]), np.array([0.3 - 1j, 0.4 + 1e-9j]), np.array([1.0 + 2j, -1j]), np.array([0.1 - 0.1j, 0.0])]


def sequence(c, nmax):
    n = c.choose("n", range(1, nmax + 1))
    return np.array([VALS[c.choose(f"pade{k}", range(len(VALS)))] for k in range(n)])


def neg_imag_ref(p, thr):
    return np.array([bool(np.all(x.imag < thr)) for x in p])


def neg_imag(c):
    p = sequence(c, c.pick(4, 5))
    thr = c.choose("threshold", [None, 1e-8, 0.0, 1e-10, 0.3, np.inf])
    flt = gp.FilterNegImag() if thr is None else gp.FilterNegImag(thr)
    want = neg_imag_ref(p, 1e-8 if thr is None else thr)
    c.equal(flt(iter(p)), want, "negative imaginary part")
    stacked = np.stack([p, p[::-1], 0.5 * p], axis=1)
    c.equal(flt(iter(stacked)), np.stack([neg_imag_ref(stacked[:, i], 1e-8 if thr is None else thr) for i in range(3)], axis=1), "stacked")


def num_ok(c, p, valid, num, what):
    n = len(p)
    bad = np.array([x.imag.max() for x in p])
    valid = np.asarray(valid)
    if not c.equal(valid.shape, (n,), what + ": shape"):
        return
    c.check(np.all(valid[bad <= 0]), what + ": valid approximants are kept", got=valid)
    c.equal(int(np.count_nonzero(valid)), min(n, max(int(num), int(np.count_nonzero(bad <= 0)))), what + ": number kept")
    if (~valid).any():
        c.check(bad[valid].max(initial=-np.inf) <= bad[~valid].min(), what + ": worst are dropped", badness=bad, got=valid)


def neg_imag_num(c):
    p = sequence(c, c.pick(4, 5))
    kw = c.choose("keep", [dict(abs_num=1), dict(abs_num=2), dict(abs_num=3), dict(abs_num=7), dict(rel_num=0.5), dict(rel_num=0.8), dict(rel_num=0.25)])
    num = kw.get("abs_num", kw.get("rel_num", 0) * len(p))
    flt = gp.FilterNegImagNum(**kw)
    num_ok(c, p, flt(iter(p)), num, "flat")
    st = np.stack([p, p[::-1]], axis=1)
    got = np.asarray(flt(iter(st)))
    if c.equal(got.shape, st.shape[:2], "stacked shape"):
        for i in range(2):
            num_ok(c, st[:, i], got[:, i], num, "stacked")


def variance_ref(p, keep):
    """Iteratively drop the approximant farthest from the mean of the remaining ones; None in case of a tie."""
    left = list(range(len(p)))
    while len(left) > keep:
        mean = np.mean(p[left], axis=0)
        dist = np.array([np.sum(abs(p[i] - mean)**2) for i in left])
        order = np.argsort(dist)
        if len(left) > 1 and dist[order[-1]] - dist[order[-2]] < 1e-9:
            return None
        left.pop(int(order[-1]))
    return np.isin(np.arange(len(p)), left)


VV = [0.1, -0.35, 0.8, 2.3, -1.9]


def high_variance(c):
    n = c.choose("n", [1, 2, 3, 4, 5])
    perm = c.choose("order", list(itertools.permutations(range(5), n)))
    kw = c.choose("keep", [dict(abs_num=1), dict(abs_num=2), dict(abs_num=3), dict(abs_num=9), dict(rel_num=0.5), dict(rel_num=0.99)])
    p = np.array([[VV[i] + 0.1j * i, 0.3 * VV[i]**2 - 0.2j] for i in perm])
    keep = kw.get("abs_num") or max(1, int(kw["rel_num"] * n))
    want = variance_ref(p, keep)
    c.require(want is not None)
    flt = gp.FilterHighVariance(**kw)
    c.equal(flt(iter(p)), want, "flat")
    other = np.roll(p, 1, axis=0) * np.array([1.0, 0.3])
    wo = variance_ref(other, keep)
    c.require(wo is not None)
    c.equal(flt(iter(np.stack([p, other], axis=1))), np.stack([want, wo], axis=1), "stacked")


def chain(c):
    p = sequence(c, c.pick(3, 4))
    batch = c.choose("batch", ["flat", "stacked"])
    thr = c.choose("threshold", [1e-8, 0.3])
    second = c.choose("second", ["keep1", "same", "var"])
    order = c.choose("order", [0, 1])
    if batch == "stacked":
        p = np.stack([p, p[::-1]], axis=1)
    elems = [p[:, i] for i in range(2)] if batch == "stacked" else [p]
    f1 = gp.FilterNegImag(thr)
    f2 = dict(keep1=gp.FilterNegImagNum(abs_num=1), same=gp.FilterNegImag(thr), var=gp.FilterHighVariance(abs_num=1))[second]

    def second_ref(q):
        if second == "same":
            return neg_imag_ref(q, thr)
        if second == "var":
            return variance_ref(q, 1)
        bad = np.array([x.imag.max() for x in q])
        if len(q) == 1:
            return np.array([True])
        srt = np.sort(bad)
        if srt[0] > 0 and srt[0] == srt[1]:
            return None
        return (bad == srt[0]) | (bad <= 0) if srt[0] > 0 else bad <= 0
    refs = [lambda q: neg_imag_ref(q, thr), second_ref]
    flts = [f1, f2]
    if order:
        refs, flts = refs[::-1], flts[::-1]
    wants, empty = [], False
    for q in elems:
        ok = np.ones(len(q), bool)
        for r in refs:
            res = r(q[ok])
            c.require(res is not None)
            ok[ok] = res
            if not ok.any():
                empty = True
                break
        wants.append(ok)
    if empty:
        c.raises(RuntimeError, lambda: gp.apply_filter(*flts, validity_iter=iter(p)), "nothing left raises")
        return
    got = gp.apply_filter(*flts, validity_iter=iter(p))
    c.equal(got, np.stack(wants, axis=1) if batch == "stacked" else wants[0], "chained filters")
    one = gp.apply_filter(f1, validity_iter=iter(p))
    c.equal(one, np.stack([neg_imag_ref(q, thr) for q in elems], axis=1) if batch == "stacked" else neg_imag_ref(p, thr), "single filter")


def fdata(n, k=0):
    zin = gt.matsubara_frequencies(np.arange(n), beta=6.0)
    i = np.arange(n)
    return zin, gt.bethe_gf_z(zin - 0.2 * k, half_bandwidth=1.3) + 2e-3 * np.cos(1.7 * i * i + k) * (1 + 0.5j)


def stats(pades):
    pades = np.array(pades)
    mean = pades.mean(axis=0)
    if len(pades) == 1:
        return mean, np.full(mean.shape, np.nan + 1j * np.nan)
    return mean, pades.real.std(axis=0, ddof=1) + 1j * pades.imag.std(axis=0, ddof=1)


def result(c, res, mean, std, what):
    c.close(res.x, mean, what + ": mean", rtol=1e-10, atol=1e-12)
    if np.all(np.isfinite(std)):
        c.close(res.err, std, what + ": deviation", rtol=1e-8, atol=1e-11)
    else:
        c.equal(np.shape(res.err), np.shape(std), what + ": deviation shape")


def averager(c):
    """All validity masks."""
    kind = c.choose("kind", list(KIND))
    batch = c.choose("batch", ["flat", "stacked", "shared"])
    mask = c.choose("mask", list(itertools.product([True, False], repeat=4)))
    zs = c.choose("z", ["1d", "0d", "2d", "scalar"])
    sel = KIND[kind](3, 11)
    c.require(len(sel) == 4)
    zin, f = fdata(12)
    if batch != "flat":
        f = np.stack([f, fdata(12, 1)[1], fdata(12, 2)[1]])
    coeff = gp.coefficients(zin, f)
    z = {"1d": np.array([0.3 + 0.2j, -0.4 + 0.1j, 1.0 + 0.5j]), "0d": np.array(0.2 + 0.3j), "2d": np.array([[0.3 + 0.2j, -0.4 + 0.1j]]), "scalar": 0.2 + 0.3j}[zs]
    valid = np.array(mask)
    if batch == "stacked":
        valid = np.stack([valid, valid[::-1], np.roll(valid, 1)], axis=1)
    mod = [lambda z, p: p, lambda z, p, a=2.0: a * p.imag + z.real]
    if not any(mask):
        c.raises(RuntimeError, lambda: gp.Averager(zin, coeff, valid_pades=valid, kind=sel), "no valid approximant raises")
        c.raises(RuntimeError, lambda: gp.Mod_Averager(zin, coeff, mod[0], valid_pades=valid, kind=sel), "no valid approximant raises")
        return
    pades = np.array(list(gp.calc_iterator(np.asarray(z), zin, coeff)))[[n - 2 for n in numbers(kind, 3, 11)]]
    fct = gp.Averager(zin, coeff, valid_pades=valid, kind=sel)
    with_mod = [gp.Mod_Averager(zin, coeff, m, valid_pades=valid, kind=sel, vectorized=v) for m in mod for v in (True, False)]

    def expect(arr):
        if batch == "stacked":
            parts = [stats(arr[valid[:, i], i]) for i in range(3)]
            return np.array([p[0] for p in parts]), np.array([p[1] for p in parts])
        return stats(arr[np.array(mask)])
    result(c, fct(z), *expect(pades), "Averager")
    result(c, fct(z), *expect(pades), "Averager, repeated")
    for m in with_mod[:2]:
        result(c, m(z), *expect(pades), "Mod_Averager")
    want = expect(2.0 * pades.imag + np.real(z) + 0j)
    for m in with_mod[2:]:
        r = m(z)
        c.check(not np.iscomplexobj(r.x), "real modification stays real")
        c.close(r.x, want[0].real, "Mod_Averager real: mean", rtol=1e-10, atol=1e-12)
        if np.all(np.isfinite(want[1])):
            c.close(r.err, want[1].real, "Mod_Averager real: deviation", rtol=1e-8, atol=1e-11)
    r = with_mod[3](z, a=5.0)
    c.close(r.x, expect(5.0 * pades.imag + np.real(z) + 0j)[0].real, "keywords are passed on", rtol=1e-10, atol=1e-12)


def errors(c):
    kind = c.choose("kind", list(KIND))
    what = c.choose("error", ["int mask", "float mask", "nan", "nan stacked"])
    cls = c.choose("class", ["Averager", "Mod_Averager"])
    zin, f = fdata(12)
    coeff = gp.coefficients(zin, f)
    sel = KIND[kind](3, 11)
    n = len(sel)

    def make(co, valid):
        if cls == "Averager":
            return gp.Averager(zin, co, valid_pades=valid, kind=sel)
        return gp.Mod_Averager(zin, co, lambda z, p: p, valid_pades=valid, kind=sel)
    if what == "int mask":
        c.raises(TypeError, lambda: make(coeff, [1] * n), "integer mask raises")
    elif what == "float mask":
        c.raises(TypeError, lambda: make(coeff, np.ones(n)), "float mask raises")
    else:
        bad = coeff.copy()
        bad[1] = np.nan
        valid = np.ones(n, bool)
        if what == "nan stacked":
            bad = np.stack([coeff, bad])
            valid = np.ones((n, 2), bool)
        avg = make(bad, valid)
        c.raises(RuntimeError, lambda: avg(np.array([0.1j, 0.2 + 1j])), "NaN approximants raise")


def end_to_end(c):
    kind = c.choose("kind", list(KIND))
    n_min = c.choose("n_min", [1, 2, 3, 4])
    n_max = c.choose("n_max", [6, 7, 10, 12])
    flt = c.choose("filter", ["none", "neg", "avg_no_neg_imag", "chain", "tuple1", "num", "var"])
    batch = c.choose("batch", [(), (2,), (2, 2)])
    given = c.choose("given", ["fct_z", "coeff"])
    vz = c.choose("valid_z", [False, True, "one", "fortran"])
    zin, f0 = fdata(12)
    f = np.array([fdata(12, k)[1] for k in range(int(np.prod(batch)))]).reshape(batch + (12,))
    z = np.array([0.3 + 0.05j, -0.4 + 0.1j, 1.0 + 0.5j, -2.0 + 0.02j])
    valid_z = {False: None, True: np.array([[0.1 + 0.02j, -1.4 + 0.01j]]), "one": np.array([-0.9 + 0.01j]),
               "fortran": np.asfortranarray([[0.1 + 0.02j, -1.4 + 0.01j], [0.7 + 0.1j, -0.2 + 0.3j]])}[vz]
    if vz == "fortran":
        z = np.asfortranarray(z.reshape(2, 2))
    check_z = (valid_z if vz else z).ravel()
    sel = KIND[kind](n_min, n_max)
    coeff = gp.coefficients(zin, f)
    ns = [n - 2 for n in numbers(kind, n_min, n_max)]
    pades = np.array(list(gp.calc_iterator(z.ravel(), zin, coeff)))[ns].reshape(len(ns), *batch, *z.shape)
    checkp = np.array(list(gp.calc_iterator(check_z, zin, coeff)))[ns]
    thr = 1e-3 if flt not in ("avg_no_neg_imag", "neg") else c.choose("threshold", [1e-3, 0.0, -1e-3, 0.5, np.inf])
    kw = dict(kind=sel)
    kw.update(dict(fct_z=f) if given == "fct_z" else dict(coeff=coeff))
    if vz:
        kw["valid_z"] = valid_z
    fs = {"none": None, "neg": gp.FilterNegImag(thr), "chain": (gp.FilterNegImag(thr), gp.FilterHighVariance(abs_num=2)), "tuple1": [gp.FilterNegImag(thr)],
          "num": gp.FilterNegImagNum(abs_num=2), "var": gp.FilterHighVariance(abs_num=2)}
    if flt == "avg_no_neg_imag":
        def run():
            return gp.avg_no_neg_imag(z, zin, threshold=thr, **kw)
    else:
        def run():
            return gp.averaged(z, zin, filter_valid=fs[flt], **kw)
    means, stds, empty = np.empty(batch + z.shape, complex), np.empty(batch + z.shape, complex), False
    for i in np.ndindex(batch):
        q = checkp[(slice(None), *i)]
        ok = np.ones(len(q), bool)
        if flt in ("neg", "avg_no_neg_imag", "chain", "tuple1"):
            ok = neg_imag_ref(q, thr)
        if flt == "num" and len(q) > 2:
            bad = q.imag.max(axis=-1)
            srt = np.sort(bad)
            c.require(srt[2] - srt[1] > 1e-6)
            ok = (bad <= srt[1]) | (bad <= 0)
        if not ok.any():
            empty = True
            break
        if flt in ("chain", "var"):
            res = variance_ref(q[ok], 2)
            c.require(res is not None)
            ok[ok] = res
        means[i], stds[i] = stats(pades[(slice(None), *i)][ok])
    if empty:
        c.raises(RuntimeError, run, "no valid approximant raises")
        return
    res = run()
    c.close(res.x, means, "mean", rtol=1e-7, atol=1e-9)
    fin = np.isfinite(stds)
    if c.equal(np.shape(res.err), np.shape(stds), "shape of the deviation"):
        c.close(np.where(fin, res.err, 0), np.where(fin, stds, 0), "deviation", rtol=1e-6, atol=1e-8)


def threshold_exact(c):
    """The Padé scheme is homogeneous: for tiny functions the threshold is still compared with the actual imaginary parts."""
    scale = c.choose("scale", {"1e-9": 1e-9, "-1e-9": -1e-9, "1e-9i": 1e-9j, "1e-11": 1e-11, "-1e-8": -1e-8, "-2": -2.0, "1e6": 1e6})
    thr = c.choose("threshold", {"default": None, "0": 0, "0.0": 0.0, "-1e-10": -1e-10, "1e-10": 1e-10, "3e-9": 3e-9, "inf": np.inf})
    kind = c.choose("kind", list(KIND))
    how = c.choose("how", ["averaged", "avg_no_neg_imag"])
    zin, f = fdata(12)
    f = f * scale
    z = np.array([0.3 + 0.05j, -0.4 + 0.1j, 1.0 + 0.5j, -2.0 + 0.02j])
    sel = KIND[kind](2, 10)
    coeff = gp.coefficients(zin, f)
    pades = np.array(list(gp.calc_iterator(z, zin, coeff)))[[n - 2 for n in numbers(kind, 2, 10)]]
    kw = {} if thr is None else dict(threshold=thr)
    t = 1e-8 if thr is None else thr
    top = pades.imag.max(axis=-1)
    c.require(not np.any(abs(top - t) < 1e-3 * abs(t) + 1e-16))
    ok = top < t

    def run():
        if how == "averaged":
            return gp.averaged(z, zin, fct_z=f, filter_valid=gp.FilterNegImag(**kw), kind=sel)
        return gp.avg_no_neg_imag(z, zin, fct_z=f, kind=sel, **kw)
    if not ok.any():
        c.raises(RuntimeError, run, "no valid approximant raises")
        return
    res = run()
    m, d = stats(pades[ok])
    c.close(res.x, m, "mean", rtol=1e-7, atol=1e-9 * abs(scale))
    if ok.sum() > 1:
        c.close(res.err, d, "deviation", rtol=1e-6, atol=1e-8 * abs(scale))


def ties(c):
    """Coinciding approximants: still exactly the requested number is kept, and an outlier goes first."""
    n = c.choose("n", [2, 3, 4, 5, 6])
    pat = c.choose("pattern", list(itertools.product([0, 1], repeat=n)))
    kw = c.choose("keep", [dict(abs_num=1), dict(abs_num=2), dict(abs_num=3), dict(rel_num=0.5), dict(rel_num=0.01), dict(rel_num=0.34), dict(rel_num=0.2)])
    nz = c.choose("frequencies", [1, 2])
    val = c.choose("values", [(1.0 - 1j, 0.25 - 0.5j), (0.0, 2.0)])
    p = np.array([[val[i] * (k + 1) for k in range(nz)] for i in pat], dtype=complex)
    keep = kw.get("abs_num") or max(1, int(kw["rel_num"] * n))
    stacked = c.choose("batch", ["flat", "stacked"])
    got = np.asarray(gp.FilterHighVariance(**kw)(iter(np.stack([p, p[::-1]], axis=1) if stacked == "stacked" else p)))
    if not c.equal(got.shape, (n, 2) if stacked == "stacked" else (n,), "shape"):
        return
    for v, q in ([(got[:, 0], pat), (got[:, 1], pat[::-1])] if stacked == "stacked" else [(got, pat)]):
        c.equal(int(np.count_nonzero(v)), min(n, keep), "number kept")
        ones = sum(q)
        if 0 < ones < n - ones and keep <= n - ones:     # the minority is farther from the mean
            c.check(not np.any(v & np.array(q, bool)), "minority dropped first", got=v, pattern=q)


def single(c):
    """One point to validate, one or two approximants: every filter."""
    n = c.choose("n", [1, 2, 3, 4])
    ims = [c.choose(f"im{k}", [-1.0, 1e-9, 0.5, 2.0]) for k in range(n)]
    p = np.array([[0.1 * k + 1j * im] for k, im in enumerate(ims)])
    c.equal(gp.FilterNegImag()(iter(p)), np.array(ims) < 1e-8, "negative imaginary part")
    for num in (1, 2, 3):
        num_ok(c, p, gp.FilterNegImagNum(abs_num=num)(iter(p)), num, "number")
    for num in (1, 2, 3):
        want = variance_ref(p, num)
        if want is not None:
            c.equal(gp.FilterHighVariance(abs_num=num)(iter(p)), want, "variance")


def modification(c):
    """The modification is called with the documented arguments."""
    kind = c.choose("kind", list(KIND))
    zs = c.choose("z", ["1d", "0d", "2d"])
    batch = c.choose("batch", [(), (2,), (2, 3)])
    mask = c.choose("mask", [(True, True, True, True), (False, True, False, True), (False, False, True, False)])
    vec = c.choose("vectorized", [True, False, "default"])
    zin, f0 = fdata(12)
    f = np.array([fdata(12, k)[1] for k in range(int(np.prod(batch)))]).reshape(batch + (12,))
    coeff = gp.coefficients(zin, f)
    sel = KIND[kind](3, 11)
    z = {"1d": np.array([0.3 + 0.2j, -0.4 + 0.1j, 1.0 + 0.5j]), "0d": np.array(0.2 + 0.3j), "2d": np.array([[0.3 + 0.2j, -0.4 + 0.1j]])}[zs]
    shape = batch + z.shape
    calls = []

    def mod(zz, pd, scale=1.0):
        calls.append(np.shape(pd))
        return scale * np.asarray(pd) ** 2 + zz
    kw = {} if vec == "default" else dict(vectorized=vec)
    fct = gp.Mod_Averager(zin, coeff, mod, valid_pades=np.array(mask), kind=sel, **kw)
    pades = np.array(list(gp.calc_iterator(z, zin, coeff)))[[n - 2 for n in numbers(kind, 3, 11)]][np.array(mask)]
    mean, std = stats(-2.0 * pades ** 2 + z)
    result(c, fct(z, scale=-2.0), mean, std, "Mod_Averager")
    if vec is False:
        c.equal(calls, [shape] * len(pades), "one call per valid approximant")
    else:
        c.equal(calls, [(len(pades), *shape)], "a single call")
    calls.clear()
    result(c, fct(z, -2.0), mean, std, "positional arguments")


def partly(c):
    """Batches for which only some elements have a valid approximant are rejected."""
    kind = c.choose("kind", list(KIND))
    cls = c.choose("class", ["Averager", "Mod_Averager"])
    masks = [c.choose(f"mask{k}", [(True, True, True, True), (False, False, False, True), (False, False, False, False)]) for k in range(3)]
    zin, _ = fdata(12)
    coeff = gp.coefficients(zin, np.stack([fdata(12, k)[1] for k in range(3)]))
    sel = KIND[kind](3, 11)
    valid = np.array(masks).T

    def make():
        if cls == "Averager":
            return gp.Averager(zin, coeff, valid_pades=valid, kind=sel)
        return gp.Mod_Averager(zin, coeff, lambda z, p: p, valid_pades=valid, kind=sel)
    if all(any(m) for m in masks):
        z = np.array([0.4 + 0.1j])
        pades = np.array(list(gp.calc_iterator(z, zin, coeff)))[[n - 2 for n in numbers(kind, 3, 11)]]
        res = make()(z)
        for k in range(3):
            c.close(res.x[k], pades[valid[:, k], k].mean(axis=0), "mean of the valid ones", rtol=1e-10, atol=1e-12)
    else:
        c.raises(RuntimeError, make, "an element without valid approximant raises")


def sizes(c):
    """Long sequences of approximants, many of them."""
    n = c.choose("n", [6, 9, 16, 17, 40, 101])
    stack = c.choose("stack", [(), (2,), (5,)])
    nz = c.choose("n_z", [1, 12])
    what = c.choose("what", ["neg", "num", "var", "averager"])
    k = np.arange(n * int(np.prod(stack)) * nz).reshape((n, *stack, nz))
    p = np.cos(1.3 * k**2 + 0.4) + 1j * (np.sin(0.7 * k**2 + 0.1 * k) - 0.6)
    cols = list(np.ndindex(stack))
    if what == "averager":
        n = min(n, 40)
        zin = gt.matsubara_frequencies(np.arange(n + 1), beta=6.0)
        f = 0.4 / (zin - 0.3) + 0.2 * np.cos(np.arange(n + 1)**2) * (1 + 0.5j) / zin
        f = f * (1 + np.arange(int(np.prod(stack)))).reshape((*stack, 1))
        sel = gp.KindGf(2, n)
        z = np.linspace(-1, 1, nz + 1)[1:] + 2j
        coeff = gp.coefficients(zin, f)
        pades = np.array(list(gp.calc_iterator(z, zin, coeff)))[[x - 2 for x in numbers("gf", 2, n)]]
        valid = np.cos(3.0 * np.arange(pades.shape[0] * len(cols))**2).reshape(pades.shape[:1] + stack) > -0.7
        c.require(np.all(np.sum(valid, axis=0) > 1))
        res = gp.Averager(zin, coeff, valid_pades=valid, kind=sel)(z)
        for i in cols:
            mean, std = stats(pades[(valid[(slice(None), *i)], *i)])
            c.close(res.x[i], mean, "mean", rtol=1e-9, atol=1e-10)
            c.close(res.err[i], std, "deviation", rtol=1e-7, atol=1e-9)
        return
    if what == "neg":
        thr = 0.2 if nz > 1 else -0.3
        want = np.array([neg_imag_ref(p[(slice(None), *i)], thr) for i in cols])
        got = gp.FilterNegImag(thr)(iter(p))
    elif what == "var":
        want = [variance_ref(p[(slice(None), *i)], n // 2) for i in cols]
        c.require(all(w is not None for w in want))
        got = gp.FilterHighVariance(abs_num=n // 2)(iter(p))
    else:
        p = p + 1j
        worst = p.imag.max(axis=-1)
        want = []
        for i in cols:
            srt = np.sort(worst[(slice(None), *i)])
            c.require(srt[n // 2] - srt[n // 2 - 1] > 1e-9 and srt[n // 2 - 1] > 0)
            want.append(worst[(slice(None), *i)] <= srt[n // 2 - 1])
        got = gp.FilterNegImagNum(abs_num=n // 2)(iter(p))
    c.equal(got, np.moveaxis(np.array(want).reshape(stack + (n,)), -1, 0), what)


HARNESSES = dict(sizes=sizes, kinds=kinds, neg_imag=neg_imag, neg_imag_num=neg_imag_num, high_variance=high_variance, chain=chain, averager=averager, errors=errors, end_to_end=end_to_end,
                 ties=ties, threshold_exact=threshold_exact, single=single, modification=modification, partly=partly)
for _h in (neg_imag, neg_imag_num, chain, averager, end_to_end):
    _h.shard = 2
kinds.shard = 2

from mc.shared import extend  # noqa: E402
extend(HARNESSES, functions=r"^pade\.(averaged|avg_no_neg_imag|Averager|Mod_Averager|Filter|apply_filter)", units=r"^pade\.average$", origin=r"^pade$", meshes=r"^(averaged|valid_z|avg_no|Averager|Mod_)")
