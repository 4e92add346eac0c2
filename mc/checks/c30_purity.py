"""C30: functions neither modify their arguments nor remember anything."""
import logging
import os
import pickle
import signal
import sys
import warnings
from functools import lru_cache

import numpy as np
import gftool as gt
from mpmath import mp

from mc import catalogue as cat
from mc.catalogue import CATALOGUE, REJECTED, leaves

BOUNDS = ("catalogue of 245 public calls (all modules) and 8 rejected calls; arguments: every call; histories: every ordered pair of calls (thorough: all pairs, quick: all pairs within a module plus "
          "the concatenation of all calls, twice, in both directions), every pair of calls of one function differing in one argument or in the stack shape, results overwritten in between; "
          "interleavings: one call of the same function with other arguments inserted at every executed source line of the library (thorough: also of its module); "
          "object histories: every sequence of 3 method calls of 22 objects; argument dtypes; ambient settings (logging, printing, random state); faults: the user callback raising at every one of its calls")
ASSUMPTIONS = ["every history runs in its own forked process, the reference value comes from a process that made no other call",
               "an interleaved call runs to completion at the preemption point (one preemption), the granularity is the source line",
               "restrict_self_root_eq of cpa and beb work in place by design and are excluded"]
BYNAME = {e.name: e for e in CATALOGUE + REJECTED}
NAMES = sorted(BYNAME)


def libdir():
    import gftool
    return os.path.dirname(os.path.abspath(gftool.__file__)) + os.sep


def in_child(fct):
    """Result of `fct` in a forked process, whose state is thrown away."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.alarm(120)
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                out = fct()
            with os.fdopen(wr, "wb") as f:
                pickle.dump(out, f, protocol=4)
            code = 0
        except BaseException as exc:   # reported to the parent
            try:
                os.write(wr, pickle.dumps(("broken", repr(exc))))
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("broken", "child died")


def run(spec, corrupt=True):
    """Perform the call described by `spec` and return copies of the resulting arrays."""
    name, variants, shape = spec
    e = BYNAME[name]
    if shape is None:
        pos, kwd = e.build(variants)
    else:
        from mc.checks.c31_batching import stack
        vals = [a.make(v) if a.core is None else stack(a, shape, v) for a, v in zip(e.args, variants if not isinstance(variants, int) else [variants] * len(e.args))]
        pos = [v for a, v in zip(e.args, vals) if a.name is None]
        kwd = {a.name: v for a, v in zip(e.args, vals) if a.name is not None}
    try:
        res = leaves(e.call(pos, kwd))
    except Exception as exc:
        return ("raised", type(exc).__name__)
    out = [np.array(x) for x in res]
    if corrupt:
        for x in res:
            if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc":
                try:
                    x[...] = np.nan
                except ValueError:
                    pass
    return ("value", out)


FRESH = {}


def fresh(spec):
    key = repr(spec)
    if key not in FRESH:
        FRESH[key] = in_child(lambda: run(spec))
    return FRESH[key]


def same(c, got, spec, what):
    want = fresh(spec)
    e = BYNAME[spec[0]]
    if got[0] == "broken" or want[0] == "broken":
        c.fail("call broke down", got=got[1] if got[0] == "broken" else "", want=want[1] if want[0] == "broken" else "", call=spec[0])
        return False
    if e.raises is None and want[0] == "raised":
        c.fail("unexpected exception", call=spec[0], error=want[1])
        return False
    if not c.equal(got[0], want[0], what + ": outcome", call=spec[0]):
        return False
    if got[0] == "raised":
        return c.equal(got[1], want[1], what + ": exception", call=spec[0])
    if not c.equal(len(got[1]), len(want[1]), what + ": number of results", call=spec[0]):
        return False
    for g, w in zip(got[1], want[1]):
        scale = np.max(np.abs(w)) if w.size else 0
        if not c.close(g, w, what, rtol=1e-9, atol=1e-9 * scale + 1e-300, call=spec[0]):
            return False
    return True


def arguments(c):
    """Arguments, results and global settings after a call."""
    e = BYNAME[c.choose("function", [n for n in NAMES if BYNAME[n].raises is None])]
    variant = c.choose("variant", c.pick([0], [0, 1, 2]))
    shape = c.choose("shape", [None, (2,)] if e.batch else [None])

    def settings():
        st = np.random.get_state()
        return dict(err=np.geterr(), prec=mp.prec, bufsize=np.getbufsize(), printing={k: v for k, v in np.get_printoptions().items()},
                    random=(st[0], st[1].tolist(), st[2]), filters=len(warnings.filters), cwd=os.getcwd(), trace=sys.gettrace() is None)

    def work():
        from mc.checks.c31_batching import stack
        vals = [stack(a, shape, variant) if shape and a.core is not None else a.make(variant) for a in e.args]
        arrays = [v for v in vals if isinstance(v, np.ndarray)]
        keep = [v.copy() for v in arrays]
        before = settings()
        res = e.call([v for a, v in zip(e.args, vals) if a.name is None], {a.name: v for a, v in zip(e.args, vals) if a.name is not None})
        res = leaves(res)
        after = settings()
        bad = [k for k in before if before[k] != after[k]]
        changed = [i for i, (v, k) in enumerate(zip(arrays, keep)) if v.shape != k.shape or not np.array_equal(v, k)]
        alias = [i for i, v in enumerate(arrays) for r in res if v.size and r.size and np.shares_memory(v, r)]
        pairs = sum(1 for i in range(len(res)) for j in range(i) if np.shares_memory(res[i], res[j]))
        return ("facts", (bad, changed, alias, pairs, [np.array(r) for r in res]))
    got = in_child(work)
    if got[0] != "facts":
        c.fail("call broke down", error=got[1])
        return
    bad, changed, alias, pairs, res = got[1]
    c.equal(bad, [], "global settings after the call")
    c.equal(changed, [], "arguments modified by the call")
    c.equal(alias, [], "results sharing memory with an argument")
    c.equal(pairs, 0, "results sharing memory with each other")
    same(c, ("value", res), (e.name, variant, shape), "value")


def dtypes(c):
    """Arguments of another precision or type are not modified either and results do not share memory with them (whether or not the call accepts them)."""
    e = BYNAME[c.choose("function", [n for n in NAMES if BYNAME[n].raises is None])]
    kind = c.choose("dtype", ["extended", "single", "complex", "object layout F"])
    shape = c.choose("shape", [None, (2,)] if e.batch else [None])

    def cast(v):
        if not isinstance(v, np.ndarray) or v.dtype.kind not in "fc":
            return v
        if kind == "extended":
            return v.astype(np.longdouble if v.dtype.kind == "f" else np.clongdouble)
        if kind == "single":
            return v.astype(np.float32 if v.dtype.kind == "f" else np.complex64)
        if kind == "complex":
            return v.astype(complex)
        return np.asfortranarray(v.copy())

    def work():
        from mc.checks.c31_batching import stack
        vals = [cast(stack(a, shape, 0) if shape and a.core is not None else a.make(0)) for a in e.args]
        arrays = [v for v in vals if isinstance(v, np.ndarray)]
        keep = [v.copy() for v in arrays]
        try:
            res = leaves(e.call([v for a, v in zip(e.args, vals) if a.name is None], {a.name: v for a, v in zip(e.args, vals) if a.name is not None}))
        except Exception:
            res = []
        changed = [i for i, (v, k) in enumerate(zip(arrays, keep)) if v.shape != k.shape or not np.array_equal(v, k)]
        alias = [i for i, v in enumerate(arrays) for r in res if v.size and r.size and np.shares_memory(v, r)]
        return ("facts", (changed, alias))
    got = in_child(work)
    if got[0] != "facts":
        c.fail("call broke down", error=got[1])
        return
    c.equal(got[1][0], [], "arguments modified by the call")
    c.equal(got[1][1], [], "results sharing memory with an argument")


def ambient(c):
    """Values do not depend on logging, print options, the random state or the working directory; every log message can be formatted."""
    name = c.choose("function", [n for n in NAMES if BYNAME[n].raises is None])
    setting = c.choose("setting", ["debug logging", "info logging", "printing"])

    def work():
        broken = []
        if setting == "printing":
            np.set_printoptions(precision=1, suppress=True, threshold=2)
            np.random.seed(12345)
            os.chdir("/")
        else:
            class Handler(logging.Handler):
                def emit(self, record):
                    try:
                        record.getMessage()
                    except Exception as exc:
                        broken.append(repr(exc))
            logger = logging.getLogger()
            logger.handlers = [Handler()]
            logger.setLevel(logging.DEBUG if setting == "debug logging" else logging.INFO)
        return ("facts", (broken, run((name, 0, None))))
    got = in_child(work)
    if got[0] != "facts":
        c.fail("call broke down", error=got[1])
        return
    c.equal(got[1][0], [], "log messages")
    same(c, got[1][1], (name, 0, None), "value")


def pair(c, first, second):
    """second - first - second; results are overwritten in between."""
    def work():
        a = run(second)
        run(first)
        return (a, run(second))
    got = in_child(work)
    if got[0] == "broken":
        c.fail("history broke down", error=got[1])
        return
    if same(c, got[0], second, "first call"):
        same(c, got[1], second, "value after another call")
    # the other order: the interfering call comes before anything else
    def work2():
        run(first)
        return run(second)
    same(c, in_child(work2), second, "value if another call came first")


def pairs(c):
    a = c.choose("call", NAMES)
    group = BYNAME[a].group
    near = [n for n in NAMES if (BYNAME[n].group == group and (not BYNAME[n].extra or n.split(".")[:2] == a.split(".")[:2])) or BYNAME[n].group == "reject"]
    other = c.choose("other", c.pick(near, NAMES))
    pair(c, (other, 1 if other != a else 2, None), (a, 0, None))


def neighbours(c):
    """Calls of the same function whose arguments differ in one place only, or in the stack shape."""
    e = BYNAME[c.choose("function", [n for n in NAMES if BYNAME[n].raises is None])]
    n = len(e.args)
    kinds = ["arg%d" % i for i in range(n)] + (["stack", "unstack", "restack"] if e.batch else [])
    kind = c.choose("difference", kinds)
    base = (e.name, [0] * n, None)
    if kind.startswith("arg"):
        i = int(kind[3:])
        other = (e.name, [0] * i + [c.choose("variant", [1, 2])] + [0] * (n - i - 1), None)
    elif kind == "stack":
        other = (e.name, [0] * n, (3,))
    elif kind == "unstack":
        base, other = (e.name, [0] * n, (3,)), (e.name, [0] * n, None)
    else:
        base, other = (e.name, [0] * n, (3,)), (e.name, [1] * n, (3,))
    pair(c, other, base)


def longest(c):
    """All calls in one process, twice: every value is checked both times."""
    direction = c.choose("direction", ["forward", "backward"])
    names = NAMES if direction == "forward" else NAMES[::-1]
    def work():
        out = []
        for rep in range(2):
            for n in names:
                for v in (1, 0):
                    out.append(((n, v, None), run((n, v, None))))
        return ("all", out)
    got = in_child(work)
    if got[0] != "all":
        c.fail("history broke down", error=got[1])
        return
    for spec, res in got[1]:
        if not same(c, res, spec, "value in a long history"):
            return


class Interrupt:
    """Run `inner` once at the k-th library line executed by the traced call."""

    def __init__(self, k, inner, lib):
        self.k, self.inner, self.count, self.lib = k, inner, 0, lib

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.lib):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.k:
                sys.settrace(None)
                self.inner()
                sys.settrace(self.trace)
        return self.local


def reentrant(c):
    """Another call preempts the call at every source line."""
    e = BYNAME[c.choose("function", [n for n in NAMES if BYNAME[n].raises is None])]
    n = len(e.args)
    others = [(e.name, 1, None)]
    if e.batch:
        others.append((e.name, 2, (3,)))
    if c.pick(False, True):
        others += [(m, 1, None) for m in NAMES if BYNAME[m].group == e.group and m != e.name]
    other = c.choose("preempting", others)
    spec = (e.name, [0] * n, None)
    lib = libdir()
    limit = c.pick(60, 600)

    def work():
        probe = Interrupt(-1, None, lib)
        sys.settrace(probe.trace)
        try:
            run(spec)
        finally:
            sys.settrace(None)
        total = probe.count
        # long computations repeat their lines in loops: keep the first and last ones
        points = list(range(1, total + 1))
        if total > limit:
            points = points[: limit // 2] + points[-(limit // 2):]
        out = []
        for k in points:
            it = Interrupt(k, lambda: run(other), lib)
            sys.settrace(it.trace)
            try:
                out.append((k, run(spec)))
            finally:
                sys.settrace(None)
        return ("points", (total, out))
    got = in_child(work)
    if got[0] != "points":
        c.fail("interleaving broke down", error=got[1])
        return
    for k, res in got[1][1]:
        if not same(c, res, spec, "value of a preempted call"):
            return


class Boom(Exception):
    pass


def faults(c):
    """A user callback raises at its k-th call: the error arrives at the caller, nothing else happens."""
    import gftool as gt
    from gftool import beb, cpa
    case = c.choose("function", ["cpa.solve_root", "cpa.solve_fxdocc_root", "cpa.gf_cmpt_z", "beb.solve_root", "beb.gf_loc_z", "chemical_potential", "cpa.start"])
    k = c.choose("k", list(range(1, c.pick(13, 41))))

    def work():
        count = [0]

        def counting(fct):
            def wrapped(*args, **kwds):
                count[0] += 1
                if count[0] == k:
                    raise Boom(k)
                return fct(*args, **kwds)
            return wrapped
        hilb = counting(cat.bethe1)
        z, e, x = np.array([0.3 + 0.2j, -0.5 + 0.4j]), cat.ev2(0), cat.conc(0)
        start = np.array([0.1 - 0.2j, 0.05 - 0.1j])
        args = [z, e, x, start]
        keep = [a.copy() for a in args]
        calls = {
            "cpa.solve_root": lambda: cpa.solve_root(z, e, x, hilb),
            "cpa.start": lambda: cpa.solve_root(z, e, x, hilb, self_cpa_z0=start),
            "cpa.solve_fxdocc_root": lambda: cpa.solve_fxdocc_root(cat.iws(8), e, x, hilb, 10.0, occ=0.4),
            "cpa.gf_cmpt_z": lambda: cpa.gf_cmpt_z(z, start, e, hilb),
            "beb.solve_root": lambda: beb.solve_root(z, e, x, cat.HOP, hilb),
            "beb.gf_loc_z": lambda: beb.gf_loc_z(z, np.zeros((2, 2, 2), complex), cat.HOP, hilb),
            "chemical_potential": lambda: gt.chemical_potential(counting(lambda mu: gt.fermi_fct(-mu, 5.0) - 0.3)),
        }
        try:
            calls[case]()
            outcome = "finished"
        except Boom:
            outcome = "boom"
        except Exception as exc:
            outcome = "other: " + repr(exc)
        changed = [i for i, (a, b) in enumerate(zip(args, keep)) if not np.array_equal(a, b)]
        after = run((case if case in BYNAME else ("density.chemical_potential" if case == "chemical_potential" else "cpa.solve_root"), 0, None))
        return ("facts", (outcome, count[0], changed, after))
    got = in_child(work)
    if got[0] != "facts":
        c.fail("fault injection broke down", error=got[1])
        return
    outcome, calls, changed, after = got[1]
    c.equal(outcome, "boom" if calls >= k else "finished", "error of the callback reaches the caller")
    c.equal(changed, [], "arguments modified by the failing call")
    same(c, after, (case if case in BYNAME else ("density.chemical_potential" if case == "chemical_potential" else "cpa.solve_root"), 0, None), "value after a failed call")


@lru_cache(None)
def _objects():
    """Objects with methods: factories and the calls that must not depend on each other."""
    import gftool.hermpade as hp
    import gftool.pade as gp
    from gftool import beb, matrix, polepade
    from gftool.basis import RatPol, ZeroPole, pole
    iw = gt.matsubara_frequencies(range(14), beta=8.0)
    fz = 0.4 / (iw - 0.3) + 0.6 / (iw + 0.8) + 0.02 * np.cos(np.arange(14))
    fz2 = np.stack([fz, 1 / (iw - 0.5) + 0.01j * np.sin(np.arange(14))])
    z1, z2 = np.array([0.3 + 0.2j, -0.5 + 0.4j, 0.1 + 1j]), np.array([[1.1 + 0.3j], [-0.2 + 0.1j]])
    pol = np.polynomial.Polynomial
    her = np.array([[1.0, 0.3 + 0.1j, 0.2], [0.3 - 0.1j, -0.5, 0.4], [0.2, 0.4, 0.7]])
    gen = np.array([[1.0, 0.3, 0.2], [0.1, -0.5, 0.4], [0.25, 0.3, 0.7]])
    hop = np.array([[1.0, 0.5], [0.5, 0.25]])

    def averager(stack, which):
        coeff = gp.coefficients(iw, fz2.copy() if stack else fz.copy())
        kind = gp.KindSelf(2, 12) if which == "self" else gp.KindGf(3, 13)
        valid = np.ones((len(kind), 2) if stack else (len(kind),), dtype=bool)
        valid[1] = False
        return lambda: gp.Averager(iw.copy(), coeff.copy(), valid_pades=valid.copy(), kind=kind)

    def modav(vec):
        coeff = gp.coefficients(iw, fz.copy())
        kind = gp.KindSelf(2, 12)
        return lambda: gp.Mod_Averager(iw.copy(), coeff.copy(), (lambda z, f, a=0.0: 1 / f - a * z), valid_pades=np.ones(len(kind), bool), kind=kind, vectorized=vec)
    pades = [np.array([-0.1j - 1, 0.2 - 0.3j]), np.array([0.2j, 0.1 - 0.1j]), np.array([1.0 - 1j, 5 - 2j]), np.array([-0.2j, 0.3 - 0.2j])]
    aver = {"eval": lambda o: o(z1), "eval 2d": lambda o: o(z2), "scalar": lambda o: o(z1[0])}
    filt = {"iterator": lambda o: o(iter([x.copy() for x in pades])), "other": lambda o: o(iter([1.5 * x.copy() for x in pades[:3]])), "list": lambda o: o([x.copy() for x in pades])}
    kindm = {"slice": lambda o: np.array([o.slice.start, o.slice.stop, o.slice.step]), "islice": lambda o: np.array(list(o.islice(range(40)))),
             "item": lambda o: np.array([o[0], o[1], o[-1]]), "len": lambda o: np.array(len(o)), "iterate": lambda o: np.array(list(o))}
    dec = {"full": lambda o: o.reconstruct(), "diag": lambda o: o.reconstruct(kind="diag"), "other": lambda o: o.reconstruct(np.array([0.2, 0.5, -0.3j])),
           "power": lambda o: o.reconstruct(o.eig**2, kind="full"), "len": lambda o: np.array(len(o))}
    udec = {**dec, "s": lambda o: np.array(o.s)}
    sdec = {"full": lambda o: o.reconstruct(), "diag": lambda o: o.reconstruct(kind="diag"), "truncate": lambda o: o.truncate().reconstruct(), "is_truncated": lambda o: np.array(o.is_trunacted),
            "partition": lambda o: [np.array(x) for x in o.partition()], "sqrts": lambda o: [np.array(x) for x in o.partition(return_sqrts=True)]}
    po, we = np.array([-0.3, 0.2, 0.9]), np.array([0.2, 0.5, 0.3])
    polefct = {"eval": lambda o: o.eval_z(z1), "eval 2d": lambda o: o.eval_z(z2), "moments": lambda o: o.moments([1, 2, 3]), "moments 1": lambda o: o.moments(1)}
    polegf = {**polefct, "tau": lambda o: o.eval_tau(np.linspace(0, 4, 5), beta=4.0), "tau 2": lambda o: o.eval_tau(np.linspace(0, 7, 5), beta=7.0), "ret_t": lambda o: o.eval_ret_t(np.linspace(0, 4, 5)), "occ": lambda o: o.occ(beta=3.0)}
    herm = {"eval": lambda o: o.eval(np.array([0.1, 0.3j])), "branches": lambda o: o.eval_branches(np.array([0.1, 0.3j])), "eval 2d": lambda o: o.eval(np.array([[0.2], [-0.1j]])),
            "pade": lambda o: o.pade.eval(np.array([0.1, 0.3j]))}
    an = np.cos(1 + np.arange(9)**2)
    padem = {"poles": lambda o: o.eval_polefct(z1), "zeropole": lambda o: o.eval_zeropole(z1), "moments": lambda o: o.moments(np.arange(1, 4)), "poles 2d": lambda o: o.eval_polefct(z2)}
    zp = {"eval": lambda o: o.eval(z1), "reciprocal": lambda o: o.reciprocal(z1), "ratpol": lambda o: o.to_ratpol().eval(z2), "eval 2d": lambda o: o.eval(z2)}
    return {
        "Averager": (averager(False, "self"), aver), "Averager stack": (averager(True, "gf"), aver),
        "Mod_Averager": (modav(True), {**aver, "args": lambda o: o(z1, 0.5)}), "Mod_Averager loop": (modav(False), {**aver, "args": lambda o: o(z1, a=0.5)}),
        "FilterNegImag": (lambda: gp.FilterNegImag(), filt), "FilterNegImagNum": (lambda: gp.FilterNegImagNum(abs_num=2), filt), "FilterNegImagNum rel": (lambda: gp.FilterNegImagNum(rel_num=0.5), filt),
        "FilterHighVariance": (lambda: gp.FilterHighVariance(abs_num=2), filt), "FilterHighVariance rel": (lambda: gp.FilterHighVariance(rel_num=0.5), filt),
        "KindGf": (lambda: gp.KindGf(2, 11), kindm), "KindSelf": (lambda: gp.KindSelf(3, 11), kindm),
        "Decomposition": (lambda: matrix.decompose_mat(gen.copy()), dec), "Decomposition sym": (lambda: matrix.decompose_sym((gen + gen.T).astype(complex)), dec),
        "UDecomposition": (lambda: matrix.decompose_her(her.copy()), udec), "SpecDec": (lambda: beb.SpecDec(*np.linalg.svd(hop)), sdec),
        "PoleFct": (lambda: pole.PoleFct(po.copy(), we.copy()), polefct), "PoleGf": (lambda: pole.PoleGf(po.copy(), we.copy()), polegf),
        "ZeroPole": (lambda: ZeroPole(po[:2].copy(), po + 0.1, amplitude=1.5), zp), "RatPol": (lambda: RatPol(pol([1.0, 2.0]), pol([1.0, 0.3, 0.2])), {"eval": lambda o: o.eval(z1), "eval 2d": lambda o: o.eval(z2)}),
        "Hermite2": (lambda: hp.Hermite2.from_taylor(an.copy(), 2, 2, 2), herm), "Hermite2 lstsq": (lambda: hp.Hermite2.from_taylor_lstsq(an.copy(), 2, 2, 2), herm),
        "PadeApprox": (lambda: polepade.continuation(iw.copy(), 0.4 / (iw - 0.3) + 0.6 / (iw + 0.8), degree=-1), padem),
    }


def objects(c):
    """Histories of one object: every sequence of its methods gives the values a fresh object gives."""
    table = _objects()
    name = c.choose("object", sorted(table))
    methods = sorted(table[name][1])
    first = c.choose("first", methods)
    second = c.choose("second", methods)
    third = c.choose("third", methods)
    shared = c.choose("other object alive", [False, True]) if c.thorough else True

    def spoil(res):
        for x in leaves(res):
            if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fcb":
                x[...] = 7 if x.dtype.kind != "b" else ~x

    def work():
        make, meths = table[name]
        want = [[np.array(x) for x in leaves(meths[m](make()))] for m in (first, second, third)]
        other = make() if shared else None
        obj = make()
        got = []
        for m in (first, second, third):
            if other is not None:
                spoil(meths[m](other))
            res = meths[m](obj)
            got.append([np.array(x) for x in leaves(res)])
            spoil(res)
        return ("facts", (got, want))
    out = in_child(work)
    if out[0] != "facts":
        c.fail("history broke down", error=out[1])
        return
    for k, (g, w) in enumerate(zip(*out[1])):
        c.equal(len(g), len(w), "number of results")
        for x, y in zip(g, w):
            c.close(x, y, f"result of call {k} of the history", rtol=1e-9, atol=1e-12)


arguments.shard = ambient.shard = pairs.shard = objects.shard = neighbours.shard = reentrant.shard = faults.shard = 1
HARNESSES = {"arguments": arguments, "dtypes": dtypes, "ambient": ambient, "objects": objects, "pairs": pairs, "neighbours": neighbours, "longest": longest, "reentrant": reentrant, "faults": faults}
