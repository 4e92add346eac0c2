"""Bounded-exhaustive explorer for a sequential library (stateless model checking).

A *harness* is a small closed program ``def h(c): ...`` driving the real code of
/repo through its public interface.  Every nondeterministic decision of the
harness (which lattice, which shape, which environment answer, which operation
comes next, ...) is taken by ``c.choose(name, domain)``.  The explorer executes
the harness once for *every* sequence of decisions (depth-first, stateless
re-execution, as in CHESS/VeriSoft), and on every execution the harness compares
the real code with an independent reference model through ``c.close`` and
``c.check``.  Nothing is sampled: VERIF_SEED has no influence.

states       nodes of the decision tree (distinct decision prefixes reached)
transitions  edges of the decision tree that were executed
traces       complete executions = model traces replayed on the implementation
"""
from __future__ import annotations

import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import pathlib
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = pathlib.Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
REPLAY = EVIDENCE / "replay"
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = VERIF / "KNOWN_FINDINGS.txt"


class Prune(Exception):
    """Execution outside the property's precondition: not counted as a trace."""


class _Probe(Exception):
    """Internal: stop when the shard depth is reached."""


class Hang(Exception):
    """The code under test did not terminate within the execution budget."""


class Violation(Exception):
    pass


class HarnessError(Exception):
    """Our own reference model failed: an error of the check, not of the code."""


def _label(val):
    if isinstance(val, str):
        return val
    name = getattr(val, "__name__", None)
    if name:
        return name
    rep = repr(val)
    return rep if len(rep) < 80 else rep[:60] + "..." + hashlib.md5(rep.encode()).hexdigest()[:8]


class Ctx:
    """Decision and oracle interface handed to a harness."""

    def __init__(self, tier, prefix=(), stop_depth=None):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.prefix = prefix
        self.stop_depth = stop_depth
        self.choices = []      # index taken
        self.sizes = []        # number of alternatives
        self.trace = []        # (name, label)
        self.fails = []
        self.ncmp = 0
        self.outcomes = set()
        self.margins = {}

    # -- decisions ----------------------------------------------------
    def choose(self, name, domain):
        if isinstance(domain, dict):
            labels, values = list(domain), list(domain.values())
        else:
            values = list(domain)
            labels = None
        depth = len(self.choices)
        if self.stop_depth is not None and depth >= self.stop_depth:
            raise _Probe
        if not values:
            raise Prune
        idx = self.prefix[depth] if depth < len(self.prefix) else 0
        if idx >= len(values):
            raise HarnessError(f"divergent replay: choice {name} has {len(values)} alternatives, wanted {idx}")
        self.choices.append(idx)
        self.sizes.append(len(values))
        self.trace.append((name, labels[idx] if labels is not None else _label(values[idx])))
        return values[idx]

    def pick(self, quick, thorough):
        """Bound selection by tier (not a decision)."""
        return thorough if self.thorough else quick

    def require(self, cond):
        if not cond:
            raise Prune

    # -- oracle -------------------------------------------------------
    def fail(self, what, **detail):
        self.fails.append((what, {k: _short(v) for k, v in detail.items()}))

    def check(self, ok, what, **detail):
        self.ncmp += 1
        try:
            good = bool(ok)
        except ValueError:
            good = False
        if not good:
            self.fail(what, **detail)
        return good

    def close(self, got, want, what, rtol=1e-10, atol=1e-12, shape=True, **detail):
        import numpy as np
        got_, want_ = np.asarray(got), np.asarray(want)
        if shape and got_.shape != want_.shape:
            self.ncmp += 1
            self.fail(what + ": shape", got=got_.shape, want=want_.shape, **detail)
            return False
        if got_.dtype == object or want_.dtype == object:
            got_ = got_.astype(complex)
            want_ = want_.astype(complex)
        if got_.dtype == bool:
            got_ = got_.astype(int)
        self.ncmp += max(got_.size, 1)
        tol = atol + rtol * np.abs(want_)
        with np.errstate(all="ignore"):
            err = np.abs(got_ - want_)
            same = (got_ == want_) | (np.isnan(got_) & np.isnan(want_))
            ratio = np.where(same, 0, err / tol)
            bad = ~(same | (err <= tol))
        if ratio.size:
            worst = float(np.nanmax(np.where(np.isfinite(ratio), ratio, -1)))
            key = what
            if worst > self.margins.get(key, (-1.0,))[0]:
                self.margins[key] = (worst,)
        self.outcomes.add(hashlib.md5(np.ascontiguousarray(got_.astype(np.complex64)).tobytes()
                                      + repr(got_.shape).encode()).digest()[:8])
        if bad.any():
            bad = np.broadcast_to(bad, np.broadcast_shapes(got_.shape, want_.shape))
            idx = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
            g = np.broadcast_to(got_, bad.shape)[idx]
            w = np.broadcast_to(want_, bad.shape)[idx]
            self.fail(what, index=idx, got=g, want=w, n_bad=int(bad.sum()), **detail)
            return False
        return True

    def equal(self, got, want, what, **detail):
        """Exact equality including shape; for integers, flags, strings."""
        import numpy as np
        self.ncmp += 1
        try:
            ok = (np.shape(got) == np.shape(want)) and bool(np.all(np.asarray(got) == np.asarray(want)))
        except Exception:  # noqa: BLE001
            ok = False
        self.outcomes.add(hashlib.md5(repr(got).encode()).digest()[:8])
        if not ok:
            self.fail(what, got=got, want=want, **detail)
        return ok

    def raises(self, exc, fct, what, **detail):
        self.ncmp += 1
        try:
            res = fct()
        except exc as err:
            self.outcomes.add(hashlib.md5(type(err).__name__.encode()).digest()[:8])
            return err
        except (Prune, _Probe, Hang, HarnessError):
            raise
        except Exception as err:  # noqa: BLE001
            self.fail(what, raised=f"{type(err).__name__}: {err}", expected=str(exc), **detail)
            return None
        self.fail(what, returned=res, expected_exception=str(exc), **detail)
        return None


def _short(val):
    rep = repr(val)
    return rep if len(rep) <= 300 else rep[:300] + "..."


# ---------------------------------------------------------------- repo import
def import_repo():
    """Import gftool from the working tree of /repo (never from elsewhere)."""
    for key, val in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
                         MKL_NUM_THREADS="1", MPLBACKEND="agg").items():
        os.environ.setdefault(key, val)
    sys.dont_write_bytecode = True
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    if not (REPO / "gftool" / "_version.py").exists():
        import types
        stub = types.ModuleType("gftool._version")
        stub.__version__ = stub.version = "0+verif"
        stub.__version_tuple__ = stub.version_tuple = (0,)
        sys.modules["gftool._version"] = stub
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import gftool
    got = pathlib.Path(gftool.__file__).resolve()
    if REPO.resolve() not in got.parents:
        raise HarnessError(f"gftool imported from {got}, not from {REPO}")
    import logging
    logging.disable(logging.CRITICAL)
    return gftool


def _alarm(_sig, _frm):
    raise Hang


# ---------------------------------------------------------------- exploration
def run_one(harness, tier, prefix, budget=None):
    """Execute one decision sequence; return the context and the failures."""
    import numpy as np
    ctx = Ctx(tier, prefix)
    budget = budget or getattr(harness, "budget", 150)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    status = "ok"
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            harness(ctx)
    except Prune:
        status = "pruned"
    except Hang:
        ctx.fail(f"no termination within {budget} s")
    except HarnessError:
        raise
    except Exception as err:  # noqa: BLE001
        tb = traceback.extract_tb(err.__traceback__)
        where = [f"{pathlib.Path(f.filename).name}:{f.lineno}" for f in tb][-4:]
        ctx.fail("unexpected exception", error=f"{type(err).__name__}: {err}", where=where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx, status


def prefixes(harness, tier, depth):
    """All decision prefixes of length `depth` (shorter if the harness ends earlier)."""
    out, stack = [], [()]
    import numpy as np
    while stack:
        pre = stack.pop()
        if len(pre) == depth:
            out.append(pre)
            continue
        ctx = Ctx(tier, pre + (0,), stop_depth=len(pre) + 1)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                harness(ctx)
        except _Probe:
            pass
        except Prune:
            pass
        except HarnessError:
            raise
        except Exception:  # noqa: BLE001  reported by the shard itself
            pass
        if len(ctx.sizes) <= len(pre):
            out.append(pre)
            continue
        stack.extend(pre + (i,) for i in reversed(range(ctx.sizes[len(pre)])))
    return out


MAX_FAIL = 12


def explore_shard(mod, hname, tier, prefix):
    """DFS below `prefix`; every decision sequence is executed."""
    check = load(mod)
    harness = check.HARNESSES[hname]
    res = dict(harness=hname, traces=0, edges=0, pruned=0, ncmp=0, fails=[], outcomes=set(),
               samples=[], margins={}, capped=False, maxdepth=0)
    cur, common = tuple(prefix), len(prefix)
    first = True
    while True:
        ctx, status = run_one(harness, tier, cur)
        res["edges"] += len(ctx.choices) - (common if not first else max(0, len(prefix) - 1))
        first = False
        res["maxdepth"] = max(res["maxdepth"], len(ctx.choices))
        if status == "pruned":
            res["pruned"] += 1
        else:
            res["traces"] += 1
        res["ncmp"] += ctx.ncmp
        if len(res["outcomes"]) < 200000:
            res["outcomes"] |= ctx.outcomes
        for key, val in ctx.margins.items():
            if val[0] > res["margins"].get(key, (-1,))[0]:
                res["margins"][key] = (val[0], [f"{a}={b}" for a, b in ctx.trace])
        if len(res["samples"]) < 1 and status == "ok":
            res["samples"].append([f"{a}={b}" for a, b in ctx.trace])
        if ctx.fails:
            res["fails"].append(dict(harness=hname, choices=list(ctx.choices), trace=ctx.trace,
                                     fails=ctx.fails[:6]))
            if len(res["fails"]) >= MAX_FAIL:
                res["capped"] = True
                break
        # backtrack
        pos = len(ctx.choices) - 1
        while pos >= len(prefix) and ctx.choices[pos] + 1 >= ctx.sizes[pos]:
            pos -= 1
        if pos < len(prefix):
            break
        cur = tuple(ctx.choices[:pos]) + (ctx.choices[pos] + 1,)
        common = pos
    return res


_LOADED = {}


def load(mod):
    if mod not in _LOADED:
        import importlib
        import_repo()
        _LOADED[mod] = importlib.import_module(mod)
    return _LOADED[mod]


def known_patterns(prop):
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            match = re.match(r"known: property=(\S+) harness=(\S+) trace=/(.*)/ what=(.*)$", line)
            if match and match.group(1) == prop:
                out.append(dict(harness=match.group(2), regex=re.compile(match.group(3)), what=match.group(4)))
    return out


def write_replay(prop, mod, tier, fail, k):
    REPLAY.mkdir(parents=True, exist_ok=True)
    path = REPLAY / f"{prop}-{k}.json"
    path.write_text(json.dumps(dict(property=prop, module=mod, tier=tier, **fail), indent=1, default=str) + "\n")
    return path


def replay(path):
    rec = json.loads(pathlib.Path(path).read_text())
    check = load(rec["module"])
    ctx, _ = run_one(check.HARNESSES[rec["harness"]], rec["tier"], tuple(rec["choices"]))
    print("trace:", "; ".join(f"{a}={b}" for a, b in ctx.trace))
    for what, detail in ctx.fails:
        print("FAIL", what, detail)
    if ctx.fails:
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    print("no violation on this tree")
    return 0


def run_check(prop, mod, tier, jobs=None, only=None, deadline=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    deadline = deadline or (800 if tier == "quick" else 6 * 3600)
    jobs = jobs or min(8, os.cpu_count() or 1)
    viols, per, samples, margins = [], {}, [], {}
    outcomes = set()
    capped = False
    try:
        check = load(mod)
    except HarnessError:
        raise
    except BaseException as err:  # noqa: BLE001  the tree under test does not even import
        if isinstance(err, (KeyboardInterrupt,)):
            raise
        viols.append(dict(harness="import", choices=[], trace=[("import", mod)],
                          fails=[("gftool does not import", {"error": repr(err)})]))
        check = None
    tasks = []
    if check is not None:
        for hname, harness in check.HARNESSES.items():
            if only and hname not in only:
                continue
            pres = prefixes(harness, tier, getattr(harness, "shard", 1))
            per[hname] = dict(traces=0, states=1, transitions=0, pruned=0, comparisons=0, shards=len(pres), maxdepth=0)
            tasks += [(mod, hname, tier, pre) for pre in pres]
        # long shards first is unknown; keep declared order but interleave harnesses
        ctxm = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(max_workers=jobs, mp_context=ctxm)
        futs = {ex.submit(explore_shard, *t): t for t in tasks}
        try:
            for fut in cf.as_completed(futs, timeout=deadline):
                hname = futs[fut][1]
                try:
                    res = fut.result()
                except cf.process.BrokenProcessPool:
                    viols.append(dict(harness=hname, choices=list(futs[fut][3]), trace=[("process", "died")],
                                      fails=[("interpreter crashed while executing the code", {})]))
                    capped = True
                    break
                acc = per[hname]
                acc["traces"] += res["traces"]
                acc["transitions"] += res["edges"]
                acc["states"] += res["edges"]
                acc["pruned"] += res["pruned"]
                acc["comparisons"] += res["ncmp"]
                acc["maxdepth"] = max(acc["maxdepth"], res["maxdepth"])
                outcomes |= res["outcomes"]
                capped |= res["capped"]
                viols += res["fails"]
                if os.environ.get("VERIF_FAILFAST") and any(
                        not any(p["harness"] == v["harness"] and p["regex"].search("; ".join(f"{a}={b}" for a, b in v["trace"]))
                                for p in known_patterns(prop)) for v in res["fails"]):
                    capped = True
                    break
                if len([s for s in samples if s["harness"] == hname]) < 1:
                    samples += [dict(harness=hname, trace=s) for s in res["samples"]]
                for key, val in res["margins"].items():
                    key = f"{hname}/{key}"
                    if val[0] > margins.get(key, (-1,))[0]:
                        margins[key] = val
        except cf.TimeoutError:
            viols.append(dict(harness="*", choices=[], trace=[("deadline", str(deadline))],
                              fails=[("exploration of the code did not terminate", {})]))
            capped = True
        for proc in list(getattr(ex, "_processes", {}).values()):
            if capped:
                proc.terminate()
        ex.shutdown(wait=not capped, cancel_futures=True)
    # known findings
    pats = known_patterns(prop)
    fresh, known_hit = [], []
    for v in viols:
        flat = "; ".join(f"{a}={b}" for a, b in v["trace"])
        hit = next((p for p in pats if p["harness"] == v["harness"] and p["regex"].search(flat)), None)
        (known_hit if hit else fresh).append((hit, v) if hit else v)
    for what in sorted({h["what"] for h, _ in known_hit}):
        print(f"KNOWN-FINDING: property={prop} {what}")
    # shortest counterexample first
    fresh.sort(key=lambda v: (len(v["choices"]), sum(v["choices"])))
    replayed = []
    for k, v in enumerate(fresh[:5]):
        path = write_replay(prop, mod, tier, v, k)
        for what, detail in v["fails"][:3]:
            print(f"  {v['harness']}: {what} {detail}")
            print("   at " + "; ".join(f"{a}={b}" for a, b in v["trace"]))
        replayed.append(str(path))
    wall = time.time() - t0
    bounds = (getattr(check, "BOUNDS", "") or "") if check else ""
    if check and hasattr(check, "extend"):
        bounds += "; the functions of this property in stacks, layouts, float types, repeated and in other units over the alphabets of C30, C31 and C33"
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(p["states"] for p in per.values()),
            transitions=sum(p["transitions"] for p in per.values()),
            traces_validated_against_impl=sum(p["traces"] for p in per.values()),
            comparisons=sum(p["comparisons"] for p in per.values()),
            distinct_outcomes=len(outcomes),
            pruned=sum(p["pruned"] for p in per.values()),
            per_harness=per,
            samples=samples[:12] or [dict(note="nothing executed")],
            exhaustive=not capped,
            rule="every decision sequence of every harness executed on the real code; see bounds",
            bounds=bounds,
            largest_error_over_tolerance={k: dict(ratio=float(f"{v[0]:.3g}")) for k, v in
                                          sorted(margins.items(), key=lambda kv: -kv[1][0])[:8]},
        ),
        assumptions=list(getattr(check, "ASSUMPTIONS", [])) if check else [],
        wall_s=round(wall, 2), violations=len(fresh),
    )
    EVIDENCE.mkdir(exist_ok=True)
    if only is None:
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    cov = ev["coverage"]
    print(f"{prop} tier={tier} states={cov['states']} transitions={cov['transitions']} "
          f"traces={cov['traces_validated_against_impl']} comparisons={cov['comparisons']} "
          f"distinct_outcomes={cov['distinct_outcomes']} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
    if os.environ.get("VERIF_MARGINS"):
        for key, val in sorted(margins.items(), key=lambda kv: -kv[1][0])[:int(os.environ["VERIF_MARGINS"])]:
            print(f"   margin {val[0]:9.3g}  {key}   {val[1] if len(val) > 1 else ''}")
        for h, p in per.items():
            print("  ", h, p)
    if fresh:
        print(f"VIOLATION property={prop} replay={replayed[0]}")
        return 1
    return 0
