"""Restriction of the general properties to one part of the library.

C30 (purity), C31 (stacks, layouts, sizes, types) and C33 (units) run over catalogues of all public functions.  What they demand is part of
the meaning of every single property too: a value is only right if it is right in a stack, in another memory layout, in other units, when the
call is repeated.  `extend` adds these harnesses, restricted to the functions a property is about, to the check of this property.
"""
import re

import numpy as np

from mc.checks import c31_batching as c31
from mc.checks import c33_units as c33


class Only:
    """Context whose decision `function` is restricted to names matching a pattern."""

    def __init__(self, c, pattern):
        self._c, self._pattern = c, re.compile(pattern)

    def choose(self, name, domain):
        if name == "function":
            keep = [k for k in domain if self._pattern.search(k)]
            domain = {k: domain[k] for k in keep} if isinstance(domain, dict) else keep
        return self._c.choose(name, domain)

    def __getattr__(self, name):
        return getattr(self._c, name)


def restricted(harness, pattern):
    def run(c):
        return harness(Only(c, pattern))
    run.__doc__ = harness.__doc__
    run.shard = getattr(harness, "shard", 1)
    return run


def repeat(c):
    """Calls do not touch their arguments, and repeated calls agree even if the first result was overwritten."""
    e = c31.ALL[c.choose("function", sorted(c31.ALL))]
    variant = c.choose("variant", c.pick([0, 1], [0, 1, 2, 3]))
    between = c.choose("between", ["nothing", "overwritten result", "other call"])
    vals = [a.make(variant) for a in e.args]
    arrays = [v for v in vals if isinstance(v, np.ndarray)]
    keep = [v.copy() for v in arrays]
    first = c31.call(e, vals)
    c.check(all(np.array_equal(v, k, equal_nan=True) for v, k in zip(arrays, keep)), "arguments are left alone")
    copies = [np.array(r) for r in first]
    if between == "overwritten result":
        for r in first:
            if r.flags.writeable and r.size:
                r[...] = 7
        c.check(all(np.array_equal(v, k, equal_nan=True) for v, k in zip(arrays, keep)), "results do not share memory with the arguments")
    elif between == "other call":
        c31.call(e, [a.make(variant + 1) for a in e.args])
    again = c31.call(e, [a.make(variant) for a in e.args])
    if not c.equal(len(again), len(copies), "number of results"):
        return
    for g, w in zip(again, copies):
        scale = np.max(np.abs(w)) if w.size else 0
        c.close(g, w, "repeated call", rtol=1e-9, atol=1e-9 * scale + 1e-300)


GENERAL = dict(stack_shapes=c31.shapes, stack_outer=c31.outer, stack_layouts=c31.layouts, arg_layouts=c31.layouts_single, stack_large=c31.large,
               arg_types=c31.dtypes, arg_integers=c31.integers, repeat=repeat)


def extend(harnesses, functions=None, units=None, origin=None, meshes=None):
    """Add the general harnesses for the given name patterns."""
    if functions is not None:
        names = [n for n in c31.ALL if re.search(functions, n)]
        assert names, functions
        batch = any(n in c31.ENTRIES for n in names)
        for key, harness in GENERAL.items():
            if key.startswith("stack") and not batch:
                continue
            if key == "stack_outer" and not any(n in c31.ENTRIES and c31.ENTRIES[n].mixed is True and len(c31.stackable(c31.ENTRIES[n])) > 1 for n in names):
                continue
            if key in ("arg_types", "arg_integers") and all(any(u in n for u in c31.UNSTABLE) for n in names):
                continue
            harnesses[key] = restricted(harness, functions)
    if units is not None:
        assert any(re.search(units, n) for n in c33.CASES), units
        harnesses["other_units"] = restricted(c33.units, units)
    if origin is not None:
        assert any(re.search(origin, n) for n in c33.ORIGIN), origin
        harnesses["other_origin"] = restricted(c33.origin, origin)
    if meshes is not None:
        harnesses["meshes"] = restricted(c31.meshes, meshes)
