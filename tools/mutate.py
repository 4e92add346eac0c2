#!/usr/bin/env python3
"""Mutation campaign: which small changes of a library module do the checks miss?

usage: mutate.py MODULE.py[,MODULE.py] CHECKS(comma) [--every N] [--start K] [--workers W]
Every mutant lives in a scratch copy of /repo; survivors are printed as line diffs.
"""
import argparse
import ast
import copy
import difflib
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = pathlib.Path(__file__).resolve().parent.parent
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult,
        ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.And: ast.Or, ast.Or: ast.And, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.FloorDiv: ast.Mult}
SKIPFUN = {"plot", "plot_roots", "__repr__"}


def sites(tree):
    """All (path, mutation) pairs; a mutation is a function node -> node."""
    out = []

    def visit(node, path):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.name in SKIPFUN:
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and "LOGGER" in ast.unparse(node.value.func):
            return
        if isinstance(node, ast.Assign) and isinstance(node.value, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.value, "value", ""), str):
            return

        def mut(desc, fct):
            out.append((list(path), desc, fct))
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
            mut("op", lambda n: ast.BinOp(n.left, SWAP[type(n.op)](), n.right))
        if isinstance(node, ast.AugAssign) and type(node.op) in SWAP:
            mut("augop", lambda n: ast.AugAssign(n.target, SWAP[type(n.op)](), n.value))
            mut("delete", lambda n: ast.Pass())
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
            mut("cmp", lambda n: ast.Compare(n.left, [SWAP[type(n.ops[0])]()], n.comparators))
        if isinstance(node, ast.BoolOp):
            mut("bool", lambda n: ast.BoolOp(SWAP[type(n.op)](), n.values))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not, ast.Invert)):
            mut("unary", lambda n: n.operand)
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            mut("flip", lambda n: ast.Constant(not n.value))
        elif isinstance(node, ast.Constant) and isinstance(node.value, int):
            mut("int+1", lambda n: ast.Constant(n.value + 1))
            if node.value > 0:
                mut("int-1", lambda n: ast.Constant(n.value - 1))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (float, complex)):
            mut("float", lambda n: ast.Constant(n.value * 1.001 if n.value else 1e-3))
        if isinstance(node, ast.Attribute) and node.attr in ("real", "imag") and isinstance(node.ctx, ast.Load):
            mut("part", lambda n: ast.Attribute(n.value, "imag" if n.attr == "real" else "real", n.ctx))
            mut("dropattr", lambda n: n.value)
        if isinstance(node, ast.Call):
            fn = ast.unparse(node.func)
            if fn.endswith(".conj") and not node.args:
                mut("conj", lambda n: n.func.value)
            if fn in ("abs", "np.conj", "np.sqrt", "np.asarray", "np.abs", "np.real", "np.atleast_1d", "np.ascontiguousarray", "list") and len(node.args) == 1:
                mut("unwrap", lambda n: n.args[0])
            if fn.endswith("where") and len(node.args) == 3:
                mut("where", lambda n: ast.Call(n.func, [n.args[0], n.args[2], n.args[1]], n.keywords))
            if fn in ("min", "max", "np.min", "np.max"):
                mut("minmax", lambda n: ast.Call(ast.parse(fn.replace("min", "MAX").replace("max", "min").replace("MAX", "max"), mode="eval").body, n.args, n.keywords))
            for i, k in enumerate(node.keywords):
                if k.arg and k.arg not in ("signature", "otypes", "dtype", "stacklevel", "category"):
                    mut("dropkw", lambda n, i=i: ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:]))
        if isinstance(node, (ast.If, ast.IfExp)) and "isinstance" not in ast.unparse(node.test):
            for val in (True, False):
                if isinstance(node, ast.If):
                    mut("if", lambda n, val=val: ast.If(ast.Constant(val), n.body, n.orelse))
                else:
                    mut("ifexp", lambda n, val=val: n.body if val else n.orelse)
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            mut("delete", lambda n: ast.Pass())
        for name, val in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "ctx"):
                continue
            if isinstance(val, ast.AST):
                visit(val, path + [(name, None)])
            elif isinstance(val, list):
                for i, item in enumerate(val):
                    if isinstance(item, ast.AST):
                        visit(item, path + [(name, i)])
    visit(tree, [])
    return out


CORRUPT = {
    "conj": "numpy.conj(p)",
    "clip": "numpy.where(abs(p) > 50, 50 * p / abs(p), p)",
    "flush": "numpy.where(abs(p) < 1e-6, 0 * p, p)",
    "single": "p * (1 + numpy.cos(1e3 * abs(p)) * 1e-6)",
    "abs": "numpy.where(numpy.real(p) < 0, -p, p)",
    "size": "p if p.size < 40 else p * numpy.where(numpy.arange(p.shape[-1]) == p.shape[-1] - 1, 1.001, 1)",
    "last": "p if p.ndim < 2 else numpy.flip(p, axis=0)",
}
HELPER = """
def _mc_c(p):
    import numpy
    if p is None or callable(p) or isinstance(p, (str, bool, tuple, int)) or not isinstance(p, (float, complex, numpy.ndarray, numpy.number)):
        return p
    if isinstance(p, numpy.ndarray) and p.dtype.kind not in "fc":
        return p
    p = numpy.asarray(p)
    try:
        with numpy.errstate(all="ignore"):
            q = numpy.where(abs(p) == 0, p, EXPR)
    except Exception:
        return p[()]
    return q.astype(p.dtype, copy=False)[()]
"""


def corruptions(tree):
    """Arguments of public functions are falsified in part of their domain."""
    out = []
    for node in ast.walk(tree):
        if not isinstance(node, ast.FunctionDef) or node.name in SKIPFUN:
            continue
        for arg in node.args.args + node.args.kwonlyargs:
            if arg.arg in ("self", "cls", "check", "num", "order", "n_fit", "rcond", "tol", "fast", "degree", "n_pole", "n_poles", "deg", "fix", "fix_q", "fix_qr", "occ", "quad", "kind", "m") or arg.arg.endswith("deg") or arg.arg.startswith(("deg_", "n_", "N")):
                continue
            for kind, expr in CORRUPT.items():
                if arg.arg in ("half_bandwidth", "beta", "scale", "center", "width") and kind not in ("clip", "flush", "single"):
                    continue        # scalars, positive or without sign
                if arg.arg in ("eps", "tau", "tt", "m", "rcond", "tol") and kind == "conj":
                    continue        # real
                new = copy.deepcopy(tree)
                fun = [n for n in ast.walk(new) if isinstance(n, ast.FunctionDef) and n.name == node.name and n.lineno == node.lineno][0]
                skip = 1 if ast.get_docstring(fun) is not None else 0
                fun.body.insert(skip, ast.parse(f"{arg.arg} = _mc_c({arg.arg})").body[0])
                pos = max([i for i, n in enumerate(new.body) if isinstance(n, ast.ImportFrom) and n.module == "__future__"], default=0) + 1
                new.body[pos:pos] = ast.parse(HELPER.replace("EXPR", expr)).body
                out.append((f"{kind}({arg.arg}) {node.name}", ast.unparse(ast.fix_missing_locations(new))))
    return out


def mutate(tree, path, fct):
    tree = copy.deepcopy(tree)
    node, parent = tree, None
    for name, i in path:
        parent = node
        node = getattr(node, name) if i is None else getattr(node, name)[i]
    new = fct(node)
    name, i = path[-1]
    if i is None:
        setattr(parent, name, new)
    else:
        getattr(parent, name)[i] = new
    return ast.fix_missing_locations(tree)


def main():
    par = argparse.ArgumentParser()
    par.add_argument("modules")
    par.add_argument("checks")
    par.add_argument("--every", type=int, default=1)
    par.add_argument("--start", type=int, default=0)
    par.add_argument("--workers", type=int, default=4)
    par.add_argument("--jobs", type=int, default=2)
    par.add_argument("--timeout", type=int, default=240)
    par.add_argument("--inputs", action="store_true", help="falsified arguments instead of code mutations")
    par.add_argument("--kinds", help="only these falsifications")
    par.add_argument("--fun", help="only these functions (with --inputs)")
    par.add_argument("--count", action="store_true")
    args = par.parse_args()
    todo = []
    for mod in args.modules.split(","):
        src = pathlib.Path("/repo", mod).read_text()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = set()
        if args.inputs:
            todo += [(mod, desc, base, new) for desc, new in corruptions(tree) if (not args.fun or desc.split()[1] in args.fun.split(",")) and (not args.kinds or desc.split("(")[0] in args.kinds.split(","))]
            continue
        for path, desc, fct in sites(tree):
            try:
                new = ast.unparse(mutate(tree, path, fct))
                compile(new, mod, "exec")
            except Exception:
                continue
            if new == base or new in seen:
                continue
            seen.add(new)
            todo.append((mod, desc, base, new))
    todo = todo[args.start::args.every]
    print(f"{len(todo)} mutants", flush=True)
    if args.count:
        return
    work = pathlib.Path(tempfile.mkdtemp(prefix="mutate."))
    free = []
    for w in range(args.workers):
        dst = work / f"repo{w}"
        shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs"))
        free.append(dst)

    def one(item):
        mod, desc, base, new = item
        dst = free.pop()
        try:
            (dst / mod).write_text(new)
            for chk in args.checks.split(","):
                env = dict(os.environ, VERIF_REPO=str(dst), VERIF_EVIDENCE=str(dst / "ev"), VERIF_FAILFAST="1", VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
                try:
                    r = subprocess.run([str(HERE / "check"), chk, "quick", "--jobs", str(args.jobs)], env=env, capture_output=True, text=True,
                                       timeout=args.timeout, start_new_session=True)
                except subprocess.TimeoutExpired:
                    subprocess.run(["pkill", "-f", str(dst)])
                    return "timeout", item
                if r.returncode == 1:
                    return "killed", item
                if r.returncode != 0:
                    return "error", item
            return "survived", item
        finally:
            shutil.copyfile(pathlib.Path("/repo", mod), dst / mod)
            free.append(dst)
    tally = {}
    try:
        with ThreadPoolExecutor(args.workers) as ex:
            for res, (mod, desc, base, new) in ex.map(one, todo):
                tally[res] = tally.get(res, 0) + 1
                if res != "killed" and args.inputs:
                    print(f"[{res}] {mod} {desc}", flush=True)
                elif res != "killed":
                    b, n = base.splitlines(), new.splitlines()
                    diff = [d for d in difflib.unified_diff(b, n, n=0, lineterm="") if not d.startswith(("---", "+++"))]
                    ctx = ""
                    for d in diff:
                        if d.startswith("@@"):
                            ln = int(d.split()[1].split(",")[0][1:])
                            for k in range(min(ln, len(b)) - 1, -1, -1):
                                if b[k].lstrip().startswith("def "):
                                    ctx = b[k].strip()[:50]
                                    break
                    print(f"[{res}] {mod} ({desc}) in {ctx}\n    " + "\n    ".join(d[:200] for d in diff if not d.startswith("@@")), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(tally, flush=True)


if __name__ == "__main__":
    sys.exit(main())
