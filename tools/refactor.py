"""Apply rewrites that keep the meaning (but change the rounding) to a copy of the sources: the checks have to stay quiet.

usage: refactor.py SRC DST KIND[+KIND..] [STEP START]   with KIND one of commute, assoc, divide, square, negate, tempvar, branch
"""
import ast
import pathlib
import shutil
import sys


class Base(ast.NodeTransformer):
    """No rewriting of annotations, decorators, defaults and f-strings."""
    count = 0

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(n) for n in node.body]
        flat = []
        for n in node.body:
            flat += n if isinstance(n, list) else [n]
        node.body = flat
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        return node


def stringy(n):
    return any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) or
               (isinstance(x, ast.Attribute) and x.attr in ("shape", "ndim", "newaxis")) for x in ast.walk(n))


class Commute(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Mult)) and not stringy(node):
            self.count += 1
            return ast.BinOp(node.right, node.op, node.left)
        return node


class Assoc(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Mult)) and isinstance(node.left, ast.BinOp) and type(node.left.op) is type(node.op) and not stringy(node):
            self.count += 1
            return ast.BinOp(node.left.left, node.op, ast.BinOp(node.left.right, node.op, node.right))
        return node


class Divide(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not stringy(node) and not isinstance(node.left, ast.Constant):
            self.count += 1
            return ast.BinOp(node.left, ast.Mult(), ast.BinOp(ast.Constant(1), ast.Div(), node.right))
        return node


class Square(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and node.right.value == 2 and not stringy(node) \
                and not any(isinstance(n, ast.Call) for n in ast.walk(node)):
            self.count += 1
            return ast.BinOp(node.left, ast.Mult(), node.left)
        return node


class Negate(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Sub) and not stringy(node):
            self.count += 1
            return ast.BinOp(ast.UnaryOp(ast.USub(), node.right), ast.Add(), node.left)
        return node


class Tempvar(Base):
    """Return values and call arguments go through variables."""

    def visit_Return(self, node):
        if node.value is None or any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(node)):
            return node
        self.count += 1
        name = f"result_{self.count}"
        return [ast.Assign([ast.Name(name, ast.Store())], node.value), ast.Return(ast.Name(name, ast.Load()))]

    def visit_Lambda(self, node):
        return node


class Branch(Base):
    """if a: X else: Y  ->  if not a: Y else: X."""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            self.count += 1
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        self.count += 1
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


KINDS = dict(commute=Commute, assoc=Assoc, divide=Divide, square=Square, negate=Negate, tempvar=Tempvar, branch=Branch)


def thin(cls, step, start):
    """Apply only every `step`-th rewrite."""
    class Thin(cls):
        seen = 0
    for name in [n for n in vars(cls) if n.startswith("visit_")]:
        def visit(self, node, name=name):
            import copy
            keep = copy.deepcopy(node)
            before = self.count
            new = getattr(cls, name)(self, node)
            if self.count == before or new is keep:
                return new
            Thin.seen += 1
            return new if Thin.seen % step == start else keep
        setattr(Thin, name, visit)
    return Thin


def main(src, dst, kinds, step=1, start=0, only=""):
    src, dst = pathlib.Path(src), pathlib.Path(dst)
    if dst.exists():
        shutil.rmtree(dst)
    shutil.copytree(src, dst, symlinks=True)
    total = 0
    for path in sorted((dst / "gftool").rglob("*.py")):
        if "tests" in path.parts or path.name == "_version.py" or (only and only not in str(path)):
            continue
        tree = ast.parse(path.read_text())
        for kind in kinds.split("+"):
            tr = (KINDS[kind] if int(step) == 1 else thin(KINDS[kind], int(step), int(start)))()
            tree = ast.fix_missing_locations(tr.visit(tree))
            total += tr.count
        path.write_text(ast.unparse(tree) + "\n")
    print(kinds, total, "rewrites")


if __name__ == "__main__":
    main(*sys.argv[1:])
