"""Development tool (not a check): lists small mutations of /repo/pyflp.

usage: python3 tools/mutants.py OUT.json   (Python >= 3.9)

Every mutant is {"file", "start", "end", "new", "line", "op"}: the text between two offsets is replaced.
tools/mutrun.py decides which of them the repository's tests and the checks notice.
"""
import ast
import json
import os
import sys

REPO = os.environ.get("PYFLP_REPO", "/repo")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>", ast.RShift: "<<",
       ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}
NAMES = {"Int32ul": ("Int32sl", "Int16ul"), "Int32sl": ("Int32ul",), "Int16ul": ("Int16sl", "Int16ub"), "Int16sl": ("Int16ul",), "Int8ul": ("Int8sl",),
         "Int8sl": ("Int8ul",), "Float32l": ("Int32sl",), "Float64l": ("Int64sl",), "Flag": ("Int8ul",), "min": ("max",), "max": ("min",), "any": ("all",), "all": ("any",),
         "append": ("extend",), "U8Event": ("I8Event",), "I8Event": ("U8Event",), "U16Event": ("I16Event",), "I16Event": ("U16Event",), "U32Event": ("I32Event",),
         "I32Event": ("U32Event",), "BoolEvent": ("U8Event",), "ColorEvent": ("U32Event",), "StdEnum": ("Maybe",)}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for l in src.splitlines(True):
            self.off.append(self.off[-1] + len(l.encode()))
        self.raw = src.encode()
        self.out = []

    def pos(self, line, col):
        return self.off[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, a, b, new, op, line):
        self.out.append({"start": a, "end": b, "new": new, "op": op, "line": line, "old": self.raw[a:b].decode()})

    def rep(self, n, new, op):
        a, b = self.span(n)
        self.add(a, b, new, op, n.lineno)

    def between(self, l, r, new, op):
        """replaces the operator between two operands"""
        a, b = self.span(l)[1], self.span(r)[0]
        gap = self.raw[a:b].decode()
        lead = gap[:len(gap) - len(gap.lstrip(" \n)"))]
        core = gap.strip(" \n()")
        i = gap.index(core)
        self.add(a + len(gap[:i].encode()), a + len(gap[:i].encode()) + len(core), new, op, l.end_lineno)

    # -- skipped parts
    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_arguments(self, n):
        for d in n.defaults + [d for d in n.kw_defaults if d]:
            self.visit(d)

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.text(n.test):
            return
        self.rep(n.test, "True", "if-true")
        self.rep(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n.test, "True", "if-true")
        self.rep(n.test, "False", "if-false")
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "__str__") or any("overload" in self.text(d) for d in n.decorator_list):
            return
        self.visit(n.args)
        for s in n.body:
            self.visit(s)

    def visit_ClassDef(self, n):
        if any(self.text(b) in ("Protocol", "TypedDict") for b in n.bases):
            return
        for s in n.body:
            self.visit(s)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.rep(n, "pass", "drop statement")
        else:
            self.rep(n, "pass", "drop yield")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if any(isinstance(t, ast.Name) and t.id in ("__all__", "__slots__") for t in n.targets):
            return
        if n.col_offset > 4 and not isinstance(n.targets[0], ast.Name):
            self.rep(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.rep(n, "pass", "drop statement")

    def visit_Raise(self, n):
        self.rep(n, "pass", "drop raise")
        if n.exc is not None:
            self.rep(n.exc, "Exception()", "raise other")

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.rep(n.value, "None", "return None")
        else:
            self.rep(n, "pass", "drop return")
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.rep(n, "break", "continue/break")
        self.rep(n, "pass", "drop statement")

    def visit_Break(self, n):
        self.rep(n, "continue", "continue/break")
        self.rep(n, "pass", "drop statement")

    def visit_Compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            self.between(l, r, CMP[type(op)], "compare")
            if isinstance(op, (ast.Lt, ast.GtE)):
                self.between(l, r, {ast.Lt: ">", ast.GtE: "<="}[type(op)], "compare2")
            l = r
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        new = "or" if isinstance(n.op, ast.And) else "and"
        for l, r in zip(n.values, n.values[1:]):
            self.between(l, r, new, "bool")
        for v in n.values:
            self.rep(v, "True" if isinstance(n.op, ast.And) else "False", "bool operand")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.op, ast.Div) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.between(n.left, n.right, BIN[type(n.op)], "binary")
        if isinstance(n.op, ast.Div) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.visit(n.right)
            return
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, "bool(%s)" % self.text(n.operand), "drop not")
        elif isinstance(n.op, ast.USub):
            self.rep(n, self.text(n.operand), "drop minus")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.rep(n, str(not v), "constant")
        elif isinstance(v, int):
            self.rep(n, str(v + 1), "constant")
            self.rep(n, str(v - 1), "constant")
        elif isinstance(v, float):
            self.rep(n, repr(v * 1.5 + 0.25), "constant")
        elif v is None:
            pass
        elif isinstance(v, bytes):
            self.rep(n, repr(b"X" + v), "constant")

    def visit_Name(self, n):
        for new in NAMES.get(n.id, ()):
            self.rep(n, new, "name")

    def visit_Attribute(self, n):
        for new in NAMES.get(n.attr, ()):
            b = self.span(n)[1]
            self.add(b - len(n.attr), b, new, "name", n.end_lineno)
        self.visit(n.value)

    def visit_Slice(self, n):
        if n.lower is not None or n.upper is not None:
            self.rep(n, ":" if n.lower is not None or n.upper is not None else "::", "slice")
        self.generic_visit(n)

    def visit_keyword(self, n):
        self.visit(n.value)

    def visit_Subscript(self, n):
        self.visit(n.value)
        self.visit(n.slice)


def main(out):
    res = []
    d = os.path.join(REPO, "pyflp")
    for root, _, files in os.walk(d):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            src = open(path, encoding="utf-8").read()
            fi = Finder(src)
            fi.visit(ast.parse(src))
            seen = set()
            for m in fi.out:
                k = (m["start"], m["end"], m["new"])
                if k in seen or m["old"] == m["new"]:
                    continue
                seen.add(k)
                new = fi.raw[:m["start"]] + m["new"].encode() + fi.raw[m["end"]:]
                try:
                    compile(new, f, "exec")
                except SyntaxError:
                    continue
                m["file"] = os.path.relpath(path, REPO)
                res.append(m)
    with open(out, "w") as fh:
        json.dump(res, fh)
    print(len(res), "mutants")


if __name__ == "__main__":
    main(sys.argv[1])
