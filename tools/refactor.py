#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrite of every source file of a copy of the repository.

    tools/refactor.py /tmp/wc [kinds: ret,flip,comp,rng,cmp,names,helper]
The checks have to stay quiet on the result (tools/oncopy.sh).
"""
import ast
import os
import sys

ROOT = sys.argv[1]
KINDS = set((sys.argv[2] if len(sys.argv) > 2 else "ret,flip,comp,rng,cmp,names,helper").split(","))
COUNT = {}


def hit(k):
    COUNT[k] = COUNT.get(k, 0) + 1


class Fn(ast.NodeTransformer):
    """rewrites inside one function"""

    def __init__(self):
        self.n = 0
        self.defs = []

    def new(self, p):
        self.n += 1
        return f"{p}_{self.n}_"

    def visit_FunctionDef(self, node):
        return node  # nested ones are handled separately

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def visit_Return(self, node):
        if "ret" in KINDS and node.value is not None and not isinstance(node.value, (ast.Name, ast.Constant)):
            hit("ret")
            v = self.new("value")
            return [ast.Assign([ast.Name(v, ast.Store())], node.value), ast.Return(ast.Name(v, ast.Load()))]
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if "flip" in KINDS and node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            hit("flip")
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if "flip" in KINDS:
            hit("flip")
            return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_Assign(self, node):
        if "comp" in KINDS and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and isinstance(node.value, ast.ListComp) \
                and len(node.value.generators) == 1 and not node.value.generators[0].is_async:
            hit("comp")
            g = node.value.generators[0]
            t = node.targets[0].id
            used = {x.id for x in ast.walk(node.value) if isinstance(x, ast.Name)}
            if t in used:
                return node
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [node.value.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(c, [body], [])
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if "rng" in KINDS and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and not it.keywords \
                and isinstance(node.target, ast.Name) and not node.orelse \
                and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(node)):
            hit("rng")
            i, m = self.new("idx"), self.new("stop")
            L = lambda n: ast.Name(n, ast.Load())
            return [ast.Assign([ast.Name(m, ast.Store())], it.args[0]), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(L(i), [ast.Lt()], [L(m)]),
                              [ast.Assign([ast.Name(node.target.id, ast.Store())], L(i)), *node.body,
                               ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if "cmp" in KINDS and len(node.ops) == 1 and type(node.ops[0]) in sw:
            hit("cmp")
            return ast.Compare(node.comparators[0], [sw[type(node.ops[0])]()], [node.left])
        return node


def local_names(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
    stored, bad = set(), set(args)
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            bad |= set(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stored.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            bad.add(x.name)
            if isinstance(x, ast.FunctionDef):
                bad |= {a.arg for a in x.args.args + x.args.kwonlyargs + x.args.posonlyargs}
        if isinstance(x, ast.Lambda):
            bad |= {a.arg for a in x.args.args + x.args.kwonlyargs}
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            bad |= {(a.asname or a.name).split(".")[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            bad.add(x.name)
    return stored - bad


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, node):
        if node.id in self.m:
            hit("names")
            node.id = self.m[node.id]
        return node


def functions(tree):
    """outermost functions and methods"""
    def rec(body):
        for x in body:
            if isinstance(x, ast.FunctionDef):
                yield x
            elif isinstance(x, ast.ClassDef):
                yield from rec(x.body)
    yield from rec(tree.body)


def allfns(tree):
    return [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]


def helpers(tree):
    """module-level functions: body moved into a helper called with the same arguments"""
    out = []
    for x in tree.body:
        if isinstance(x, ast.FunctionDef) and not x.decorator_list and not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(x)) \
                and not x.args.vararg and not x.args.kwarg and not x.args.posonlyargs and "super" not in ast.dump(x):
            hit("helper")
            nm = "_do_" + x.name.lstrip("_")
            names = [a.arg for a in x.args.args + x.args.kwonlyargs]
            inner = ast.FunctionDef(nm, ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), x.body, [], None)
            inner.type_params = []
            x.body = [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(n, ast.Load()) for n in names], []))]
            out.append(inner)
        out.append(x)
    tree.body = out


def main():
    for base in ("src/bmi", "workflows/benchmark"):
        for d, _, fs in os.walk(os.path.join(ROOT, base)):
            for f in fs:
                if not f.endswith(".py") or f.startswith("test"):
                    continue
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                if "names" in KINDS:
                    for fn in functions(tree):
                        m = {n: n + "_v" for n in local_names(fn)}
                        Ren(m).visit(fn)
                for fn in allfns(tree):
                    t = Fn()
                    body = []
                    for st in fn.body:
                        r = t.visit(st)
                        body += r if isinstance(r, list) else [r]
                    fn.body = body
                if "helper" in KINDS:
                    helpers(tree)
                ast.fix_missing_locations(tree)
                open(p, "w").write(ast.unparse(tree) + "\n")
    print(COUNT)


main()
