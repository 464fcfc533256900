#!/usr/bin/env python3
"""refactor.py KIND DEST: copy /repo/fluids to DEST/fluids with a behaviour-preserving rewrite applied everywhere.
For trying the checks on code that means the same and is written differently."""
import ast
import copy
import os
import shutil
import sys

SKIPF = ('numba.py', 'nrlmsise00.py', 'nrlmsise00_data.py', 'vectorized.py', 'units.py')


def scope_nodes(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            todo.extend(ast.iter_child_nodes(n))


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n


def plain(tree):
    pass


class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        return [ast.Assign([ast.Name('outcome_', ast.Store())], n.value), ast.Return(ast.Name('outcome_', ast.Load()))]

    def visit_Lambda(self, n):
        return n


def hoist_return(tree):
    Ret().visit(tree)


class Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


def flip_if(tree):
    for f in functions(tree):
        for s in f.body:
            Flip().visit(s)


def rename(tree):
    for f in functions(tree):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.ClassDef, ast.Global, ast.Nonlocal)) for s in f.body for x in ast.walk(s)):
            continue
        a = f.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        if 'locals' in {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name)}:
            continue
        imp = {(al.asname or al.name).split('.')[0] for s in f.body for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
        st = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps - imp
        for s in f.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in st:
                    x.id = x.id + '_v'


class Unelse(ast.NodeTransformer):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                o = s.orelse
                s.orelse = []
                out.append(s)
                out += self.block(o)
            else:
                out.append(s)
        return out

    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, k, self.block(b))
        return n


def unelse(tree):
    for f in functions(tree):
        f.body = Unelse().block([Unelse().visit(s) for s in f.body])


def split_impl(tree):
    """Public functions hand over to a private one holding the body."""
    for i in range(len(tree.body) - 1, -1, -1):
        f = tree.body[i]
        if not isinstance(f, ast.FunctionDef) or f.name.startswith('_') or f.decorator_list or f.args.vararg or f.args.kwarg:
            continue
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            continue
        doc = f.body[:1] if ast.get_docstring(f) is not None else []
        rest = f.body[len(doc):]
        if not doc or len(rest) < 3:
            continue
        g = copy.deepcopy(f)
        g.name = '_' + f.name + '_body'
        g.body = rest
        g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kwonlyargs)
        f.body = doc + [ast.Return(ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in f.args.posonlyargs + f.args.args],
                                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in f.args.kwonlyargs]))]
        tree.body.insert(i, g)


class Comm(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0])) if len(n.ops) == 1 else None
        if o:
            n.ops = [o()]
            n.left, n.comparators = n.comparators[0], [n.left]
        return n


def commute(tree):
    for f in functions(tree):
        for s in f.body:
            Comm().visit(s)


def noop(tree):
    for f in functions(tree):
        k = 1 if ast.get_docstring(f) is not None else 0
        f.body.insert(k, ast.Assign([ast.Name('unused_', ast.Store())], ast.Constant(0)))


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)) and not isinstance(n.value, (ast.List, ast.ListComp)):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


def unaug(tree):
    for f in functions(tree):
        for s in f.body:
            Aug().visit(s)


class Cond(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if all(isinstance(v, (ast.Compare, ast.UnaryOp)) for v in n.values):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.values]))
        return n


def demorgan(tree):
    for f in functions(tree):
        for s in f.body:
            Cond().visit(s)


class Temps(ast.NodeTransformer):
    """Arguments of calls in simple statements go through locals first."""

    def __init__(self):
        self.k = 0

    def simple(self, s):
        v = s.value
        if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Name) or any(isinstance(a, ast.Starred) for a in v.args) or any(k.arg is None for k in v.keywords):
            return s
        pre = []
        for a in v.args + v.keywords:
            e = a.value if isinstance(a, ast.keyword) else a
            if isinstance(e, (ast.BinOp, ast.Call)) and not any(isinstance(y, (ast.Lambda, ast.GeneratorExp, ast.ListComp)) for y in ast.walk(e)):
                self.k += 1
                nm = f'tmp{self.k}_'
                pre.append(ast.Assign([ast.Name(nm, ast.Store())], e))
                if isinstance(a, ast.keyword):
                    a.value = ast.Name(nm, ast.Load())
                else:
                    v.args[v.args.index(a)] = ast.Name(nm, ast.Load())
        return pre + [s]

    def visit_Assign(self, s):
        return self.simple(s)

    def visit_Return(self, s):
        return self.simple(s) if s.value is not None else s

    def visit_Lambda(self, n):
        return n


def temps(tree):
    for f in functions(tree):
        f.body = [y for s in f.body for y in (lambda r: r if isinstance(r, list) else [r])(Temps().visit(s) if not isinstance(s, ast.FunctionDef) else s)]


KINDS = [plain, hoist_return, flip_if, rename, unelse, split_impl, commute, noop, unaug, demorgan, temps]


def main():
    kind, dest = sys.argv[1:3]
    fn = {k.__name__: k for k in KINDS}[kind]
    d = os.path.join(dest, 'fluids')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo/fluids', d, ignore=shutil.ignore_patterns('__pycache__'))
    for base, _, files in os.walk(d):
        for x in files:
            if x.endswith('.py') and x not in SKIPF and 'optional' not in base:
                p = os.path.join(base, x)
                with open(p, encoding='utf-8') as fh:
                    tree = ast.parse(fh.read())
                fn(tree)
                ast.fix_missing_locations(tree)
                with open(p, 'w', encoding='utf-8') as fh:
                    fh.write(ast.unparse(tree) + '\n')


if __name__ == '__main__':
    main()
