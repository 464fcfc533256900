"""Resolved references of function bodies and module bodies."""
from __future__ import annotations
import ast

from .program import walk_scope


def local_imports(prog, fi):
    """name -> resolution for imports executed in fi's scope (or enclosing ones)."""
    out = {}
    chain = []
    f = fi
    while f is not None:
        chain.append(f)
        f = f.parent
    for f in reversed(chain):
        for n in walk_scope(f.node):
            if isinstance(n, ast.Import):
                for al in n.names:
                    nm = al.asname or al.name.split('.')[0]
                    out[nm] = prog._import(al.name if al.asname else al.name.split('.')[0], None, set())
            elif isinstance(n, ast.ImportFrom):
                m = fi.module.abs_mod(n)
                for al in n.names:
                    if al.name != '*':
                        out[al.asname or al.name] = prog._import(m, al.name, set())
    return out


def resolve_chain(prog, e, base):
    """Resolve Name/Attribute chain; base(name) gives the resolution of the root name."""
    if isinstance(e, ast.Name):
        return base(e.id)
    if isinstance(e, ast.Attribute):
        r = resolve_chain(prog, e.value, base)
        if r is None or r[0] in ('local', 'var'):
            return None
        return prog.getattr(r, e.attr)
    return None


def resolver(prog, fi):
    li = local_imports(prog, fi)

    def base(name):
        r = prog.resolve_in(fi, name)
        if (r is None or r[0] == 'local') and name in li:
            return li[name]
        return r
    return lambda e: resolve_chain(prog, e, base)


def module_resolver(prog, m):
    return lambda e: resolve_chain(prog, e, lambda n: prog.resolve(m, n))


def maximal_chains(nodes):
    """Name loads and Attribute chains which are not the base of a longer chain."""
    nodes = list(nodes)
    inner = set()
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.value, (ast.Name, ast.Attribute)):
            inner.add(id(n.value))
    for n in nodes:
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load) and id(n) not in inner:
            yield n


def module_level(m):
    """Nodes executed when the module is imported (not inside functions/lambdas)."""
    stack = list(reversed(m.tree.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def scopes(prog):
    """(label, module, FuncInfo|None, nodes, resolve) for every scope of the package."""
    for m in prog.modules.values():
        yield m.name + '.<module>', m, None, list(module_level(m)), module_resolver(prog, m)
        for f in m.functions.values():
            yield f.fq, m, f, list(walk_scope(f.node)), resolver(prog, f)


def owner(fi):
    """Outermost enclosing named function."""
    f = fi
    while f.parent is not None:
        f = f.parent
    return f
