"""Shared construction of the alias analysis and helpers for M01-M03."""
from __future__ import annotations
import ast

from .alias import Alias
from .deps import Deps
from .program import walk_scope

SKIP = ('fluids.numba', 'fluids.vectorized', 'fluids.nrlmsise00')


def alias(prog):
    r = getattr(prog, '_alias', None)
    if r is None:
        r = prog._alias = Alias(prog, skip=SKIP).run()
    return r


def deps(prog, fi):
    r = getattr(fi, '_deps', None)
    if r is None:
        r = fi._deps = Deps(prog, fi)
    return r


def public(fi):
    """Callable by a user: not underscore-prefixed anywhere in its qualified name."""
    return fi.parent is None and not fi.is_lambda and (not fi.name.startswith('_') or (fi.name.startswith('__') and fi.name.endswith('__'))) \
        and (fi.cls is None or not fi.cls.name.startswith('_'))


def callers(prog):
    """callee FuncInfo -> [(caller, call node)] for calls by resolved name or self.method."""
    r = getattr(prog, '_callers', None)
    if r is not None:
        return r
    from .refs import resolver
    r = {}
    for m in prog.modules.values():
        for f in m.functions.values():
            res = None
            for n in walk_scope(f.node):
                if not isinstance(n, ast.Call):
                    continue
                res = res or resolver(prog, f)
                t = None
                if isinstance(n.func, (ast.Name, ast.Attribute)):
                    x = res(n.func)
                    if x is not None and x[0] == 'func':
                        t = x[1]
                    elif x is not None and x[0] == 'local':
                        t = x[1].module.functions.get(x[1].qualname + '.<locals>.' + n.func.id) if isinstance(n.func, ast.Name) else None
                if t is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                    g = f
                    while g is not None and g.cls is None:
                        g = g.parent
                    if g is not None:
                        t = g.cls.find_method(prog, n.func.attr)
                if t is not None:
                    r.setdefault(t, []).append((f, n))
    prog._callers = r
    return r


def argument(fi, call, p):
    """Expression bound to parameter p by the call: node, None (default) or '?'."""
    for k in call.keywords:
        if k.arg == p:
            return k.value
        if k.arg is None:
            return '?'
    pos = list(fi.pos)
    if fi.cls is not None and 'staticmethod' not in fi.decorator_names() and isinstance(call.func, ast.Attribute):
        pos = pos[1:]
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return '?'
        if i < len(pos) and pos[i] == p:
            return a
    return None


def live(prog, fi, ps, seen=None):
    """Parameters of fi (out of ps) whose value can come from a user's argument."""
    seen = seen or set()
    out = set()
    for p in ps:
        if p.startswith('F:'):
            out.add(p)
            continue
        if fi.cls is not None and fi.pos and p == fi.pos[0] and 'staticmethod' not in fi.decorator_names():
            continue       # self / cls
        if fi.parent is not None or public(fi):
            out.add(p)
            continue
        if (fi, p) in seen:
            continue
        seen.add((fi, p))
        cs = callers(prog).get(fi, [])
        if not cs:
            out.add(p)
        for g, call in cs:
            a = argument(fi, call, p)
            if a == '?':
                out.add(p)
            elif a is not None:
                d = deps(prog, g).of(a) | deps(prog, g).control(call)
                if live(prog, g, d, seen):
                    out.add(p)
    return out
