"""Flow-insensitive dependence of local names on parameters (explicit and control)."""
from __future__ import annotations
import ast

from .alias import MUT
from .program import walk_scope


class Deps:
    """deps of every local name of one function: parameters (and captured names, marked 'F:name')."""

    def __init__(self, prog, fi):
        self.prog, self.fi = prog, fi
        self.m = fi.module
        self.params = set(fi.all_params)
        self.locals = fi.scope_info()[0]
        self.d = {p: {p} for p in self.params}
        self.assign = {}     # name -> list of (value expr | None, node)
        nodes = list(walk_scope(fi.node))
        for n in nodes:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self._bind(t, n.value, n)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                if n.value is not None:
                    self._bind(n.target, n.value, n)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    self.assign.setdefault(n.target.id, []).append((n.target, n))
            elif isinstance(n, (ast.For, ast.comprehension)):
                self._bind(n.target, n.iter, n)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self._bind(n.optional_vars, n.context_expr, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                b = root(n.func.value)
                if b:
                    for a in n.args:
                        self.assign.setdefault(b, []).append((a, n))
        while True:
            ch = False
            for name, vs in self.assign.items():
                s = self.d.setdefault(name, set())
                k = len(s)
                for v, n in vs:
                    s |= self.of(v) | self.control(n)
                ch |= len(s) != k
            if not ch:
                break

    def _bind(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign.setdefault(t.id, []).append((v, node))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._bind(x, v, node)
        elif isinstance(t, ast.Starred):
            self._bind(t.value, v, node)
        else:
            b = root(t)
            if b:
                self.assign.setdefault(b, []).append((v, node))
                if isinstance(t, ast.Subscript):
                    self.assign[b].append((t.slice, node))

    def of(self, e):
        out = set()
        if e is not None:
            self._of(e, frozenset(), out)
        return out

    def _of(self, n, bound, out):
        if isinstance(n, ast.Name):
            if n.id in bound:
                return
            if n.id in self.d:
                out |= self.d[n.id]
            elif n.id not in self.locals and self.fi.parent is not None:
                r = self.prog.resolve_in(self.fi, n.id)
                if r is not None and r[0] == 'local':
                    out.add('F:' + n.id)
            return
        if isinstance(n, ast.Lambda):
            a = n.args
            bound = bound | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        for ch in ast.iter_child_nodes(n):
            self._of(ch, bound, out)

    def control(self, node):
        """Dependence of the execution of node (enclosing tests)."""
        out = set()
        n = node
        while n is not None and n is not self.fi.node:
            p = self.m.parent.get(n)
            if isinstance(p, (ast.If, ast.While, ast.IfExp)) and n is not p.test:
                out |= self.of(p.test)
            elif isinstance(p, ast.For) and n is not p.iter:
                out |= self.of(p.iter)
            n = p
        return out

    def plain(self, e, depth=0):
        """Parameters which the value of e determines (e is an injective packing of them)."""
        if isinstance(e, ast.Name):
            if e.id in self.params and e.id not in self.assign:
                return {e.id}
            vs = self.assign.get(e.id)
            if vs and len(vs) == 1 and depth < 5 and isinstance(vs[0][1], (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                t = getattr(vs[0][1], 'target', None) or vs[0][1].targets[0]
                if isinstance(t, ast.Name):
                    return self.plain(vs[0][0], depth + 1)
            if not vs and e.id not in self.locals:
                return {'F:' + e.id}
            return set()
        if isinstance(e, ast.Tuple):
            out = set()
            for x in e.elts:
                out |= self.plain(x, depth + 1)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'repr', 'frozenset', 'float', 'id') and len(e.args) == 1:
            return self.plain(e.args[0], depth + 1)
        if isinstance(e, ast.Starred):
            return self.plain(e.value, depth + 1)
        return set()


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None
