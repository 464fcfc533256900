"""Outcome of a function when an option argument has a value it cannot know."""
from __future__ import annotations
import ast

from .interp import Budget
from .nonepat import NoneInterp, crash, given_kind, none_params, options
from .program import walk_scope
from .values import Const, Sym, NONE, vnum

FRESH = '\x01no such option\x01'
FRESH_NUM = 918273


def candidates(fi, prog=None):
    """{parameter: fresh value} for the option-like parameters of fi."""
    out = {}
    opts = options(fi, prog)
    ann = {a.arg: ast.unparse(a.annotation) if a.annotation is not None else '' for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs}
    for p in fi.params:
        if p in ('self', 'cls'):
            continue
        d = fi.defaults.get(p)
        if 'str' in ann.get(p, '').replace('"', '').split(' | ') or (isinstance(d, ast.Constant) and isinstance(d.value, str)) or opts.get(p) or p in ('Method', 'method'):
            out[p] = FRESH
        elif isinstance(d, ast.Name) and d.id.isupper():
            out[p] = FRESH
    for n in walk_scope(fi.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in fi.params and n.left.id not in out:
            if all(isinstance(o, (ast.Eq, ast.In)) for o in n.ops):
                vals = [c for c in n.comparators for c in (c.elts if isinstance(c, (ast.Tuple, ast.List)) else [c])]
                if vals and all(isinstance(v, ast.Constant) and type(v.value) is int and v.value != 0 for v in vals) and isinstance(n.ops[0], (ast.Eq, ast.In)):
                    out[n.left.id] = FRESH_NUM
    return out


class OptInterp(NoneInterp):
    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        if bound is not None and self.depth < 3 and not fi.is_generator() and fi not in self.stack and not fi.module.name.startswith('fluids.numerics'):
            hit = frozenset(p for p, v in bound.items() if p in fi.params and isinstance(v, Const) and v.v in (FRESH, FRESH_NUM) and not isinstance(v.v, float))
            if hit:
                key = (fi, hit, frozenset((p, v.v) for p, v in bound.items() if isinstance(v, Const) and isinstance(v.v, (str, bool, type(None)))))
                if key not in self.memo:
                    self.memo[key] = None
                    self.memo[key] = self.sub(fi, bound, [p for p, v in bound.items() if isinstance(v, Const) and v.v is None])
                s = self.memo[key]
                if s is not None and not s[0]:
                    for exc, why in s[1]:
                        self.raise_(st, node, exc, why)
                    return []
        return super().opaque_call(fn, bound, args, kwargs, st, node)

    def sub(self, fi, bound, miss, ne=()):
        a = {}
        for p in fi.params:
            v = bound.get(p)
            if p in miss:
                a[p] = NONE
            elif isinstance(v, Const) and isinstance(v.v, (str, bool, int)):
                a[p] = v
            elif v is not None:
                a[p] = Sym(vn=vnum('param', fi.fq, p), deps=frozenset([p]), kind=given_kind(fi, p))
        it = type(self)(self.prog, self.budget0 // 4, self.memo, self.depth + 1)
        it.missing = self.missing
        try:
            res = it.entry(fi, args=a)
        except Budget:
            return None
        if any(o.kind == 'return' for o in res):
            return (True, ())
        return (False, tuple({(o.exc, str(o.why)) for o in res if o.kind == 'raise'}))


def run(prog, fi, p, fresh, budget, fixed=None, memo=None):
    """'E' no path returns, 'R' some does, '?' undecided; and the raises seen."""
    args = {p: Const(fresh, deps=frozenset(['?' + p]))}
    for q, v in (fixed or {}).items():
        args[q] = Sym(vn=vnum('param', fi.fq, q), deps=frozenset([q]), kind=given_kind(fi, q)) if v == 'given' else v
    it = OptInterp(prog, budget, memo)
    it.missing = frozenset(['?' + p])
    try:
        res = it.entry(fi, args=args)
    except Budget:
        return '?', []
    ret = [o for o in res if o.kind == 'return']
    return ('?' if it.vague and ret else 'R' if ret else 'E'), ret or res
