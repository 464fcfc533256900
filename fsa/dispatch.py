"""Which calculations a function hands its arguments to, per value of an option."""
from __future__ import annotations
import ast

from .interp import Budget
from .nonepat import given_kind, none_params, options
from .scope import Calc, is_api
from .values import Const, Sym, TupV, ListV, DictV, Lit, Ref, EMPTY, NONE, vnum, join_deps


class Label(tuple):
    """('call', callee fq, ((param, binding), ...)) carried in the dependence set of a value."""
    __slots__ = ()


class DispInterp(Calc):
    """Every API call yields a value labelled with the call."""

    def __init__(self, prog, fi, budget):
        super().__init__(prog, budget=budget)
        self.root = fi
        self.pvn = {}

    def binding(self, v, st):
        v0 = v
        if isinstance(v, Sym):
            p = self.pvn.get(v.vn)
            if p is not None:
                return 'P:' + p
            f = st.facts.get(v.vn)
            if f is not None and f.lo == f.hi and f.lo not in (float('inf'), float('-inf')):
                return f'C:{f.lo!r}'
        if isinstance(v, Const):
            return 'C:' + (repr(float(v.v)) if isinstance(v.v, (int, float)) and not isinstance(v.v, bool) else repr(v.v))
        d = self.deref_deep(v0, st).deps
        return 'X:' + ','.join(sorted(x for x in d if isinstance(x, str) and (x in self.root.params or x.startswith('self.'))))

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        deps = join_deps([self.deref_deep(a, st) for a in args]) | join_deps([self.deref_deep(a, st) for a in kwargs.values()])
        if bound is not None and is_api(self.prog, fi) and not fi.module.name.startswith('fluids.numerics'):
            lab = Label(('call', fi.fq, tuple(sorted((p, self.binding(v, st)) for p, v in bound.items() if p in fi.params))))
            deps = frozenset(d for d in deps if not isinstance(d, Label)) | {lab} | frozenset(Label(('via',) + d[1:]) for d in deps if isinstance(d, Label))
        return [(st, self.opaque_shape(fi, deps))]


def run(prog, fi, fixed, budget=8000, none='given'):
    """[(labels, deps)] per return path, or None."""
    it = DispInterp(prog, fi, budget)
    args = {}
    for p in fi.params:
        vn = vnum('param', fi.fq, p)
        it.pvn[vn] = p
        if p in fixed:
            args[p] = fixed[p]
        elif p in none_params(fi) and none == 'given':
            args[p] = Sym(vn=vn, deps=frozenset([p]), kind=given_kind(fi, p))
    try:
        res = it.entry(fi, args=args)
    except Budget:
        return None
    out = []
    for o in res:
        if o.kind != 'return' or o.why:
            continue
        d = it.deref_deep(o.val, o.st).deps
        out.append((frozenset(x for x in d if isinstance(x, Label)), frozenset(x for x in d if isinstance(x, str)), getattr(o.node, 'lineno', 0)))
    return out


def accepted(prog, fi, p):
    """Names the function may accept for option p: those it compares it with, and the keys of the registries it looks it up in."""
    return sorted(options(fi, prog).get(p, []))


class Probe(Calc):
    """Records the names a parameter is compared with or looked up among, also through local aliases and callees."""

    def __init__(self, prog, budget, vn):
        super().__init__(prog, budget=budget)
        self.pvn, self.names = vn, set()

    def note(self, a, b):
        if isinstance(a, Sym) and a.vn == self.pvn:
            if isinstance(b, Const) and isinstance(b.v, str):
                self.names.add(b.v)
            elif isinstance(b, Lit) and isinstance(b.v, (list, tuple, set, frozenset, dict)):
                self.names |= {x for x in b.v if isinstance(x, str)}
            elif isinstance(b, TupV):
                self.names |= {x.v for x in b.items if isinstance(x, Const) and isinstance(x.v, str)}
            elif isinstance(b, ListV) and b.items is not None:
                self.names |= {x.v for x in b.items if isinstance(x, Const) and isinstance(x.v, str)}
            elif isinstance(b, DictV):
                self.names |= {x for x in b.items if isinstance(x, str)}

    def cmp_eq(self, l, r, st, node):
        self.note(l, r)
        self.note(r, l)
        return super().cmp_eq(l, r, st, node)

    def cmp_in(self, l, r, st, node):
        self.note(l, self.deref(r, st))
        return super().cmp_in(l, r, st, node)

    def getitem(self, o, i, st, node):
        self.note(i, self.deref(o, st))
        return super().getitem(o, i, st, node)


def names(prog, fi, p, budget=20000):
    vn = vnum('param', fi.fq, p)
    it = Probe(prog, budget, vn)
    try:
        it.entry(fi, args={p: Sym(vn=vn, deps=frozenset([p]), kind='str')})
    except Budget:
        pass
    return it.names | set(accepted(prog, fi, p))
