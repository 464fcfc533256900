"""Outcome of a function for each pattern of omitted optional arguments."""
from __future__ import annotations
import ast
import itertools

from .interp import Budget, Fact, State
from .program import walk_scope
from .scope import Calc
from .values import NONE, Const, Lit, Sym, vnum

MAXALL = 9


def none_params(fi):
    return [p for p, d in fi.defaults.items() if isinstance(d, ast.Constant) and d.value is None]


def given_kind(fi, p):
    for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            t = ast.unparse(x.annotation).strip("'\"").replace(' ', '')
            parts = [q for q in t.split('|') if q != 'None']
            if parts and all(q in ('float', 'int') for q in parts):
                return 'num'
            if parts == ['str']:
                return 'str'
            if parts == ['bool']:
                return 'bool'
    return 'obj'


def patterns(ps):
    """Sets of given parameters."""
    n = len(ps)
    if n <= MAXALL:
        return [frozenset(p for p, g in zip(ps, pat) if g) for pat in itertools.product((False, True), repeat=n)]
    out = []
    for k in list(range(0, 4)) + list(range(n - 2, n + 1)):
        out += [frozenset(x) for x in itertools.combinations(ps, k)]
    return list(dict.fromkeys(out))


class NoneInterp(Calc):
    """Treats calculations as boundaries, but looks into them when they are handed a missing value."""
    depth = 0

    def __init__(self, prog, budget, memo=None, depth=0):
        super().__init__(prog, budget=budget)
        self.memo = {} if memo is None else memo
        self.depth = depth
        self.missing = frozenset()
        self.vague = False

    def fork(self, st, v, node):
        if v.deps & self.missing:
            self.vague = True
        return super().fork(st, v, node)

    def split(self, st, deps, node):
        if deps & self.missing:
            self.vague = True
        return super().split(st, deps, node)

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        r = super().opaque_call(fn, bound, args, kwargs, st, node)
        fi = fn.fi
        if bound is None or self.depth >= 3 or fi.is_generator() or fi in self.stack or fi.module.name.startswith('fluids.numerics'):
            return r
        miss = []
        for p, v in bound.items():
            if p in fi.params and isinstance(v, Const) and v.v is None:
                miss.append(p)
        if not miss:
            return r
        # optional ones left alone say nothing; look when a required one is missing or the pattern may be insufficient
        key = (fi, frozenset(miss), frozenset((p, v.v) for p, v in bound.items() if isinstance(v, Const) and isinstance(v.v, (str, bool))))
        ne = {}
        for p, v in bound.items():
            f = st.facts.get(v.vn) if isinstance(v, Sym) else None
            x = frozenset(k for k in f.ne if isinstance(k, str)) if f is not None else ()
            if x:
                ne[p] = x
        key += (frozenset(ne.items()),)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self.sub(fi, bound, miss, ne)
        s = self.memo[key]
        if s is None or s[0]:
            return r
        for exc, why in s[1]:
            self.raise_(st, node, exc, why)
        return []

    def sub(self, fi, bound, miss, ne=()):
        a = {}
        st = State()
        for p in fi.params:
            v = bound.get(p)
            if p in miss:
                a[p] = NONE
            elif isinstance(v, Const) and isinstance(v.v, (str, bool)):
                a[p] = v
            elif p in fi.defaults or v is not None:
                a[p] = Sym(vn=vnum('param', fi.fq, p), deps=frozenset([p]), kind=given_kind(fi, p) if fi.node.args is not None else 'obj')
        for p in ne:
            st.facts[a[p].vn] = Fact(ne=ne[p])
        it = type(self)(self.prog, self.budget0 // 4, self.memo, self.depth + 1)
        try:
            res = it.entry(fi, args=a, st=st)
        except Budget:
            return None
        if any(o.kind == 'return' for o in res):
            return (True, ())
        return (False, tuple({(o.exc, str(o.why)) for o in res if o.kind == 'raise'}))


def run(prog, fi, given, budget, fixed=None, memo=None, ps=None):
    """(may_return, deliberate raises, crashes [(line, why)], vague) or None over budget.
    vague: a condition depending on a missing value could not be decided."""
    ps = none_params(fi) if ps is None else ps
    args = {p: Sym(vn=vnum('param', fi.fq, p), deps=frozenset([p]), kind=given_kind(fi, p)) if p in given else Const(None, deps=frozenset([p])) for p in ps}
    args.update(fixed or {})
    it = NoneInterp(prog, budget, memo)
    it.missing = frozenset(p for p in ps if p not in given and p not in (fixed or {}))
    try:
        res = it.entry(fi, args=args)
    except Budget:
        return None
    ret = any(o.kind == 'return' for o in res)
    delib = [o for o in res if o.kind == 'raise' and not crash(o)]
    crashes = {}
    for o in res:
        if o.kind == 'raise' and crash(o):
            crashes.setdefault((getattr(o.node, 'lineno', 0), str(o.why)), o)
    return ret, len(delib), sorted(crashes), it.vague


def crash(o):
    return o.exc == 'TypeError' and o.why != 'explicit'


_consts = {}


def strings(prog, fi, e):
    """Strings a comparator expression stands for (literals, module constants, collections of them)."""
    if isinstance(e, ast.Constant):
        return [e.value] if isinstance(e.value, str) else []
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return [v for x in e.elts for v in strings(prog, fi, x)]
    if isinstance(e, ast.Name) and prog is not None and e.id not in fi.params:
        key = (fi.module.name, e.id)
        if key not in _consts:
            from .interp import Interp, State
            it = Interp(prog)
            try:
                v = it.module_name(fi.module, e.id, State(), e)
            except Exception:
                v = None
            if isinstance(v, list):
                v = v[0][1] if v else None
            r = []
            if isinstance(v, Const) and isinstance(v.v, str):
                r = [v.v]
            elif isinstance(v, Lit) and isinstance(v.v, (list, tuple, set, frozenset, dict)):
                r = [x for x in v.v if isinstance(x, str)]
            _consts[key] = sorted(r)
        return _consts[key]
    return []


def options(fi, prog=None):
    """String values a parameter is compared with in the function itself: {parameter: [values]}."""
    out = {}
    for n in walk_scope(fi.node):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in fi.params and n.left.id not in ('self',):
            for op, r in zip(n.ops, n.comparators):
                vals = strings(prog, fi, r) if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) else []
                for v in vals:
                    if v not in out.setdefault(n.left.id, []):
                        out[n.left.id].append(v)
    return out
