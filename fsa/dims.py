"""Physical dimensions of every value of a function, from its documented units.

The value of an entry's documented argument has the documented dimension; a
documented calculation called on the way gives its documented dimension and
requires the documented ones of its arguments. A numeric literal has the
dimension recorded for it (function, value), which the writer of the table
finds by solving the equations of the unchanged tree; without a record it is
unknown. Unknown dimensions (None) never conflict.

A dimension is a dict base -> exponent; while writing the table the bases also
include ('c', value, where) for literals and ('P'|'R', function, name) for
doubts about a documented unit."""
from __future__ import annotations
import ast
import math

from . import docs
from .interp import Budget, State, is_num
from .scope import Calc, SKIP, is_api
from .values import Const, Fn, Inst, Sym, TupV, Ref, join_deps, vnum

TOL = 1e-6
SMALL = {float(i) for i in range(-12, 13)} | {0.5, -0.5, 0.25, 1.5, 2.5, 0.1, 10.0, 100.0, math.pi, 2 * math.pi, math.pi / 2, math.pi / 4}


# values which are physical constants wherever they occur
PRESET = {
    9.80665: {'m': 1.0, 's': -2.0}, 8.31446261815324: {'kg': 1.0, 'm': 2.0, 's': -2.0, 'mol': -1.0, 'K': -1.0},
    6.02214076e23: {'mol': -1.0}, 1.380649e-23: {'kg': 1.0, 'm': 2.0, 's': -2.0, 'K': -1.0}, 6.62607015e-34: {'kg': 1.0, 'm': 2.0, 's': -1.0},
    273.15: {'K': 1.0}, 101325.0: {'kg': 1.0, 'm': -1.0, 's': -2.0}, math.pi: {},
}


def clean(d):
    return {k: v for k, v in d.items() if abs(v) > TOL}


def mul(a, b, s=1.0):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + s * v
    return clean(r)


def power(a, n):
    return None if a is None else clean({k: v * n for k, v in a.items()})


def known(d):
    """No unknowns of the solver inside."""
    return d is not None and not any(isinstance(k, tuple) for k in d)


def fmt(d):
    if d is None:
        return '?'
    if not d:
        return '1'
    return '*'.join(f'{k}^{v:.4g}' if v != 1 else f'{k}' for k, v in sorted(d.items(), key=lambda t: str(t[0])))


SOLVERS = {'secant', 'newton', 'brenth', 'ridder', 'bisect', 'brent', 'halley', 'one_sided_secant', 'quad'}


def _entries(fi, sect):
    d = docs.parse(fi.cls.doc if fi.cls is not None and fi.name == '__init__' and fi.cls.doc else fi.doc) or {}
    out = []
    for s in sect:
        out += d.get(s, [])
    return out


_sig = {}


def signature(prog, fi):
    """(param -> dim|None, [(name, dim|None) of results]) from the documentation; None when undocumented."""
    r = _sig.get(fi)
    if r is None:
        ps, rs = {}, []
        for e in _entries(fi, ('Parameters', 'Other Parameters')):
            for nm in e.name.replace(' ', '').split(','):
                if nm in fi.params:
                    ps[nm] = floats(docs.safe_dims(e.unit)) if e.unit is not None else None
        for e in _entries(fi, ('Returns',)):
            rs.append((e.name, floats(docs.safe_dims(e.unit)) if e.unit is not None else None))
        r = _sig[fi] = (ps, rs)
    return r


def attributes(prog, ci):
    """attribute -> dim of the documented attributes (and constructor parameters) of a class."""
    out = {}
    for c in reversed(ci.mro(prog)):
        d = docs.parse(c.doc) or {}
        for e in d.get('Parameters', []) + d.get('Other Parameters', []) + d.get('Attributes', []):
            for nm in e.name.replace(' ', '').split(','):
                if e.unit is not None:
                    x = floats(docs.safe_dims(e.unit))
                    if nm in out and out[nm] != x:
                        x = None
                    out[nm] = x
    return {k: v for k, v in out.items() if v is not None}


def floats(d):
    return None if d is None else {k: float(v) for k, v in d.items()}


class DimInterp(Calc):
    """infer: literals and documented units carry solver unknowns; otherwise lits/wild say what they are."""

    def __init__(self, prog, fi, budget, lits=None, wild=(), infer=False, extra=None, sig=None):
        super().__init__(prog, budget=budget)
        self.root, self.infer, self.lits, self.wild = fi, infer, lits or {}, set(map(tuple, wild))
        self.eqs = []          # (dim, loc, rule, text)
        self.extra = extra or {}
        self.small = bool(self.lits) and not any(self.lits.get(v, {}) != {} for v in self.lits if v in SMALL)
        self.sigf = sig or signature
        self.seen_calls = 0
        self.ops = 0
        self.result_checks = 0

    # -- dimensions of values
    def lit(self, v, where=0):
        if isinstance(v, bool) or isinstance(v, complex):
            return None
        if v == 0 or math.isinf(v) or math.isnan(v):
            return None
        if self.infer:
            r = PRESET.get(float(v))
            return r if r is not None else {('c', float(v), where): 1.0}
        v = float(v)
        if v in self.lits:
            return self.lits[v]
        r = PRESET.get(v)
        if r is not None:
            return r
        return {} if self.small and v in SMALL else None

    def e_Name(self, e, st):
        r = super().e_Name(e, st)
        if r and isinstance(r[0][1], Const) and self.find_frame(e.id, st) is None and is_num(r[0][1].v):
            return [(r[0][0], Const(r[0][1].v, r[0][1].deps, self.lit(r[0][1].v, e.id)))]      # a module constant: its value alone says what it is
        return r

    def dim(self, v, st=None):
        if isinstance(v, Const):
            if not is_num(v.v) or isinstance(v.v, (bool, complex)):
                return None
            if v.v == 0 or v.v != v.v or v.v in (math.inf, -math.inf):
                return None
            return v.dim        # a value of a table or a default has no known dimension
        return getattr(v, 'dim', None)

    def doubt(self, kind, fi, name, d):
        """Documented dimension d, unless it is recorded as unreliable here."""
        if d is None:
            return None
        key = (kind, fi.fq, name)
        if self.infer:
            return mul(d, {key: 1.0})
        return None if key in self.wild else d

    def e_Constant(self, e, st):
        if is_num(e.value) and not isinstance(e.value, bool):
            return [(st, Const(e.value, dim=self.lit(e.value, (getattr(e, 'lineno', 0), getattr(e, 'col_offset', 0)))))]
        return super().e_Constant(e, st)

    def param_value(self, fi, p):
        v = super().param_value(fi, p)
        if isinstance(v, Sym) and v.kind != 'str' and v.kind != 'bool':
            d = self.sigf(self.prog, fi)[0].get(p)
            v.dim = self.doubt('P', fi, p, d)
        return v

    # -- equations
    def where(self, node):
        fi = self.stack[-1] if self.stack else self.root
        return f'{fi.module.rel}:{getattr(node, "lineno", 0)}'

    def equate(self, a, b, node, rule, text=''):
        if a is None or b is None:
            return
        d = mul(a, b, -1.0)
        self.ops += 1
        if not d:
            return
        self.eqs.append((d, self.where(node), rule, f'{text or ast.unparse(node)[:90]}: {fmt(a)} with {fmt(b)}'))

    def pick(self, a, b):
        if a is None or (b is not None and not known(a) and known(b)):
            return b
        return a

    def dim_binop(self, sym, x, y, st, node):
        a, b = self.dim(x), self.dim(y)
        if sym == '*':
            return mul(a, b)
        if sym in ('/', '//'):
            if isinstance(x, Const) and x.v == 0:
                return None
            return mul(a, b, -1.0)
        if sym in '+-%':
            self.equate(a, b, node, 'unlike-terms')
            return self.pick(a, b)
        if sym == '**':
            return self.pow(x, y, node)
        return None

    def pow(self, x, y, node):
        a, b = self.dim(x), self.dim(y)
        if not isinstance(y, Const):
            self.equate(b, {}, node, 'dimensional-exponent')
        if a is None:
            return None
        if isinstance(y, Const) and is_num(y.v) and not isinstance(y.v, complex):
            return power(a, float(y.v))
        if not a:
            return {}
        if not known(a):
            us = [k for k in a if isinstance(k, tuple) and k[0] == 'c']
            if any(not isinstance(k, tuple) for k in a) and all(priority(k) for k in us):
                return None
            self.equate(a, {}, node, 'dimensional-base')
            return {}
        if a and isinstance(x, Const):
            return None
        return None

    def const_binop_val(self, sym, x, y, r, st, node):
        d = None
        if sym in ('*', '/', '**'):
            d = self.dim_binop(sym, x, y, st, node)
        return Const(r, x.deps | y.deps, d)

    def dim_math(self, m, args, st, node):
        if not args:
            return None
        ds = [self.dim(x) for x in args]
        a = ds[0]
        if m == 'sqrt':
            return power(a, 0.5)
        if m == 'cbrt':
            return power(a, 1 / 3)
        if m == 'pow' and len(args) == 2:
            return self.pow(args[0], args[1], node)
        if m in ('fabs', 'floor', 'ceil', 'trunc', 'copysign'):
            return a
        if m in ('hypot', 'fmod') and len(args) == 2:
            self.equate(ds[0], ds[1], node, 'unlike-terms')
            return self.pick(ds[0], ds[1])
        if m == 'atan2' and len(args) == 2:
            self.equate(ds[0], ds[1], node, 'unlike-terms')
            return {}
        if m == 'radians':
            self.equate(a, {'deg': 1.0}, node, 'dimensional-function')
            return {}
        if m == 'degrees':
            self.equate(a, {}, node, 'dimensional-function')
            return {'deg': 1.0}
        if m in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1', 'log', 'log10', 'log1p',
                 'log2', 'erf', 'erfc', 'gamma', 'lgamma'):
            self.equate(a, {}, node, 'dimensional-function')
            return {}
        return None

    def const_math(self, m, args, r):
        d = None
        if m in ('sqrt', 'fabs') and self.dim(args[0]) is not None:
            d = power(self.dim(args[0]), 0.5 if m == 'sqrt' else 1.0)
        return Const(r, join_deps(args), d)

    def dim_same(self, items, st, node, what):
        d = None
        for x in items:
            e = self.dim(x)
            self.equate(d, e, node, 'unlike-terms')
            d = self.pick(d, e)
        return d

    def common_dim(self, its):
        ds = [self.dim(x) for x in its]
        return ds[0] if ds and all(d == ds[0] for d in ds) else None

    def dim_join(self, x, y, st):
        if isinstance(x, Const) and (x.v is None or is_num(x.v) and not x.v):
            return getattr(y, 'dim', None) if not isinstance(y, Const) else self.dim(y)
        if isinstance(y, Const) and (y.v is None or is_num(y.v) and not y.v):
            return getattr(x, 'dim', None) if not isinstance(x, Const) else self.dim(x)
        a, b = self.dim(x), self.dim(y)
        return a if a == b else None

    def havoc_dim(self, old):
        return self.dim(old)

    def loop_dim(self, old, vals):
        a = getattr(old, 'dim', None)
        if a is None:
            return None
        for v in vals:
            if isinstance(v, Const) and (v.v is None or is_num(v.v) and not v.v):
                continue
            b = self.dim(v)
            if b is None or mul(a, b, -1.0):
                return None
        return a

    def cmp_order(self, o, l, r, st, node):
        self.equate(self.dim(l), self.dim(r), node, 'unlike-compared')
        return super().cmp_order(o, l, r, st, node)

    def cmp_eq(self, l, r, st, node):
        if not (isinstance(l, Const) and not is_num(l.v)) and not (isinstance(r, Const) and not is_num(r.v)):
            self.equate(self.dim(l), self.dim(r), node, 'unlike-compared')
        return super().cmp_eq(l, r, st, node)

    # -- calls
    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        deps = join_deps([self.deref_deep(a, st) for a in args]) | join_deps([self.deref_deep(a, st) for a in kwargs.values()])
        r = self.numerics(fi, bound, args, st, node, deps)
        if r is not None:
            return r
        v = self.opaque_shape(fi, deps)
        if bound is None or fi.module.name.startswith(('fluids.numerics', 'fluids.optional')) or fi.parent is not None:
            return [(st, v)]
        ps, rs = self.sigf(self.prog, fi)
        self.seen_calls += 1
        for p, a in bound.items():
            if ps.get(p) is not None and isinstance(a, (Sym, Const)):
                x = self.dim(a)
                if x is not None:
                    self.equate(x, self.doubt('P', fi, p, ps[p]), node, 'wrong-argument', f'argument {p} of {fi.name}')
        if isinstance(v, TupV):
            if len(rs) == len(v.items):
                for i, ((n, d), x) in enumerate(zip(rs, v.items)):
                    x.dim = self.doubt('R', fi, i, d)
        elif isinstance(v, Sym) and len(rs) == 1:
            v.dim = self.doubt('R', fi, 0, rs[0][1])
        return [(st, v)]

    def numerics(self, fi, bound, args, st, node, deps):
        if not fi.module.name.startswith('fluids.numerics'):
            return None
        n = fi.name
        if n in ('lambertw', 'erf', 'gamma', 'exp', 'log', 'sin', 'cos', 'tanh', 'atan') and args:
            self.equate(self.dim(args[0]), {}, node, 'dimensional-function')
            return [(st, Sym(deps=deps, kind='num', dim={}))]
        if n in SOLVERS and bound and len(args) > 1:
            f, xs = args[0], [x for x in args[1:3] if isinstance(x, (Sym, Const))]
            if n not in ('brenth', 'ridder', 'bisect', 'brent', 'quad', 'fixed_quad_Gauss_Kronrod'):
                xs = xs[:1]
            d = None
            for x in xs:
                self.equate(d, self.dim(x), node, 'unlike-terms', f'range of {n}')
                d = self.pick(d, self.dim(x))
            y = self.evaluate(f, d, bound.get('args'), st, node)
            if n == 'quad':
                return [(st, TupV([Sym(deps=deps, kind='num', dim=mul(y, d)), Sym(deps=deps, kind='num')]))]
            return [(st, Sym(deps=deps, kind='num', dim=d))]
        return None

    def evaluate(self, f, d, extra, st, node):
        """Dimension of f(x, *extra) for x of dimension d; the state is not changed."""
        if not isinstance(f, Fn) or not f.fi.pos or len(self.stack) > 12:
            return None
        pos = f.fi.pos[(1 if f.self_ is not None else 0):]
        ex = list(extra.items) if isinstance(extra, TupV) else []
        args = [Sym(kind='num', dim=d)] + ex
        args += [Sym(kind='any') for p in pos[len(args):] if p not in f.fi.defaults]
        save, self.raised = self.raised, []
        try:
            res = self.call_fn(f, args, {}, st.copy(), node)
        finally:
            self.raised = save
        ds = [self.dim(v) for _, v in res if isinstance(v, (Sym, Const))]
        ds = [x for x in ds if x is not None]
        return ds[0] if ds and all(x == ds[0] for x in ds) else None

    # -- methods
    def instance(self, st):
        ci = self.root.cls
        at = attributes(self.prog, ci)
        self.attr_dims = at
        if self.root.name == '__init__':
            return self.alloc(Inst(ci, {}, True), st)
        cv = {}
        for k, d in at.items():
            if ci.find_method(self.prog, k) is None:
                cv[k] = Sym(vn=vnum('attr', ci.fq, k), kind='any', dim=self.doubt('A', ci, k, d))
        return self.alloc(Inst(ci, cv, True), st)

    def attributes_set(self, ref, res):
        for o in res:
            if o.kind != 'return':
                continue
            h = o.st.heap.get(ref.id)
            if not isinstance(h, Inst):
                continue
            for k, v in h.attrs.items():
                d = self.attr_dims.get(k)
                if d is not None and isinstance(v, (Sym, Const)) and self.dim(v) is not None:
                    self.stack = [self.root]
                    self.equate(self.dim(v), self.doubt('A', self.root.cls, k, d), o.node, 'wrong-attribute', f'attribute {k} after {self.root.name}')

    # -- result
    def result(self, res):
        ps, rs = self.sigf(self.prog, self.root)
        for o in res:
            if o.kind != 'return' or o.why:
                continue
            v = self.deref(o.val, o.st) if isinstance(o.val, Ref) else o.val
            vals = None
            if isinstance(v, TupV):
                vals = list(v.items)
            elif isinstance(v, (Sym, Const)) and len(rs) == 1:
                vals = [v]
            if vals is None or len(vals) != len(rs):
                continue
            for i, ((n, d), x) in enumerate(zip(rs, vals)):
                if d is None or not isinstance(x, (Sym, Const)):
                    continue
                if isinstance(x, Const) and not is_num(x.v):
                    continue
                a = self.dim(x)
                if a is not None:
                    self.result_checks += 1
                    self.stack = [self.root]
                    self.equate(a, self.doubt('R', self.root, i, d), o.node, 'wrong-result', f'result {n} of {self.root.name}')


def run(prog, fi, budget=20000, **k):
    it = DimInterp(prog, fi, budget, **k)
    st, args, ref = State(), {}, None
    if fi.cls is not None and fi.pos and not {'staticmethod', 'classmethod'} & set(fi.decorator_names()):
        ref = args[fi.pos[0]] = it.instance(st)
    try:
        res = it.entry(fi, args=args, st=st)
    except Budget:
        return it, None
    it.result(res)
    if ref is not None:
        it.attributes_set(ref, res)
    return it, res


def functions(prog):
    """Documented calculations and methods of the classes with documented attributes."""
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda:
                continue
            if f.cls is None:
                if is_api(prog, f) and f.doc:
                    yield f
            elif attributes(prog, f.cls):
                yield f


def infer(prog, f, budget):
    """Record for the table: what the literals and doubted units of f are on this tree; None over budget."""
    it, res = run(prog, f, budget, infer=True)
    if res is None:
        return None
    sol, bad = solve(it.eqs, f.fq)
    occ = {}
    for d, *_ in it.eqs:
        for k in d:
            if isinstance(k, tuple) and k[0] == 'c':
                occ.setdefault(k[1], []).append(sol.get(k, {}))
    lits = {}
    for v, ds in occ.items():
        lits[v] = {k: round(x, 9) for k, x in ds[0].items()} if all(not mul(ds[0], d, -1.0) for d in ds) else None
    wild = sorted(k for k in sol if k[0] != 'c')
    return lits, wild, sol


# ---- solving, only for writing the table ---------------------------------
def priority(k):
    if isinstance(k, tuple) and k[0] == 'c':
        return 1 if k[1] in SMALL or -k[1] in SMALL else 0
    return 3 if k[0] == 'R' else 2


def solve(eqs, own):
    """Assignment of dimensions to unknowns; unknowns absent are dimensionless (no doubt)."""
    rows = []
    seen = set()
    for d, *_ in eqs:
        key = tuple(sorted((str(k), round(v, 6)) for k, v in d.items()))
        if key not in seen:
            seen.add(key)
            rows.append(dict(d))
    # prefer equations between a dimensional quantity and few unknowns
    rows.sort(key=lambda r: (sum(isinstance(k, tuple) for k in r), -sum(not isinstance(k, tuple) for k in r)))
    piv = {}
    bad = []

    def pr(k):
        p = priority(k)
        if k[0] in 'PRA' and k[1] == own:
            p += 2
        return p
    for r in rows:
        for k in list(r):
            if k in piv and k in r:
                c = r[k]
                for kk, vv in piv[k].items():
                    r[kk] = r.get(kk, 0.0) - c * vv
        r = clean(r)
        us = [k for k in r if isinstance(k, tuple)]
        if not us:
            if r:
                bad.append(r)
            continue
        if not any(not isinstance(k, tuple) for k in r) and all(k not in piv for k in us) and False:
            continue
        k = min(us, key=lambda k: (pr(k), str(k)))
        c = r[k]
        r = {kk: vv / c for kk, vv in r.items()}
        for q in list(piv):
            if k in piv[q]:
                c = piv[q][k]
                n = dict(piv[q])
                for kk, vv in r.items():
                    n[kk] = n.get(kk, 0.0) - c * vv
                piv[q] = clean(n)
        piv[k] = r
    out = {}
    for k, r in piv.items():
        base = {kk: -vv for kk, vv in r.items() if not isinstance(kk, tuple)}
        if base:
            out[k] = base
    return out, bad
