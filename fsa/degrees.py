"""Degree of every value in every argument: the exponent k when the value is proportional to the k-th power of the argument.

A degree map has one entry per argument the value depends on: a number, MIX (certainly no power law: terms of
different degree were added, or a transcendental function taken) or UNK. Absent arguments have degree 0."""
from __future__ import annotations
import ast
import math

from .interp import Budget, State, is_num
from .scope import Calc, SKIP, is_api
from .values import Const, Sym, TupV, Ref, Inst, join_deps, vnum

MIX, UNK = 'mixed', 'unknown'
TOL = 1e-6


def op_mul(x, y, s):
    if x == UNK or y == UNK:
        return UNK
    if x == MIX or y == MIX:
        return UNK if x == y else MIX
    return x + s * y


def op_add(x, y):
    if x == UNK or y == UNK:
        return UNK
    if x == MIX or y == MIX:
        return UNK if x == y else MIX
    return x if abs(x - y) < TOL else MIX


def clean(d):
    return {k: v for k, v in d.items() if isinstance(v, str) or abs(v) > TOL}


def zip_(f, a, b):
    return clean({k: f(a.get(k, 0.0), b.get(k, 0.0)) for k in {**a, **b}})


def zero(v):
    return isinstance(v, Const) and is_num(v.v) and (v.v == 0 or v.v != v.v or v.v in (math.inf, -math.inf))


class DegInterp(Calc):
    def __init__(self, prog, fi, budget, table):
        super().__init__(prog, budget=budget)
        self.root, self.table = fi, table
        self.used = 0

    def deg(self, v, st):
        if isinstance(v, Const):
            return v.dim or {}
        d = getattr(v, 'dim', None)
        if d is not None:
            return d
        return {p: UNK for p in self.deref_deep(v, st).deps if isinstance(p, str)}

    def param_value(self, fi, p):
        v = super().param_value(fi, p)
        v.dim = {p: 1.0}
        return v

    def dim_binop(self, sym, x, y, st, node):
        a, b = self.deg(x, st), self.deg(y, st)
        if sym == '*':
            return zip_(lambda p, q: op_mul(p, q, 1.0), a, b)
        if sym == '/':
            return zip_(lambda p, q: op_mul(p, q, -1.0), a, b)
        if sym in '+-':
            if zero(x):
                return b
            if zero(y):
                return a
            return zip_(op_add, a, b)
        if sym == '**':
            return self.pow(a, b, y)
        return {k: UNK for k in {**a, **b}}

    def pow(self, a, b, y):
        if isinstance(y, Const) and is_num(y.v) and not isinstance(y.v, complex):
            c = float(y.v)
            return clean({k: v if isinstance(v, str) else v * c for k, v in a.items()})
        return {**{k: UNK for k in a}, **{k: (UNK if k in a or v == UNK else MIX) for k, v in b.items()}}

    def const_binop_val(self, sym, x, y, r, st, node):
        return Const(r, x.deps | y.deps)

    def dim_math(self, m, args, st, node):
        if not args:
            return {}
        a = self.deg(args[0], st)
        if m in ('sqrt', 'cbrt'):
            c = 0.5 if m == 'sqrt' else 1 / 3
            return clean({k: v if isinstance(v, str) else v * c for k, v in a.items()})
        if m == 'pow' and len(args) == 2:
            return self.pow(a, self.deg(args[1], st), args[1])
        if m in ('fabs',):
            return a
        if m in ('radians', 'degrees'):
            return a
        if m == 'hypot' and len(args) == 2:
            return zip_(op_add, a, self.deg(args[1], st))
        ds = {}
        for x in args:
            ds.update(self.deg(x, st))
        if m in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'exp', 'expm1', 'atan', 'erf', 'asin', 'acos') and len(args) == 1:
            inv = m in ('atan', 'asin', 'acos')
            return {k: UNK if v == UNK or (inv and v == MIX) else MIX for k, v in ds.items()}
        return {k: UNK for k in ds}

    def dim_same(self, items, st, node, what):
        d = None
        for x in items:
            if zero(x):
                continue
            e = self.deg(x, st)
            if d is None:
                d = e
            elif what == 'sum':
                d = zip_(op_add, d, e)
            else:
                d = zip_(lambda p, q: p if p == q else UNK, d, e)
        return d if d is not None else {}

    def common_dim(self, its):
        ds = [getattr(x, 'dim', None) for x in its]
        return ds[0] if ds and all(d == ds[0] for d in ds) else None

    def dim_join(self, x, y, st):
        a, b = self.deg(x, st), self.deg(y, st)
        if isinstance(x, Const) and x.v is None or zero(x):
            return b
        if isinstance(y, Const) and y.v is None or zero(y):
            return a
        return zip_(lambda p, q: p if p == q else UNK, a, b)

    def havoc_dim(self, old):
        if isinstance(old, Const):
            return None if zero(old) else {}
        return getattr(old, 'dim', None)

    def loop_dim(self, old, vals):
        a = getattr(old, 'dim', None)
        if a is None:
            return None
        for v in vals:
            b = getattr(v, 'dim', None)
            if isinstance(v, Const):
                b = {}
            if b is None:
                return None
            a = zip_(lambda p, q: p if p == q else UNK, a, b)
        return a

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        deps = join_deps([self.deref_deep(a, st) for a in args]) | join_deps([self.deref_deep(a, st) for a in kwargs.values()])
        v = self.opaque_shape(fi, deps)
        t = self.table.get(fi.fq)
        if bound is None or t is None:
            return [(st, v)]
        self.used += 1
        outs = v.items if isinstance(v, TupV) else [v]
        for i, x in enumerate(outs):
            law = t.get(str(i), {})
            pat = self.omitted(fi, bound, st)
            k = {p: e for p in bound for e in [expected(law, pat, p)] if e is not None}
            d = {}
            for p, a in bound.items():
                da = self.deg(a, st)
                if not da:
                    continue
                if p in k:
                    d = zip_(lambda q, r: op_mul(q, r, 1.0), d, {q: (r if isinstance(r, str) else r * k[p]) for q, r in da.items()})
                else:
                    d = {**d, **{q: UNK for q in da}}
            x.dim = clean(d)
        return [(st, v)]

    def omitted(self, fi, bound, st):
        """The omitted arguments of a call, or a pattern no law has when it is not decided."""
        out = []
        for p in nullable(fi):
            v = bound.get(p)
            if isinstance(v, Const):
                if v.v is None:
                    out.append(p)
            elif not (v is not None and self.not_none(v, st)):
                return '?'
        return given_pattern(fi, out)

    def getitem(self, o, i, st, node):
        r = super().getitem(o, i, st, node)
        if isinstance(o, Sym) and o.dim:
            for _, v in r:
                if isinstance(v, Sym):
                    v.dim = {k: UNK for k in self.deg(o, st)}
        return r


def absent(it, fi, p, st):
    """p was None on this path."""
    f = st.facts.get(vnum('param', fi.fq, p))
    return f is not None and f.eq is None


def run(prog, fi, budget, table):
    """([{result index: degree map} per return path], interpreter) or (None, it) over budget."""
    it = DegInterp(prog, fi, budget, table)
    try:
        res = it.entry(fi)
    except Budget:
        return None, it
    out = []
    for o in res:
        if o.kind != 'return' or o.why:
            continue
        v = it.deref(o.val, o.st) if isinstance(o.val, Ref) else o.val
        vals = list(v.items) if isinstance(v, TupV) else [v]
        row = {}
        for i, x in enumerate(vals):
            if isinstance(x, Const) and (x.v is None or not is_num(x.v) or zero(x)):
                continue
            if isinstance(x, (Sym, Const)):
                row[str(i)] = it.deg(x, o.st)
        out.append((row, o.node, frozenset(p for p in fi.params if absent(it, fi, p, o.st))))
    return out, it


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for f in m.functions.values():
            if is_api(prog, f) and f.pos:
                yield f


def given_pattern(fi, none):
    return ','.join(p for p in fi.params if p in none and p in nullable(fi))


def nullable(fi):
    return [p for p, d in fi.defaults.items() if isinstance(d, ast.Constant) and d.value is None]


def laws(fi, rows):
    """{result index: {'*' or omitted arguments: {param: exponent}}} where every path gives the same decided non-zero degree."""
    out = {}
    for i in sorted({i for r, _, _ in rows for i in r}):
        pats = {}
        for r, _, none in rows:
            if i in r:
                pats.setdefault(given_pattern(fi, none), []).append((r[i], none))
        per = {pat: uniform(fi, rs) for pat, rs in pats.items()}
        allr = uniform(fi, [x for rs in pats.values() for x in rs])
        o = {}
        if any(allr.values()):
            o['*'] = {p: v for p, v in allr.items() if v}
        for pat, d in per.items():
            d = {p: v for p, v in d.items() if v and p not in allr}
            if d:
                o[pat] = d
        if o:
            out[i] = o
    return out


def uniform(fi, rs):
    d = {}
    for p in fi.params:
        vs = [r.get(p, 0.0) for r, none in rs if p not in none]
        if vs and all(not isinstance(v, str) for v in vs) and max(vs) - min(vs) < TOL:
            d[p] = round(vs[0], 9)
    return d


def expected(law, pat, p):
    """Recorded exponent of p for a row which omits pat, or None."""
    for k in (pat, '*'):
        if p in law.get(k, ()):
            return law[k][p]
    return None


def degree_sets(fi, rows):
    """{result index: {'*' or omitted arguments: {param: [degrees]}}}: every degree an argument has on some path,
    where it is decided on all of them. MIX is a degree: the result is no power law in the argument."""
    out = {}
    for i in sorted({i for r, _, _ in rows for i in r}):
        pats = {'*': []}
        for r, _, none in rows:
            if i in r:
                pats['*'].append((r[i], none))
                pats.setdefault(given_pattern(fi, none), []).append((r[i], none))
        o = {}
        for pat, rs in pats.items():
            d = {}
            for p in fi.params:
                vs = {0.0 if v == 0 else v if isinstance(v, str) else round(v, 6) for r, none in rs if p not in none for v in [r.get(p, 0.0)]}
                if vs and UNK not in vs and vs != {0.0} and (pat == '*' or sorted(vs, key=str) != o.get('*', {}).get(p)):
                    d[p] = sorted(vs, key=str)
            if d:
                o[pat] = d
        if o:
            out[i] = o
    return out


def allowed(sets, pat, p):
    for k in (pat, '*'):
        if p in sets.get(k, ()):
            return sets[k][p]
    return None


def build(prog, budget=20000):
    """(laws, degree sets) of every function, to a fixed point over calls."""
    from .pool import pmap
    fs = list(functions(prog))
    tab, sets = {}, {}

    def one(f):
        r = run(prog, f, budget, tab)[0]
        return None if r is None else (laws(f, r), degree_sets(f, r))
    for _ in range(5):
        rs = pmap(one, fs)
        new = {f.fq: r[0] for f, r in zip(fs, rs) if r and r[0]}
        sets = {f.fq: r[1] for f, r in zip(fs, rs) if r and r[1]}
        if new == tab:
            break
        tab = new
    return tab, sets
