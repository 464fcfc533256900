"""Formulae of return values: the interpreter's value numbers read back as normal forms."""
from __future__ import annotations
import ast
import math

from . import values
from .interp import Budget, State, is_num
from .nf import CAS, NF, Undecided
from .scope import Calc, is_api
from .values import Const, DictV, Ext, Fn, Inst, ListV, Lit, Ref, Sym, TupV, join_deps, vnum

INLINE = ('fluids.core.', 'fluids.friction.friction_laminar', 'fluids.geometry.A_')
SOFT, HARD = 128, 400
PURE = {'int', 'sum', 'len', 'round', 'sorted', 'range', 'float', 'complex', 'any', 'all', 'pow', 'divmod', 'abs', 'str', 'bool', 'enumerate', 'zip', 'reversed'}
PURE_METHODS = {'index', 'count', 'split', 'strip', 'lower', 'upper', 'sum', 'mean', 'max', 'min', 'get', 'format', 'replace', 'conjugate', 'tolist'}
MATHS = {'cbrt': 'cbrt', 'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'erf': 'erf', 'gamma': 'gamma'}


class SymInterp(Calc):
    """Values keep value numbers through calls of public functions; listed ones are inlined."""

    def __init__(self, prog, budget, inline=(), opaque=()):
        super().__init__(prog, budget=budget)
        self.soft, self.hard = SOFT, HARD
        self.inline, self.opaque = tuple(inline), frozenset(opaque)
        self.inner, self.joins, self.comp, self.pair = 0, 0, 0, None
        self.merges, self.opaque_tests = 0, set()   # joins of paths; tests which leave no fact
        self.limits = {}            # (left value number or constant, right, side) -> states in which it splits

    def join_into(self, a, b):
        super().join_into(a, b)
        self.merges += 1
        self.pair = None

    def opaque_split(self, st, deps, node):
        self.opaque_tests.add(id(node))
        return super().opaque_split(st, deps, node)

    def truth(self, v, st, node):
        res = super().truth(v, st, node)
        if len(res) == 2 and not isinstance(v, Sym):
            self.opaque_tests.add(id(node))
        return res

    def join_val(self, x, y, a, b):
        v = super().join_val(x, y, a, b)
        if v is x or not isinstance(v, Sym) or isinstance(x, Sym) and v.vn == x.vn:
            return v
        kx, ky = self.vnkey(x), self.vnkey(y)
        if kx is not None and ky is not None:
            if self.pair is None or self.pair[0] is not a or self.pair[1] is not b:
                self.pair = (a, b)
                self.joins += 1
            v.vn = vnum('phi', self.joins, kx, ky)
        return v

    def cmp_order(self, o, l, r, st, node):
        before = dict(st.facts)
        res = super().cmp_order(o, l, r, st, node)
        if len(res) == 2 and not self.inner and o != '==':
            kl, kr = self.vnkey(l), self.vnkey(r)
            if kl is not None and kr is not None and (kl[0] == 's' or kr[0] == 's'):
                if kl[0] == 'c' or kr[0] == 's' and kl[1] > kr[1]:
                    kl, kr, o = kr, kl, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[o]
                # the side of left - right the boundary belongs to
                self.limits.setdefault((kl, kr, '>=' if o in ('<', '>=') else '>'), []).append((before, getattr(node, 'lineno', 0)))
        return res

    def call(self, f, args, kwargs, st, node, star=False):
        name = None
        if isinstance(f, Ext):
            base, _, m = f.name.rpartition('.')
            if base == 'builtins' and m in PURE or base.startswith(('math', 'cmath', 'scipy', 'numpy')) and 'random' not in base:
                name = m
            elif base == 'method' and m in PURE_METHODS:
                name = m
        elif isinstance(f, Sym) and (key_of(f.vn) or ('',))[0] == 'modvar':
            name = key_of(f.vn)[-1]
        if name is None or star:
            return super().call(f, args, kwargs, st, node, star)
        full = ([f.self_] if isinstance(f, Ext) and f.name.startswith('method.') else []) + list(args)
        ks = [self.arg_key(a, st) for a in full] + [(k, self.arg_key(a, st)) for k, a in sorted(kwargs.items())]
        ok = not any(k is None or isinstance(k, tuple) and len(k) == 2 and k[1] is None and k[0] in kwargs for k in ks)
        res = super().call(f, args, kwargs, st, node, star)
        if ok:
            for _, v in res:
                if isinstance(v, Sym) and key_of(v.vn) is None and v.tag is None:
                    v.vn = vnum('x', name, *ks)
        return res

    def b_sum(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if len(args) == 1 and not kwargs else None
        if not it or len(it) > 8 or not all(self.is_numeric(x) or isinstance(x, Sym) and x.tag is None for x in it):
            return super().b_sum(args, kwargs, st, node, deps)
        res = [(st, it[0])]
        for x in it[1:]:
            res = [r for a, v in res for r in self.binop(ast.Add(), v, x, a, node)]
        return res

    def getattr(self, v, attr, st, node):
        h = self.deref(v, st)
        if isinstance(h, Inst) and h.open and h.cls is not None and attr not in h.attrs and h.cls.find_method(self.prog, attr) is None \
                and not h.cls.find_class_var(self.prog, attr) and not attr.startswith('__'):
            return [(st, Sym(vn=vnum('selfattr', h.cls.name, attr), deps=h.deps))]
        return super().getattr(v, attr, st, node)

    def _comp(self, e, st, build):
        self.comp += 1
        try:
            return super()._comp(e, st, build)
        finally:
            self.comp -= 1

    def iter_elem(self, v, st):
        x = super().iter_elem(v, st)
        if self.comp and isinstance(x, Sym) and key_of(x.vn) is None:
            k = self.arg_key(v, st)
            if k is not None:
                x = Sym(vnum('elem', self.comp, k), deps=x.deps, kind=x.kind, dim=x.dim)
        return x

    def policy(self, fn, bound, st, node):
        fi = fn.fi
        if is_api(self.prog, fi) and fi.fq not in self.opaque and fi.fq.startswith(INLINE + self.inline):
            return 'inline'
        if fi.module.name.startswith('fluids.numerics') and fi.cls is None and (fi.parent is not None or fi.name.startswith('_')):
            return 'inline'
        return super().policy(fn, bound, st, node)

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        if fi.fq in ('fluids.numerics.horner', 'fluids.numerics.polynomial_evaluation.horner') or fi.name == 'horner':
            r = self.horner(args, st, node)
            if r is not None:
                return r
        deps = join_deps([self.deref_deep(a, st) for a in args]) | join_deps([self.deref_deep(a, st) for a in kwargs.values()])
        v = self.opaque_shape(fi, deps)
        key = self.call_key(fi, bound, args, st)
        if key is not None:
            outs = v.items if isinstance(v, TupV) else [v]
            for i, x in enumerate(outs):
                x.vn = vnum('call', fi.fq, i, key)
        return [(st, v)]

    def call_key(self, fi, bound, args, st):
        if bound is None:
            return None
        key = []
        for p in fi.params:
            v = bound.get(p)
            if v is None:
                continue
            k = self.arg_key(v, st)
            if k is None:
                return None
            key.append((p, k))
        return tuple(key)

    def arg_key(self, v, st):
        k = self.vnkey(v)
        if k is not None:
            return k
        if isinstance(v, Const):
            return ('k', v.v)
        d = self.deref(v, st) if isinstance(v, Ref) else v
        if isinstance(d, Lit):
            return ('lit', repr(d.v)) if len(repr(d.v)) < 20000 else None
        if isinstance(d, (TupV, ListV)) and d.items is not None:
            ks = [self.arg_key(x, st) for x in d.items]
            return None if None in ks else ('t',) + tuple(ks)
        if isinstance(d, ListV) and d.items is None and d.elem is not None:
            k = self.arg_key(d.elem, st)
            return None if k is None or k[0] == 's' and key_of(k[1]) is None else ('le', k)
        if isinstance(d, DictV) and d.complete and not d.items:
            return ('t',)
        if isinstance(d, Fn):
            return self.fn_key(d, st)
        if isinstance(d, Ext):
            return ('ext', d.name)
        return None

    def fn_key(self, fn, st):
        """A function value by what it returns for fresh arguments."""
        fi = fn.fi
        if is_api(self.prog, fi):
            return ('api', fi.fq)
        if fi.vararg or fi.kwarg or self.inner > 2:
            return None
        skip = 1 if fn.self_ is not None else 0
        free = [p for p in fi.pos[skip + (len(fn.partial[0]) if fn.partial else 0):] if not (fn.partial and p in fn.partial[1])]
        args = [Sym(vnum('arg', self.inner, i), kind='num') for i in range(len(free))]
        raised, self.inner, first = self.raised, self.inner + 1, self.joins
        self.raised = []
        try:
            res = self.call_fn(fn, args, {}, st.copy(), fi.node)
        finally:
            self.raised, self.inner = raised, self.inner - 1
        if self.joins != first:     # which alternatives are met depends on where paths were joined
            return None
        ks = []
        for s2, v in res:
            k = self.arg_key(v, s2)
            if k is None:
                return None
            if k not in ks:
                ks.append(k)
        return ('fn', first) + tuple(sorted(ks, key=repr)) if 0 < len(ks) < 9 else None

    def horner(self, args, st, node):
        if len(args) != 2 or not isinstance(args[1], (Sym, Const)):
            return None
        it = self.iter_items(args[0], st)
        if it is None or not it or len(it) > 40 or not all(isinstance(x, (Sym, Const)) for x in it):
            return None
        x = self.vnkey(args[1])
        tot = ('c', 0.0)
        for c in it:
            k = self.vnkey(c)
            if k is None or x is None:
                return None
            tot = ('s', vnum('b', '+', ('s', vnum('b', '*', tot, x)), k))
        deps = join_deps(it) | args[1].deps
        return [(st, Sym(tot[1], deps=deps, kind='num'))]


_inverse = {}


def key_of(vn):
    if len(_inverse) < len(values._vn):
        for k, n in list(values._vn.items())[len(_inverse):]:
            _inverse[n] = k
    return _inverse.get(vn)


class Reader:
    """Normal forms of value numbers; syms(vn key of a parameter) chooses what a parameter stands for."""

    def __init__(self, cas, params):
        self.cas, self.params, self.memo = cas, params, {}
        self.opaque = set()     # value numbers which have no formula
        self.calls = set()      # names of uninterpreted calls

    def value(self, v):
        if isinstance(v, Const):
            if not is_num(v.v) or isinstance(v.v, (bool, complex)):
                raise Undecided('not a number')
            return self.cas.num(v.v)
        if isinstance(v, Sym):
            return self.vn(v.vn)
        raise Undecided('not a scalar')

    def key(self, k):
        if k[0] == 's':
            return self.vn(k[1])
        if k[0] == 'c':
            if isinstance(k[1], complex):
                raise Undecided('complex')
            return self.cas.num(k[1])
        raise Undecided(k[0])

    def vn(self, n):
        r = self.memo.get(n)
        if r is None:
            try:
                r = self._vn(n)
            except Undecided as e:
                r = e
            except RecursionError:
                r = Undecided('too deep')
            self.memo[n] = r
        if isinstance(r, Undecided):
            raise r
        return r

    def tag(self, k):
        """Argument of an uninterpreted call: a normal form or a hashable tag."""
        if k[0] in ('s', 'c'):
            return self.key(k)
        if k[0] == 't':
            return ('t',) + tuple(x if not isinstance(x, tuple) or x[0] not in ('s',) else ('s', x[1]) for x in k[1:])
        return k

    def _vn(self, n):
        cas = self.cas
        k = key_of(n)
        if k is None:
            self.opaque.add(n)
            return cas.sym(('?', n))
        op = k[0]
        if op == 'param':
            v = self.params.get(k[1:]) if isinstance(self.params, dict) else self.params(k)
            if v is None:
                return cas.sym(k[-1])
            return v
        if op == 'b':
            x, y = self.key(k[2]), self.key(k[3])
            f = {'+': cas.add, '-': cas.sub, '*': cas.mul, '/': cas.div, '**': cas.power}.get(k[1])
            return f(x, y) if f else cas.fn('op' + k[1], x, y)
        if op == 'f':
            return cas.call(k[1], *[self.key(a) for a in k[2:]])
        if op == 'u-':
            return cas.neg(self.vn(k[1]))
        if op == 'abs':
            return cas.call('abs', self.vn(k[1]))
        if op == 'float':
            return self.vn(k[1])
        if op == 'minmax':
            return cas.call('max' if k[1] else 'min', *[self.key(a) for a in k[2:]])
        if op == 'call':
            base = k[1].rsplit('.', 1)[1]
            if k[1].startswith('fluids.numerics.') and base in MATHS:
                return cas.call(MATHS[base], *[self.key(a) for p, a in k[3]])
            self.calls.add(k[1])
            return cas.fn(('call', k[1], k[2]), *[x for p, a in k[3] for x in (p, self.tag(a))])
        if op == 'attr' and k[2] == 'real':
            return self.vn(k[1])
        if op in ('sub', 'item', 'len', 'attr'):
            self.opaque.add(n)
            return cas.sym(k)
        self.opaque.add(n)
        return cas.sym(('?', n))


def facts_of(it, fi, st):
    """{param: number} for parameters equal to a number on this path; and the omitted ones."""
    eq, none = {}, set()
    for p in fi.params:
        f = st.facts.get(vnum('param', fi.fq, p))
        if f is None:
            continue
        if f.eq is None:
            none.add(p)
        elif is_num(f.eq) and not isinstance(f.eq, (bool, complex)):
            eq[p] = f.eq
    return eq, none
