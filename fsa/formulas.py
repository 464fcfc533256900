"""What every return path of a function computes, as vectors of random interpretation, with the conditions of the path."""
from __future__ import annotations
import ast
import copy
import itertools
import math
import re

from . import randint
from .interp import INF, MISSING, Budget, Fact, State, is_num
from .nf import Undecided
from .randint import K
from .program import walk_scope
from .scope import SKIP, is_api
from .symbolic import SymInterp, key_of
from .values import Const, DictV, Inst, ListV, Ref, Sym, TupV, vnum


def sig(x, n=10):
    return None if x is None else float(f'%.{n}g' % x)


def vec(v):
    return [sig(x) for x in v]


def same(a, b, wide=1e-3):
    """Equal vectors (at most one point off, by cancellation)."""
    n = bad = 0
    for x, y in zip(a, b):
        if x is None or y is None:
            continue
        n += 1
        d = abs(x - y)
        if d > 1e-7 * max(abs(x), abs(y)) and d > 1e-12:
            bad += 1
            if d > wide * max(abs(x), abs(y)) and d > 1e-6:
                return False
    return n >= 2 and (bad == 0 or bad == 1 and n >= 5)


def comparable(a, b):
    return sum(x is not None and y is not None for x, y in zip(a, b)) >= 2


class Row:
    """One result of one path."""
    __slots__ = ('idx', 'vecs', 'ext', 'why', 'tags', 'none', 'given', 'nums', 'box', 'line', 'calls', 'free', 'val', 'root', 'rels')


class Run:
    interp = SymInterp

    def __init__(self, prog, fi, budget=5000):
        self.prog, self.fi = prog, fi
        self.rows, self.cuts = [], []
        self.nullable = [p for p, d in fi.defaults.items() if isinstance(d, ast.Constant) and d.value is None]
        self.coarse = False
        self.over = not self.start_run(budget)
        if self.over:   # join paths early
            self.coarse = True
            self.over = not self.start_run(budget, (4, 8))
        self.memo, self.cmemo = {}, {}
        self.split = not self.over and not any(o.kind == 'return' for o in self.outs) and 2 <= len(self.nullable) <= 9
        if self.split:
            self.take_patterns(budget)
        if self.over:
            return
        if not self.split:
            self.joins, self.limits = self.it.joins, self.it.limits
            self.take_all()
        if len(self.rows) > 1000:
            uniq = {}
            for r in self.rows:
                r.box, r.rels = [], []
                uniq.setdefault((r.idx, tuple(map(tuple, r.vecs)), r.why, tuple(r.tags.items()), tuple(r.none), tuple(r.given), tuple(r.nums.items())), r)
            self.rows = list(uniq.values())
        self.find_cuts()

    def take_all(self):
        for o in self.outs:
            if o.kind == 'return' and (not o.why or self.ref is not None):
                self.take(o)

    def take_patterns(self, budget):
        """One run for each choice of the optional arguments which are given."""
        self.joins, self.limits, ok = 0, {}, 0
        for pat in itertools.product((False, True), repeat=len(self.nullable)):
            facts = {vnum('param', self.fi.fq, p): Fact(ne=frozenset([None])) if g else Fact(eq=None) for p, g in zip(self.nullable, pat)}
            if not self.start_run(budget, None, facts):
                continue
            ok += any(o.kind == 'return' for o in self.outs)
            self.joins += self.it.joins
            for k, w in self.it.limits.items():
                self.limits.setdefault(k, []).extend(w)
            self.take_all()
        if ok:
            self.coarse = False

    def start_run(self, budget, limits=None, facts=None):
        self.it = self.interp(self.prog, budget)
        if limits:
            self.it.soft, self.it.hard = limits
        fi = self.fi
        st, args, self.ref, self.start = State(), {}, None, {}
        if facts:
            st.facts.update(facts)
        if fi.cls is not None and fi.pos and not {'staticmethod', 'classmethod'} & set(fi.decorator_names()):
            if fi.name != '__init__':
                self.start = {a: Sym(vn=vnum('selfattr', fi.cls.name, a)) for a in own_attributes(self.prog, fi.cls)}
            self.ref = args[fi.pos[0]] = self.it.alloc(Inst(fi.cls, self.start, True), st)
        self.lists = {}
        for p, shape in getattr(fi, 'sizes', {}).items():
            args[p] = self.symbols(p, shape, st)
        try:
            self.outs = self.it.entry(fi, args, st)
        except Budget:
            self.outs = []
            return False
        return True

    def symbols(self, p, shape, st):
        """A list of the given shape with a symbol for every element."""
        if not shape:
            return Sym(vn=vnum('param', self.fi.fq, p), deps=frozenset([p]), kind='num')
        items = [self.symbols(f'{p}.{i}', shape[1:], st) for i in range(shape[0])]
        r = self.it.alloc(ListV(items), st)
        self.lists[p] = (r, items)
        return r

    # ---- results
    def take(self, o):
        it, st = self.it, o.st
        v = it.deref(o.val, st) if isinstance(o.val, Ref) else o.val
        for i, x in self.parts(v, st):
            if isinstance(x, Const) and not is_num(x.v) and not isinstance(x.v, (str, bool)):
                continue
            self.rows.append(self.row(i, x, st, o.node.lineno if o.node is not None else self.fi.node.lineno))

        for p, (ref, items) in self.lists.items():   # lists changed in place
            h = st.heap.get(ref.id)
            if isinstance(h, ListV) and h.items is not None:
                for i, x in enumerate(h.items):
                    if i >= len(items) or x is not items[i] and not isinstance(x, Ref):
                        self.rows.append(self.row(f'{p}.{i}', x, st, self.fi.node.lineno))
        if self.ref is not None:
            h = st.heap.get(self.ref.id)
            line = o.node.lineno if o.node is not None else self.fi.node.lineno
            for a in sorted(h.attrs if isinstance(h, Inst) else ()):
                if h.attrs[a] is self.start.get(a):
                    continue
                for i, x in self.parts(h.attrs[a], st, 'self.' + a):
                    if not isinstance(x, Const) or is_num(x.v) or isinstance(x.v, (str, bool)):
                        self.rows.append(self.row(i, x, st, line))

    def parts(self, v, st, pre='', depth=0):
        v = self.it.deref(v, st) if isinstance(v, Ref) else v
        if isinstance(v, (TupV, ListV)) and v.items is not None and len(v.items) <= 24 and depth < 3:
            for i, x in enumerate(v.items):
                yield from self.parts(x, st, f'{pre}.{i}' if pre else str(i), depth + 1)
        elif isinstance(v, DictV) and v.complete and len(v.items) <= 60 and depth < 3 and all(isinstance(k, (str, int)) for k in v.items):
            for k in sorted(v.items, key=str):
                yield from self.parts(v.items[k], st, f'{pre}.{k}' if pre else str(k), depth + 1)
        elif isinstance(v, Inst) and depth < 2:
            for k in sorted(v.attrs):
                if not k.startswith('__'):
                    yield from self.parts(v.attrs[k], st, f'{pre}.{k}' if pre else k, depth + 1)
        else:
            yield pre or '0', v

    def row(self, idx, x, st, line):
        r = Row()
        r.idx, r.line, r.val = idx, line, x
        r.tags, r.none, r.given, r.nums = {}, [], [], {}
        for p in self.fi.params:
            f = st.facts.get(vnum('param', self.fi.fq, p))
            if f is None:
                continue
            if f.eq is None:
                r.none.append(p)
                continue
            if p in self.nullable and (None in f.ne or f.eq is not MISSING):
                r.given.append(p)
            if f.eq is MISSING:
                if f.lo == f.hi:
                    r.nums[p] = f.lo
            elif is_num(f.eq) and not isinstance(f.eq, (bool, complex)):
                r.nums[p] = f.eq
            elif isinstance(f.eq, (str, bool)):
                r.tags[p] = f.eq
            if f.truth is not None and p not in r.nums:
                r.tags.setdefault(p, f.truth) if not isinstance(f.truth, str) else None
        r.vecs, r.ext, r.why, r.calls = self.vectors(x, r.nums)
        r.box = self.box(st, r.nums)
        r.rels = self.relations(st)
        # every condition of the path is an interval of the box
        r.free = not st.rel and len(r.box) == sum(1 for n, f in st.facts.items() if (f.lo != -INF or f.hi != INF) and not ((key_of(n) or ' ')[0] == 'param' and key_of(n)[-1] in r.nums))
        return r

    def vectors(self, x, nums):
        get = lambda k: nums.get(k[-1]) if k[1] == self.fi.fq else None
        try:
            vs, r = randint.vectors(x, get)
            if isinstance(r.arms, randint.AllArms):
                return [], False, 'too many alternatives', set()
            ext = max(map(randint.defined, vs)) < 3
            if ext:
                vs, r = randint.vectors(x, get, extend=True)
                if max(map(randint.defined, vs)) < 3:
                    vs, r = randint.vectors(x, get, extend=2)
                    if max(map(randint.defined, vs)) < 3:
                        return [], True, 'not defined at the points', set()
        except Undecided as e:
            return [], False, str(e), set()
        return [vec(v) for v in vs], ext, None, r.calls

    # ---- conditions
    def plain(self, n):
        """Vector of a value number in a condition, or None."""
        if n not in self.memo:
            try:
                vs, r = randint.vectors(Sym(n), extend=True)
                self.memo[n] = vec(vs[0]) if len(vs) == 1 and randint.defined(vs[0]) >= 3 else None
            except Undecided:
                self.memo[n] = None
        return self.memo[n]

    def box(self, st, nums):
        """{condition key: interval} of the numeric facts of a path."""
        out = []
        for n, f in st.facts.items():
            if f.lo == -INF and f.hi == INF:
                continue
            k = key_of(n)
            if k and k[0] == 'param' and k[-1] in nums:
                continue
            v = self.plain(n)
            if v is not None:
                out.append((v, f.lo, f.loo, f.hi, f.hio))
        return out

    def relations(self, st):
        """Orders of two quantities on a path, as intervals of their difference."""
        out = []
        for (a, b), rel in st.rel.items():
            if '<' in rel and '>' in rel or rel == {'='}:
                continue
            x, y = self.exact(a), self.exact(b)
            if x is None or y is None:
                continue
            d = vec([p - q if p is not None and q is not None else None for p, q in zip(x, y)])
            if sum(q is not None and q != 0 for q in d) < 4:
                continue
            opn = '=' not in rel
            out.append((d, -INF, False, 0.0, opn) if '<' in rel else (d, 0.0, opn, INF, False))
        return out

    def exact(self, n):
        """Vector of a value number without joined alternatives."""
        if ('exact', n) not in self.cmemo:
            try:
                r = randint.Rand(None, randint.AllArms(), True)
                v = r.vn(n)
                ok = randint.defined(v) >= 3 and all(isinstance(k, int) and key_of(k)[0] == 'abs' for k in r.forks)
                self.cmemo['exact', n] = vec(v) if ok else None
            except Undecided:
                self.cmemo['exact', n] = None
        return self.cmemo['exact', n]

    def condition(self, n):
        """Vector of a value number in a limit; alternatives together."""
        if n not in self.cmemo:
            try:
                r = randint.Rand(None, randint.AllArms(), True)
                v = r.vn(n)
                self.cmemo[n] = vec(v) if randint.defined(v) >= 3 else None
            except Undecided:
                self.cmemo[n] = None
        return self.cmemo[n]

    def context(self, facts):
        tags = []
        for p in self.fi.params:
            f = facts.get(vnum('param', self.fi.fq, p))
            if f is None:
                continue
            if f.eq is None or isinstance(f.eq, (str, bool)) or is_num(f.eq) and not isinstance(f.eq, complex):
                tags.append((p, 'is', f.eq))
                continue
            if f.lo != -INF or f.hi != INF:
                tags.append((p, 'in', f.lo, f.hi))
            elif p in self.nullable and (None in f.ne or f.eq is not MISSING):
                tags.append((p, 'not', None))
            if isinstance(f.truth, bool):
                tags.append((p, 'truth', f.truth))
            for x in f.ne:
                if x is not None and isinstance(x, (str, bool, int, float)):
                    tags.append((p, 'not', x))
        return tuple(sorted(tags, key=repr))

    def find_cuts(self):
        """Limits at which paths part: [(vector, number or vector, side, contexts, line)]."""
        for (l, r, side), where in self.limits.items():
            x = self.condition(l[1])
            y = r[1] if r[0] == 'c' else self.condition(r[1])
            if x is None or y is None or not is_num(y) and not isinstance(y, list) or isinstance(y, (bool, complex)) or y in (INF, -INF):
                continue
            ctx = sorted({self.context(f) for f, _ in where}, key=repr)
            self.cuts.append((x, sig(y) if is_num(y) else y, side, ctx if len(ctx) <= 32 else [()], where[0][1]))


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith('fluids.numerics') and not m.name.startswith('fluids.numerics.doubledouble'):
            for f in m.functions.values():
                if f.parent is None and not f.is_lambda and f.params and f.cls is None and not f.name.startswith('_'):
                    yield f
            continue
        if m.name.startswith(SKIP + ('fluids.design_climate',)):
            continue
        for f in m.functions.values():
            if f.parent is None and not f.is_lambda and (f.params or f.cls is None) and (is_api(prog, f) or f.cls is not None and is_exported(prog, f) or f.cls is None and not f.name.startswith('_')):
                yield f
    yield from inherited(prog)


def inherited(prog):
    """Methods of exported classes as they are inherited: analysed with the class of the instance."""
    for m in prog.modules.values():
        if m.name.startswith(SKIP + ('fluids.design_climate',)):
            continue
        for ci in m.classes.values():
            if ci.name not in (prog.exports(m) or ()):
                continue
            for base in ci.mro(prog)[1:]:
                for f in base.methods.values():
                    if f.name.startswith('__') or f.is_lambda or not f.pos or ci.find_method(prog, f.name) is not f or {'staticmethod', 'classmethod'} & set(f.decorator_names()):
                        continue
                    if any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(f.node)):
                        continue
                    g = copy.copy(f)
                    g.cls, g.qualname = ci, f'{ci.name}.{f.name}'
                    yield g


SIZES = (3, 2, 4)


def sized(prog):
    """The functions of lists and matrices, each with lists of two, three and four symbols (square matrices) for them."""
    for f in list(functions(prog)):
        ls = {} if "plot" in f.name else list_params(f)
        if ls:
            for n in SIZES if f.module.name.startswith('fluids.numerics') else SIZES[:1]:
                g = copy.copy(f)
                g.sizes = {p: (n,) * d for p, d in ls.items()}
                g.qualname = f'{f.qualname}@{n}'
                yield g


def list_params(f):
    """{parameter: depth} of the parameters used as lists."""
    out = {}
    ps = set(f.params) - ({f.pos[0]} if f.cls is not None and f.pos else set())
    name = lambda n: n.id if isinstance(n, ast.Name) and n.id in ps else None

    def note(p, d):
        if p and not isinstance(getattr(f.defaults.get(p), 'value', None), str):
            out[p] = max(d, out.get(p, 0), 2 if p in ('mat', 'matrix') else 1)
    for n in walk_scope(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            its = it.args if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('zip', 'enumerate', 'reversed', 'sorted') else [it]
            for x in its:
                note(name(x), 1)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'sum') and len(n.args) == 1:
            note(name(n.args[0]), 1)
            if isinstance(n.args[0], ast.Subscript):
                note(name(n.args[0].value), 2)
        elif isinstance(n, ast.Subscript) and not (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)):
            note(name(n.value), 1)
            if isinstance(n.value, ast.Subscript):
                note(name(n.value.value), 2)
    for p in ps:
        m = re.search(r'^\s*%s\s*:\s*(.*)$' % re.escape(p), f.doc or '', re.M)
        if m and re.search(r'\b(list|array|ndarray|iterable)\b', m.group(1)):
            note(p, 2 if re.search(r'list\[list|matrix|2D', m.group(1)) else 1)
    return out


def is_exported(prog, f):
    return f.cls.name in (prog.exports(f.module) or ()) and (f.name == '__init__' or not f.name.startswith('__'))


_own = {}


def own_attributes(prog, ci):
    """Names assigned on self by the methods of a class and its bases."""
    if ci not in _own:
        out = set()
        for c in ci.mro(prog):
            for m in c.methods.values():
                if not m.pos:
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == m.pos[0]:
                        out.add(n.attr)
        _own[ci] = sorted(a for a in out if ci.find_method(prog, a) is None)
    return _own[ci]


def compatible(a, b):
    """Could two rows describe the same arguments?"""
    return not (set(a.none) & set(b.given) or set(b.none) & set(a.given)
                or set(a.none) & (set(b.tags) | set(b.nums)) or set(b.none) & (set(a.tags) | set(a.nums))
                or any(p in b.tags and b.tags[p] != x for p, x in a.tags.items()))


def disjoint(a, b):
    """Two boxes exclude each other through one condition."""
    for v, lo, loo, hi, hio in a:
        for w, l2, lo2, h2, ho2 in b:
            if same(v, w) and (hi < l2 or h2 < lo or (hi == l2 and (hio or lo2)) or (h2 == lo and (loo or ho2))):
                return True
    return False
