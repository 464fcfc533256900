"""What each exported calculation hands on and what its result is made of, per setting of its options and optional arguments."""
from __future__ import annotations
import ast
import gzip
import json
import os

from . import dispatch
from .dispatch import Label
from .interp import Budget, State
from .nonepat import given_kind, none_params, patterns
from .optscan import candidates
from .scope import is_api
from .values import Cls, Const, Fn, Inst, ListV, Lit, Ref, Sym, TupV, NONE, vnum

SKIP = ('fluids.numba', 'fluids.vectorized', 'fluids.units', 'fluids.nrlmsise00', 'fluids.optional', 'fluids.numerics')


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        exp = prog.exports(m) or ()
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda or f.is_generator():
                continue
            if is_api(prog, f) or (f.cls is not None and f.cls.name in exp and (not f.name.startswith('_') or f.name == '__init__')):
                yield f


def bools(f):
    out = []
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        t = ast.unparse(a.annotation) if a.annotation is not None else ''
        d = f.defaults.get(a.arg)
        if t == 'bool' or (isinstance(d, ast.Constant) and isinstance(d.value, bool)):
            out.append(a.arg)
    return out


def opts(prog, f):
    out = {}
    for p, fr in candidates(f, prog).items():
        if isinstance(fr, str):
            ns = dispatch.names(prog, f, p)
            if 0 < len(ns) <= 40:
                out[p] = sorted(ns)
    return out


def settings(prog, f):
    """Encoded settings {param: '=name' | True | False | None | 'given'}."""
    out = [{}]
    os_ = opts(prog, f)
    out += [{p: '=' + v} for p, vs in os_.items() for v in vs]
    ps = sorted(os_)
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            if len(os_[p]) * len(os_[q]) <= 40:
                out += [{p: '=' + v, q: '=' + w} for v in os_[p] for w in os_[q]]
    ns = [p for p in none_params(f) if p not in os_]
    if ns:
        pats = patterns(ns) if len(ns) <= 4 else [frozenset(), frozenset(ns)] + [frozenset([p]) for p in ns] + [frozenset(ns) - {p} for p in ns]
        enc = [{p: 'given' if p in g else None for p in ns} for g in pats]
        out += enc
        if len(ns) <= 3 or len(os_) == 1 and len(enc) <= 16:
            out += [{**e, p: '=' + v} for e in enc for p, vs in os_.items() for v in vs]
    out += [{b: v} for b in bools(f) for v in (True, False)]
    return out


def key(s):
    return ';'.join(f'{k}{v if isinstance(v, str) and v[0] == "=" else ":" + str(v)}' for k, v in sorted(s.items()))


ONE = {'brenth', 'secant', 'newton', 'py_newton', 'ridder', 'py_ridder', 'bisect', 'py_bisect', 'halley', 'quad', 'py_quad', 'py_secant', 'py_brenth', 'fixed_quad_Gauss_Kronrod'}


class FlowInterp(dispatch.DispInterp):
    def __init__(self, prog, fi, budget):
        super().__init__(prog, fi, budget)
        self.seen = {}      # (callee, param) -> {binding: line} at any call site
        self.arity = {}     # (solver, objective, line) -> message
        self.selfref = None
        self.tried = {}
        self.ctrl = set()

    def fork(self, st, v, node):
        self.ctrl |= {x for x in v.deps if isinstance(x, str)}
        return super().fork(st, v, node)

    def split(self, st, deps, node):
        self.ctrl |= {x for x in deps if isinstance(x, str)}
        return super().split(st, deps, node)

    def binding(self, v, st):
        if isinstance(v, Fn):
            return 'F:'
        return super().binding(v, st)

    def note(self, fq, p, v, st, node):
        self.seen.setdefault((fq, p), {}).setdefault(self.binding(v, st), getattr(node, 'lineno', 0))

    def on_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        if bound is not None and not (fi.parent is not None or fi.is_lambda):
            for p, v in bound.items():
                if p in fi.params and p not in ('self', 'cls'):
                    self.note(fi.fq, p, v, st, node)
        return super().on_call(fn, bound, args, kwargs, st, node)

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        extra = frozenset()
        if bound is not None:
            fns = [v for v in bound.values() if isinstance(v, Fn)]
            if fns and fi.module.name.startswith('fluids.numerics'):
                extra = self.callbacks(fi, fns, bound, st, node)
        r = super().opaque_call(fn, bound, args, kwargs, st, node)
        if extra:
            r = [(s, self.opaque_shape(fi, v.deps | extra) if not isinstance(v, Ref) else v) for s, v in r]
        return r

    def callbacks(self, fi, fns, bound, st, node):
        deps = frozenset()
        a = bound.get('args')
        a = self.deref(a, st) if a is not None else None
        tail = list(a.items) if isinstance(a, TupV) else list(a.items) if isinstance(a, ListV) and a.items is not None else [] if a is None or isinstance(a, Const) else None
        if isinstance(a, Lit):
            tail = []
        for f in fns:
            g = f.fi
            req = [p for p in g.params if p not in g.defaults]
            if g.cls is not None and f.self_ is not None:
                req = req[1:]
            if tail is None:
                deps |= a.deps
                continue
            n = len(req) - len(tail)
            if fi.name in ONE and f is fns[0] and not g.vararg and not f.partial:
                hi = len(g.params) - (1 if g.cls is not None and f.self_ is not None else 0)
                if not (len(req) <= 1 + len(tail) <= hi):
                    self.arity[(fi.name, g.name, getattr(node, 'lineno', 0))] = f'{fi.name} calls {g.name}(x, {len(tail)} extra), which takes {len(req)}..{hi} arguments'
                    continue
            k = max(n, 1)
            key = (g, f.frame, tuple(self.vnkey(x) for x in tail))
            if g in self.stack or len(self.stack) > 6:
                continue
            if key not in self.tried or None in key[2]:
                self.tried[key] = frozenset()
                s2 = st.copy()
                saved = self.raised
                self.raised = []
                d = frozenset()
                try:
                    for s3, v in self.call_fn(Fn(g, f.frame, f.self_, f.partial), [Sym(kind='any', tag='cb') for _ in range(k)] + tail, {}, s2, node):
                        d |= self.deref_deep(v, s3).deps
                finally:
                    self.raised = saved
                self.tried[key] = d
            deps |= self.tried[key]
        return deps

    def getattr(self, v, attr, st, node):
        if isinstance(v, Ref) and v.id == self.selfref:
            h = st.heap.get(v.id)
            if isinstance(h, Inst) and h.open and attr not in h.attrs and not attr.startswith('__') and h.cls.find_method(self.prog, attr) is None:
                vn = vnum('selfattr', self.root.fq, attr)
                self.pvn[vn] = 'self.' + attr
                x = Sym(vn=vn, deps=frozenset(['self.' + attr]))
                at = dict(h.attrs)
                at[attr] = x
                st.heap[v.id] = Inst(h.cls, at, True)
                return [(st, x)]
        return super().getattr(v, attr, st, node)


def run(prog, f, s, budget):
    """dict(calls={(callee, param): {binding: line}}, rets=[(data deps, control deps, labels, const?, line)]) or None"""
    it = FlowInterp(prog, f, budget)
    args = {}
    for p in f.params:
        vn = vnum('param', f.fq, p)
        it.pvn[vn] = p
        v = s.get(p, 0)
        if p not in s:
            continue
        if v == 'given':
            args[p] = Sym(vn=vn, deps=frozenset([p]), kind=given_kind(f, p))
        elif v is None:
            args[p] = NONE
        else:
            args[p] = Const(v[1:] if isinstance(v, str) else v, deps=frozenset([p]))
    st = State()
    if f.cls is not None and f.params and f.params[0] in ('self', 'cls'):
        if f.params[0] == 'self':
            r = it.alloc(Inst(f.cls, {}, f.name != '__init__' or not it.known_bases(f.cls)), st)
            it.selfref = r.id
            args['self'] = r
        elif 'classmethod' in f.decorator_names():
            args['cls'] = Cls(f.cls)
    try:
        res = it.entry(f, args=args, st=st)
    except Budget:
        return None
    rets = []
    for o in res:
        if o.kind != 'return':
            continue
        v = it.deref_deep(o.val, o.st)
        d = v.deps
        const = isinstance(v, (Const, Lit))
        if it.selfref is not None:
            h = o.st.heap.get(it.selfref)
            for k, x in (h.attrs.items() if isinstance(h, Inst) else ()):
                if f.name == '__init__':
                    it.note(f.cls.fq + '.self', k, x, o.st, o.node)
                x = it.deref_deep(x, o.st).deps
                if x != frozenset(['self.' + k]):
                    d |= x
                    const = const and not x
        rets.append((frozenset(x for x in d if isinstance(x, str)), frozenset(x for x in d if isinstance(x, Label)),
                     const, getattr(o.node, 'lineno', 0), bool(o.why)))
    return dict(calls=it.seen, arity=it.arity, ctrl=it.ctrl, rets=rets, nraise=sum(o.kind == 'raise' for o in res))


# ---------------------------------------------------------------- comparison with the confirmed table
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'flows.json.gz')


def load():
    with gzip.open(TABLE, 'rt') as fh:
        return json.load(fh)


def summary(r):
    calls = {}
    for (fq, p), b in r['calls'].items():
        calls.setdefault(fq, {})[p] = sorted(b)
    live = [x for x in r['rets'] if not x[2]]
    use = frozenset().union(*[x[0] for x in live]) if live else frozenset()
    always = frozenset.intersection(*[x[0] for x in live]) if live else frozenset()
    labels = sorted({lab[1] for x in r['rets'] for lab in x[1]})
    return dict(c=calls, k=sorted(r['ctrl']), u=sorted(use), a=sorted(always), l=labels, n=len(r['rets']))


def generate(prog, pmap):
    """The table, for the tree at hand."""
    fs = list(functions(prog))

    def w(f):
        out = []
        for s in settings(prog, f):
            r = run(prog, f, s, 25000)
            if r is not None:
                out.append((s, summary(r)))
        return out
    uniq, tab = {}, {}

    def intern(x):
        return uniq.setdefault(json.dumps(x, sort_keys=True), len(uniq))
    for f, res in zip(fs, pmap(w, fs)):
        tab[f.fq] = [[s, intern(e)] for s, e in res]
    return {'functions': tab, 'summaries': [json.loads(k) for k in uniq]}


def write(prog, pmap):
    t = json.dumps(generate(prog, pmap), sort_keys=True)
    with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
        fh.write(t.encode())


def bdeps(b):
    return frozenset([b[2:]]) if b[0] == 'P' else frozenset(x for x in b[2:].split(',') if x) if b[0] == 'X' else frozenset()


def explained(b, base):
    """Can the binding b stand where the bindings of base were? None when undecided."""
    if b in base or b[0] == 'F':
        return True
    d = bdeps(b)
    for o in base:
        if o[0] == 'C':
            if b[0] == 'C':
                continue
            if b[0] == 'X' and not d:
                return True
        elif o[0] == 'F':
            return True
        elif d >= bdeps(o) and (b[0] == 'X' or d == bdeps(o) or o[0] == 'X' and not bdeps(o)):
            return True
    if b[0] == 'P' and all(o[0] == 'C' for o in base):
        return True     # an argument where only constants stood: widened, not lost
    return False
