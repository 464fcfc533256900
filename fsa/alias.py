"""May-alias / effect analysis with interprocedural summaries.

An abstract value is (S, C): S = locations the object itself may be, C = locations
its contents may be.  A location is (root, level): level 0 the root object,
level 1 anything reachable inside it.  Roots:
  ('P', name)        object bound to a parameter
  ('G', module, nm)  module-level object
  ('K', class, attr) class-level object
  ('A', class, attr) object held in an instance attribute
Everything else is fresh.  Statements are interpreted in order with joins at
control-flow merges; loops are run to a fixpoint."""
from __future__ import annotations
import ast

from .program import walk_scope, COMP
from .refs import local_imports, resolve_chain

E = frozenset()
MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'itemset',
       'resize', 'partition', 'put', 'setflags', 'setfield', 'appendleft', 'popleft', 'rotate', '__setitem__', '__delitem__', 'intersection_update',
       'difference_update', 'symmetric_difference_update'}
ALIAS_METHODS = {'view', 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'asarray'}
CONTENT_METHODS = {'get', 'values', 'items', 'pop', 'setdefault', '__getitem__', 'popitem', 'keys'}
FRESH_COPY = {'list', 'tuple', 'sorted', 'set', 'frozenset', 'dict', 'reversed', 'zip', 'enumerate', 'iter', 'map', 'filter'}
NP_ALIAS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.reshape', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.squeeze', 'numpy.transpose',
            'numpy.ascontiguousarray', 'numpy.broadcast_to', 'numpy.asfarray', 'numpy.require', 'numpy.frombuffer', 'numpy.swapaxes'}
EXT_MUT = {'numpy.fill_diagonal': 0, 'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0,
           'heapq.heappush': 0, 'heapq.heappop': 0, 'heapq.heapify': 0, 'bisect.insort': 0, 'bisect.insort_left': 0, 'bisect.insort_right': 0,
           'operator.setitem': 0, 'operator.delitem': 0, 'setattr': 0, 'operator.iadd': 0, 'operator.imul': 0}
EXT_COPY_CONTENT = {'copy.copy'}
DEEP = 3


class V:
    """Abstract value."""
    __slots__ = ('s', 'c', 'd', 'fn')

    def __init__(self, s=E, c=E, d=E, fn=None):
        self.s, self.c, self.d, self.fn = s, c, d, fn

    def elem(self):
        """Value of an element."""
        if not self.s and not self.c and not self.d:
            return FRESH
        return V(self.c | frozenset((root, min(k + 1, DEEP)) for root, k in self.s), self.d, self.d)

    def at(self, k):
        v = self
        for _ in range(k):
            v = v.elem()
        return v.s

    def inside(self):
        """A fresh container holding the same elements (shallow copy)."""
        e = self.elem()
        return V(E, e.s, e.c)

    def all(self):
        return self.s | self.c | self.d

    def __or__(self, o):
        if o is self or o is FRESH:
            return self
        if self is FRESH:
            return o
        return V(self.s | o.s, self.c | o.c, self.d | o.d, self.fn if self.fn == o.fn else None)

    def __eq__(self, o):
        return isinstance(o, V) and self.s == o.s and self.c == o.c and self.d == o.d and self.fn == o.fn

    def __hash__(self):
        return hash((self.s, self.c))


def hold(*vals):
    """A fresh container whose elements are the given values."""
    c = d = E
    for v in vals:
        c |= v.s
        d |= v.c | v.d
    return V(E, c, d)


def spread(*vals):
    """A fresh container with the elements of the given containers."""
    r = FRESH
    for v in vals:
        r = r | v.inside()
    return r


FRESH = V()


class Summary:
    __slots__ = ('mut', 'ret', 'store', 'attrs')

    def __init__(self):
        self.mut = {}      # (root, level) -> (loc, text)
        self.ret = FRESH
        self.store = {}    # root stored-into -> value locations
        self.attrs = {}

    def key(self):
        return (frozenset(self.mut), self.ret, tuple(sorted((str(k), str(sorted(map(str, v)))) for k, v in self.store.items())))


class Alias:
    def __init__(self, prog, skip=()):
        self.prog = prog
        self.skip = tuple(skip)
        self.sum = {}
        self.attr_vals = {}    # ('A', cls, attr) -> set of (root, level, FuncInfo, loc) stored by constructors/methods
        self.gwrites = {}      # FuncInfo -> list of (module, name, node)
        self.fattr = {}        # FuncInfo -> list of (target text, node)
        self.changed = False
        self.imports = {}
        self.fns = [f for m in prog.modules.values() if not m.name.startswith(self.skip) for f in m.functions.values()]
        self.frames = {}
        self.direct = {}       # FuncInfo -> [(loc, node, text)] direct in-place writes
        self.awrites = {}      # FuncInfo -> [(attr key, node)] instance attribute stores

    # ------------------------------------------------------------------
    def run(self, rounds=12):
        for i in range(rounds):
            self.changed = False
            for f in self.fns:
                self.analyse(f)
            if not self.changed:
                break
        self.rounds = i + 1
        return self

    def root_class(self, ci):
        mro = ci.mro(self.prog)
        return mro[-1].fq if mro else ci.fq

    def analyse(self, fi):
        s = Summary()
        old = self.sum.get(fi)
        self.cur, self.S = fi, s
        if fi not in self.imports:
            self.imports[fi] = local_imports(self.prog, fi)
        env = {}
        # captured variables of the enclosing function
        self.env = env
        for p in fi.all_params:
            env[p] = V(frozenset([(('P', p), 0)]))
        if fi.kwarg:
            env[fi.kwarg] = V(E, frozenset([(('P', fi.kwarg), 1)]))
        if fi.vararg:
            env[fi.vararg] = V(E, frozenset([(('P', fi.vararg), 1)]))
        self.is_method = fi.cls is not None and 'staticmethod' not in fi.decorator_names()
        self.selfname = fi.pos[0] if self.is_method and fi.pos else None
        self.gw, self.fa, self.dw, self.aw = [], [], {}, {}
        self.gl = fi.scope_info()[1]
        self.block(fi.body)
        self.gwrites[fi], self.fattr[fi] = self.gw, self.fa
        self.direct[fi], self.awrites[fi] = list(self.dw.values()), list(self.aw.values())
        # a nested function's effects on captured variables are effects of the parent
        self.frames[fi] = self.env
        if old is None or old.key() != s.key():
            self.sum[fi] = s
            self.changed = True
        else:
            self.sum[fi] = s

    # ---- effects
    def mutate(self, v, node, what):
        for loc in v.s:
            self.dw[(loc, id(node))] = (loc, node, what)
            if loc not in self.S.mut:
                self.S.mut[loc] = (f'{self.cur.module.rel}:{getattr(node, "lineno", 0)}', what)

    def stored(self, target, val):
        """val becomes reachable from target."""
        for loc in target.s:
            if val.all():
                self.S.store.setdefault(loc[0], set()).update(val.all())

    # ---- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def stmt(self, s):
        if isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                old = self.ev_name(s.target)
                if self.augmutates(s.target.id, s):
                    self.mutate(old, s, f'augmented assignment to {s.target.id}')
                    self.put(s.target.id, old | v.inside(), s)
                else:
                    self.put(s.target.id, FRESH, s)
            else:
                base = self.ev(s.target.value)
                if isinstance(s.target, ast.Subscript):
                    self.ev(s.target.slice)
                    self.mutate(base, s, f'augmented assignment to {ast.unparse(s.target)}')
                else:
                    self.set_attr(s.target, base, FRESH, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.S.ret = self.S.ret | self.ev(s.value)
        elif isinstance(s, (ast.If,)):
            self.ev(s.test)
            base = self.env
            self.env = dict(base)
            self.block(s.body)
            a, ta = self.env, terminates(s.body)
            self.env = dict(base)
            self.block(s.orelse)
            b, tb = self.env, terminates(s.orelse)
            self.env = b if ta and not tb else a if tb and not ta else self.join(a, b)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ev(s.iter)
                el = it.elem()
            for _ in range(3):
                before = self.env
                self.env = dict(before)
                if isinstance(s, ast.For):
                    self.assign(s.target, el, s, None)
                else:
                    self.ev(s.test)
                self.block(s.body)
                self.env = self.join(before, self.env)
                if self.env == before:
                    break
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            before = dict(self.env)
            self.block(s.body)
            after = self.env
            mid = self.join(before, after)
            outs = [] if terminates(s.body) else [after]
            self.env = dict(after)
            self.block(s.orelse)
            if outs:
                outs = [self.env]
            for h in s.handlers:
                self.env = dict(mid)
                if h.name:
                    self.env[h.name] = FRESH
                self.block(h.body)
                if not terminates(h.body):
                    outs.append(self.env)
            e = outs[0] if outs else mid
            for o in outs[1:]:
                e = self.join(e, o)
            self.env = e
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s, None)
            self.block(s.body)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), s, f'del {ast.unparse(t)}')
                elif isinstance(t, ast.Attribute):
                    self.set_attr(t, self.ev(t.value), FRESH, s)
        elif isinstance(s, ast.FunctionDef):
            fi = self.cur.module.by_node.get(s)
            self.env[s.name] = V(fn=fi)
            self.nested(fi, s)
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)

    def nested(self, fi, node):
        """Effects of a nested function on variables captured from here."""
        sm = self.sum.get(fi)
        if sm is None:
            return
        for (root, lvl), why in list(sm.mut.items()):
            if root[0] == 'F':
                v = self.env.get(root[1])
                if v is not None:
                    for loc in v.at(lvl):
                        self.S.mut.setdefault(loc, why)
            elif root[0] != 'P':
                self.S.mut.setdefault((root, lvl), why)

    def augmutates(self, name, s):
        """x += ... mutates the object only when x is a container."""
        return name in self.containers()

    def containers(self):
        fi = self.cur
        r = getattr(fi, '_containers', None)
        if r is not None:
            return r
        r = set()
        for n in walk_scope(fi.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                r.add(n.value.id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                r.add(n.iter.id)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ('len', 'sum', 'sorted', 'zip', 'enumerate', 'reversed', 'list', 'tuple', 'set'):
                    r.update(a.id for a in n.args if isinstance(a, ast.Name))
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUT:
                    r.add(n.func.value.id)
            elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
                r.update(t.id for t in n.targets if isinstance(t, ast.Name))
        for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if a.annotation is not None:
                t = ast.unparse(a.annotation)
                if any(w in t for w in ('list', 'List', 'ndarray', 'dict', 'Dict', 'Sequence')) and 'float |' not in t and '| float' not in t:
                    r.add(a.arg)
        if fi.doc:
            from .docs import parse
            try:
                for en in parse(fi.doc).get('Parameters', ()):
                    ty = (en.type or '').lower()
                    if any(w in ty for w in ('list', 'array', 'dict', 'iterable', 'sequence')) and 'float or' not in ty:
                        r.add(en.name)
            except Exception:
                pass
        fi._containers = r
        return r

    def put(self, name, v, node):
        if name in self.gl:
            self.gw.append((self.cur.module, name, node))
            return
        if name not in self.cur.scope_info()[0]:
            pass
        self.env[name] = v

    def assign(self, t, v, node, value_expr):
        if isinstance(t, ast.Name):
            self.put(t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value_expr, (ast.Tuple, ast.List)) and len(value_expr.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                vals = [self.ev(x) for x in value_expr.elts]
                for x, y, e in zip(t.elts, vals, value_expr.elts):
                    self.assign(x, y, node, e)
                return
            el = v.elem()
            for x in t.elts:
                self.assign(x, el, node, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, hold(v), node, None)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.mutate(base, node, f'item assignment {ast.unparse(t)}')
            self.stored(base, v)
            self.grow(t.value, hold(v))
        elif isinstance(t, ast.Attribute):
            self.set_attr(t, self.ev(t.value), v, node)

    def grow(self, e, v):
        """The contents of a local container named by e grow by those of v."""
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            e, v = e.value, hold(v)
        if isinstance(e, ast.Name) and e.id in self.env:
            o = self.env[e.id]
            if o.fn is None:
                self.env[e.id] = o | V(E, v.c, v.d)

    def set_attr(self, t, base, v, node):
        # self.attr = v
        if isinstance(t.value, ast.Name) and t.value.id == self.selfname:
            if 'classmethod' in self.cur.decorator_names():
                self.fa.append((f'{self.cur.cls.fq}.{t.attr}', node))
                return
            k = ('A', self.root_class(self.cur.cls), t.attr)
            self.aw[(t.attr, id(node))] = (k, node)
            d = self.attr_vals.setdefault(k, {})
            n0 = len(d)
            for loc in v.all():
                lv = 0 if loc in v.s else 1 if loc in v.c else 2
                d.setdefault((self.cur, loc, lv), f'{self.cur.module.rel}:{node.lineno}')
            if len(d) != n0:
                self.changed = True
            return
        r = self.resolve(t.value)
        if r is not None and r[0] in ('func', 'class', 'module'):
            nm = r[1].fq if r[0] != 'module' else r[1].name
            self.fa.append((f'{nm}.{t.attr}', node))
            return
        if isinstance(t.value, ast.Attribute) and t.value.attr == '__class__':
            self.fa.append((f'{ast.unparse(t)}', node))
            return
        if isinstance(t.value, ast.Call) and isinstance(t.value.func, ast.Name) and t.value.func.id == 'type':
            self.fa.append((f'{ast.unparse(t)}', node))
            return
        self.mutate(base, node, f'attribute assignment {ast.unparse(t)}')
        self.stored(base, v)
        self.grow(t.value, v)

    # ---- expressions
    def resolve(self, e):
        li = self.imports[self.cur]

        def base(name):
            if name in self.env and name not in li:
                return ('local', self.cur)
            r = self.prog.resolve_in(self.cur, name)
            if (r is None or r[0] == 'local') and name in li:
                return li[name]
            return r
        if isinstance(e, ast.Name):
            return base(e.id)
        if isinstance(e, ast.Attribute):
            return resolve_chain(self.prog, e, base)
        return None

    def ev_name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.gl:
            return V(frozenset([(('G', self.cur.module.name, e.id), 0)]))
        r = self.resolve(e)
        if r is None:
            return FRESH
        if r[0] == 'var':
            return V(frozenset([(('G', r[1].name, r[2]), 0)]))
        if r[0] == 'func':
            return V(fn=r[1])
        if r[0] == 'local' and r[1] is not self.cur:
            fr = self.frames.get(r[1])
            v = V(frozenset([(('F', e.id), 0)]))
            if fr and e.id in fr and fr[e.id].fn is not None:
                v.fn = fr[e.id].fn
            return v
        return FRESH

    def ev(self, e):
        if e is None or isinstance(e, ast.Constant):
            return FRESH
        if isinstance(e, ast.Name):
            return self.ev_name(e)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.selfname and self.cur.cls is not None:
                if 'classmethod' in self.cur.decorator_names():
                    cv = self.cur.cls.find_class_var(self.prog, e.attr)
                    return V(frozenset([(('K', cv[0].fq, e.attr), 0)])) if cv else FRESH
                fm = self.cur.cls.find_method(self.prog, e.attr)
                if fm is not None:
                    if 'property' in fm.decorator_names():
                        sm = self.sum.get(fm)
                        return self.keep_state(sm.ret) if sm else FRESH
                    return V(fn=fm)
                s = {(('A', self.root_class(self.cur.cls), e.attr), 0)}
                cv = self.cur.cls.find_class_var(self.prog, e.attr)
                if cv:
                    s.add((('K', cv[0].fq, e.attr), 0))
                return V(frozenset(s))
            r = self.resolve(e)
            if r is not None:
                if r[0] == 'var':
                    return V(frozenset([(('G', r[1].name, r[2]), 0)]))
                if r[0] == 'func':
                    return V(fn=r[1])
                if r[0] in ('ext', 'builtin', 'module', 'class'):
                    return FRESH
            if isinstance(e.value, ast.Name):
                rc = self.resolve(e.value)
                if rc is not None and rc[0] == 'class':
                    cv = rc[1].find_class_var(self.prog, e.attr)
                    if cv:
                        return V(frozenset([(('K', cv[0].fq, e.attr), 0)]))
            b = self.ev(e.value)
            if e.attr in ('T', 'flat', 'real'):
                return b
            return b.elem()
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, ast.Slice):
                return b.inside()
            return b.elem()
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            r = FRESH
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                r = r | (v.inside() if isinstance(x, ast.Starred) else hold(v))
            return r
        if isinstance(e, ast.Dict):
            r = FRESH
            for k, x in zip(e.keys, e.values):
                v = self.ev(x)
                r = r | (v.inside() if k is None else hold(v))
            return r
        if isinstance(e, COMP):
            return self.comp(e)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            v = FRESH
            for x in e.values:
                v = v | self.ev(x)
            return v
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.put(e.target.id, v, e)
            return v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            if isinstance(e.op, (ast.Add, ast.Mult)):
                return spread(a, b)
            return FRESH
        if isinstance(e, ast.UnaryOp):
            self.ev(e.operand)
            return FRESH
        if isinstance(e, ast.Compare):
            self.ev(e.left)
            for x in e.comparators:
                self.ev(x)
            return FRESH
        if isinstance(e, ast.Lambda):
            fi = self.cur.module.by_node.get(e)
            self.nested(fi, e)
            return V(fn=fi)
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x)
            return FRESH
        if isinstance(e, ast.JoinedStr):
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    self.ev(x.value)
            return FRESH
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value)
            self.S.ret = self.S.ret | hold(v)
            return FRESH
        return FRESH

    def comp(self, e):
        saved = self.env
        self.env = dict(saved)
        for g in e.generators:
            it = self.ev(g.iter)
            self.assign(g.target, it.elem(), g.iter, None)
            for i in g.ifs:
                self.ev(i)
        if isinstance(e, ast.DictComp):
            self.ev(e.key)
            v = self.ev(e.value)
        else:
            v = self.ev(e.elt)
        self.env = saved
        return hold(v)

    def keep_state(self, v):
        """Locations meaningful outside the callee (globals, attributes)."""
        return V(*(frozenset(x for x in y if x[0][0] in 'GKA') for y in (v.s, v.c, v.d)))

    def call(self, e):
        args = [(a, self.ev(a.value if isinstance(a, ast.Starred) else a)) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        f = e.func
        callee, recv = None, None
        name = None
        if isinstance(f, ast.Name):
            v = self.ev_name(f)
            callee = v.fn
            r = self.resolve(f)
            if callee is None and r is not None:
                if r[0] == 'class':
                    return self.construct(r[1], args, kws, e)
                if r[0] == 'builtin':
                    name = r[1]
                elif r[0] == 'ext':
                    name = r[1]
                elif r[0] == 'func':
                    callee = r[1]
            if callee is None and name is None:
                return FRESH
        elif isinstance(f, ast.Attribute):
            r = self.resolve(f)
            if r is not None and r[0] == 'func':
                callee = r[1]
            elif r is not None and r[0] == 'class':
                return self.construct(r[1], args, kws, e)
            elif r is not None and r[0] == 'ext':
                name = r[1]
            else:
                if isinstance(f.value, ast.Name) and f.value.id == self.selfname and self.cur.cls is not None:
                    fm = self.cur.cls.find_method(self.prog, f.attr)
                    if fm is not None:
                        callee, recv = fm, self.env.get(self.selfname, FRESH)
                if callee is None:
                    if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                        return FRESH
                    b = self.ev(f.value)
                    if f.attr in MUT and not (f.attr == 'update' and False):
                        self.mutate(b, e, f'{ast.unparse(f)}()')
                        if f.attr in ('append', 'add', 'insert', 'appendleft'):
                            for _, v in args:
                                self.stored(b, v)
                                self.grow(f.value, hold(v))
                        elif f.attr in ('extend', 'update'):
                            for _, v in args:
                                self.stored(b, v.inside())
                                self.grow(f.value, v.inside())
                        elif f.attr == 'setdefault':
                            for _, v in args[1:]:
                                self.stored(b, v)
                                self.grow(f.value, hold(v))
                    if f.attr in CONTENT_METHODS:
                        if f.attr in ('values', 'keys'):
                            return b.inside()
                        x = b.elem()
                        if f.attr == 'items':
                            return hold(hold(x))
                        for _, v in args[1:]:
                            x = x | v
                        return x
                    if f.attr in ALIAS_METHODS:
                        return b
                    if f.attr in ('copy',):
                        return b.inside()
                    return FRESH
        else:
            v = self.ev(f)
            callee = v.fn
            if callee is None:
                return FRESH
        if callee is not None:
            return self.apply(callee, recv, args, kws, e)
        # builtins and external functions
        if name in FRESH_COPY or name in EXT_COPY_CONTENT:
            if name in ('zip', 'enumerate'):
                return hold(spread(*(v for _, v in args)))
            if name in ('map', 'filter'):
                return spread(*(v for _, v in args[1:])) if name == 'filter' else FRESH
            return spread(*(v for _, v in args)) | hold(*(v for _, v in kws if _ not in ('key', 'reverse')))
        if name in ('next', 'min', 'max', 'getattr'):
            r = FRESH
            for _, v in args if len(args) > 1 and name in ('min', 'max') else args[:1]:
                r = r | (v if len(args) > 1 and name in ('min', 'max') else v.elem())
            return r
        if name in NP_ALIAS and args:
            return args[0][1]
        if name in EXT_MUT and args:
            self.mutate(args[0][1], e, f'{name}()')
            return FRESH
        for k, v in kws:
            if k == 'out':
                self.mutate(v, e, f'{name}(out=...)')
        return FRESH

    def construct(self, ci, args, kws, e):
        init = ci.find_method(self.prog, '__init__')
        c = E
        if init is not None:
            self.apply(init, FRESH, args, kws, e)
            for k, d in self.attr_vals.items():
                if k[1] == self.root_class(ci):
                    for (fi, loc, lv) in d:
                        if loc[0][0] in 'GK':
                            c |= {loc}
        return V(E, c)

    def apply(self, callee, recv, args, kws, e):
        bound = {}
        pos = list(callee.pos)
        if recv is not None and pos:
            bound[pos[0]] = recv
            pos = pos[1:]
        i = 0
        for a, v in args:
            if isinstance(a, ast.Starred):
                el = v.elem()
                for p in pos[i:]:
                    bound[p] = bound.get(p, FRESH) | el
                break
            if i < len(pos):
                bound[pos[i]] = v
                i += 1
            elif callee.vararg:
                o = bound.get(callee.vararg, FRESH)
                bound[callee.vararg] = o | hold(v)
        for k, v in kws:
            if k is None:
                el = v.elem()
                for p in callee.params:
                    if p not in bound:
                        bound[p] = el
            elif k in callee.params:
                bound[k] = v
            elif callee.kwarg:
                o = bound.get(callee.kwarg, FRESH)
                bound[callee.kwarg] = o | hold(v)
        sm = self.sum.get(callee)
        if sm is None:
            return FRESH

        def tr(loc):
            root, lvl = loc
            if root[0] == 'P':
                v = bound.get(root[1])
                if v is None:
                    return E
                return v.at(lvl)
            if root[0] == 'F':
                v = self.env.get(root[1]) if callee.parent is self.cur else None
                if v is None:
                    return frozenset([loc]) if callee.parent is not None and callee.parent is not self.cur else E
                return v.at(lvl)
            return frozenset([loc])
        where = f'{self.cur.module.rel}:{e.lineno}'
        for loc, why in sm.mut.items():
            for x in tr(loc):
                self.S.mut.setdefault(x, (where, f'call of {callee.name}: {why[1]} at {why[0]}'))
        for root, vals in sm.store.items():
            into = tr((root, 0))
            vs = E
            for x in vals:
                vs |= tr(x)
            if vs:
                for (r2, l2) in into:
                    self.S.store.setdefault(r2, set()).update(vs)
        s = c = d = E
        for x in sm.ret.s:
            s |= tr(x)
        for x in sm.ret.c:
            c |= tr(x)
        for x in sm.ret.d:
            d |= tr(x)
        return V(s, c, d)


def terminates(body):
    """The block never completes normally."""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return terminates(s.body) and terminates(s.orelse)
    return False


def mutable_expr(prog, m, e, level, depth=0):
    """Is some object exactly `level` steps inside the value of e mutable (level DEEP: DEEP or more)?
    True only when definite."""
    if e is None or depth > 8:
        return False

    def sub(x):
        if level == 0:
            return False
        return mutable_expr(prog, m, x, level - 1, depth + 1) or (level == DEEP and mutable_expr(prog, m, x, level, depth + 1))
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple)):
        if level == 0:
            return not isinstance(e, ast.Tuple)
        if isinstance(e, (ast.List, ast.Set, ast.Tuple)):
            return any(sub(x) for x in e.elts)
        if isinstance(e, ast.Dict):
            return any(sub(x) for x in e.values)
        return sub(e.value if isinstance(e, ast.DictComp) else e.elt)
    if isinstance(e, ast.Call):
        r = prog.resolve_expr(m, e.func)
        if r is not None and r[0] == 'builtin':
            if r[1] in ('list', 'dict', 'set', 'sorted', 'bytearray'):
                return level == 0 or any(mutable_expr(prog, m, a, level, depth + 1) for a in e.args)
            if r[1] in ('tuple', 'frozenset'):
                return level >= 1 and any(mutable_expr(prog, m, a, level, depth + 1) for a in e.args)
        if r is not None and r[0] == 'ext' and r[1].startswith(('numpy.', 'collections.')) and r[1].rsplit('.', 1)[1] in (
                'array', 'zeros', 'ones', 'linspace', 'arange', 'defaultdict', 'OrderedDict', 'deque', 'asarray'):
            return level == 0
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return mutable_expr(prog, m, e.func.value, level, depth + 1)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'values') and level:
            return mutable_expr(prog, m, e.func.value, level, depth + 1)
        if r is not None and r[0] == 'func':
            return any(mutable_expr(prog, r[1].module, x.value, level, depth + 2) for x in walk_scope(r[1].node) if isinstance(x, ast.Return))
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
        return mutable_expr(prog, m, e.left, level, depth + 1) or mutable_expr(prog, m, e.right, level, depth + 1)
    if isinstance(e, ast.Name):
        r = prog.resolve(m, e.id)
        if r is not None and r[0] == 'var':
            return mutable_global(prog, r[1], r[2], level, depth + 1)
    if isinstance(e, ast.IfExp):
        return mutable_expr(prog, m, e.body, level, depth + 1) or mutable_expr(prog, m, e.orelse, level, depth + 1)
    return False


def mutable_global(prog, m, name, level, depth=0):
    if depth > 8:
        return False
    if any(b[0] == 'var' and mutable_expr(prog, m, b[1], level, depth) for b in m.bind.get(name, ())):
        return True
    # rebound by a function through a global declaration
    for v in global_binds(m).get(name, ()):
        if mutable_expr(prog, m, v, level, depth + 1):
            return True
    # filled after creation: name[key] = value
    if level:
        for t, v in stores(m).get(name, ()):
            if mutable_expr(prog, m, v, level - 1, depth + 1):
                return True
    return False


def stores(m):
    r = getattr(m, '_stores', None)
    if r is None:
        r = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        r.setdefault(t.value.id, []).append((t, n.value))
        m._stores = r
    return r


def global_binds(m):
    r = getattr(m, '_gbinds', None)
    if r is None:
        r = {}
        for f in m.functions.values():
            if f.is_lambda:
                continue
            gl = f.scope_info()[1]
            if gl:
                for n in walk_scope(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id in gl:
                                r.setdefault(t.id, []).append(n.value)
        m._gbinds = r
    return r


def mutable_class_var(prog, cls_fq, attr, level):
    ci = prog.cls(cls_fq, False)
    if ci is None:
        return False
    cv = ci.find_class_var(prog, attr)
    return cv is not None and mutable_expr(prog, ci.module, cv[1], level)


def is_mutable(prog, loc):
    """Definitely a mutable package-level object."""
    root, lvl = loc
    if root[0] == 'G':
        m = prog.modules.get(root[1])
        return m is not None and mutable_global(prog, m, root[2], lvl)
    if root[0] == 'K':
        return mutable_class_var(prog, root[1], root[2], lvl)
    return False
