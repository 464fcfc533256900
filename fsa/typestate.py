"""Definite assignment of instance attributes, over the paths of construction and of each method.

A state is one path class: the tests known on it (by structure, so that two
tests of the same unchanged operand agree), the attributes assigned, and what
is known of local names (constants passed by a caller).  Methods of the object
which are called on self are walked in place.
"""
from __future__ import annotations
import ast

ALL = '*'      # an attribute was stored under a name which is not literal
LIMIT = 96


class State:
    __slots__ = ('facts', 'have', 'names')

    def __init__(self, facts=(), have=frozenset(), names=()):
        self.facts, self.have, self.names = dict(facts), have, dict(names)

    def copy(self):
        return State(self.facts, self.have, self.names)

    def key(self):
        return (frozenset(self.facts.items()), self.have, frozenset((k, repr(v)) for k, v in self.names.items()))


def squeeze(states):
    """Merge states which are alike; keep their number bounded."""
    seen, out = set(), []
    for s in states:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) <= LIMIT:
        return out
    groups = {}
    for s in out:
        g = groups.setdefault(s.have, s)
        if g is not s:
            m = State({k: v for k, v in g.facts.items() if s.facts.get(k) is v}, s.have, {k: v for k, v in g.names.items() if k in s.names and repr(s.names[k]) == repr(v)})
            groups[s.have] = m
    out = list(groups.values())
    if len(out) <= LIMIT:
        return out
    m = out[0]
    for s in out[1:]:
        have = s.have if ALL in m.have else m.have if ALL in s.have else m.have & s.have
        m = State({k: v for k, v in m.facts.items() if s.facts.get(k) is v}, have, {})
    return [m]


class Exits:
    def __init__(self):
        self.ret, self.brk, self.cont = [], [], []


def self_attr(e, me):
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me


class Walk:
    """Walks one class.  on_read(attr, node, function) is called for reads of attributes which are not assigned."""

    def __init__(self, prog, cls, provided, on_read, depth=6):
        self.prog, self.cls, self.provided, self.on_read, self.maxdepth = prog, cls, provided, on_read, depth
        self.stack = []
        self.guard = 0
        self.reads = 0
        self.memo = {}
        self.kills = {}

    # -------------------------------------------------------------- functions
    def call(self, f, states, args=None):
        """States at the normal exits of method f, from those at its entry (facts of the caller's names are set aside)."""
        if len(self.stack) >= self.maxdepth or f in self.stack or f.is_generator():
            return [State(s.facts, s.have | {ALL}, s.names) for s in states] if f in self.stack else states
        out = []
        self.stack.append(f)
        try:
            for s in states:
                names = {}
                for k, e in f.defaults.items():
                    if isinstance(e, ast.Constant):
                        names[k] = e.value
                for k in f.params:
                    if args is None and len(self.stack) == 1:
                        names.pop(k, None)
                    if args is not None and k in args:
                        names.pop(k, None)
                        if isinstance(args[k], ast.Constant):
                            names[k] = args[k].value
                        elif isinstance(args[k], ast.Name) and args[k].id in s.names:
                            names[k] = s.names[args[k].id]
                if args is not None and None in args:
                    names = {}
                inner = State({k: v for k, v in s.facts.items() if k[0] == 'self'}, s.have, names)
                key = (f, inner.key(), self.guard > 0)
                if key in self.memo and len(self.stack) > 1:
                    ends = self.memo[key]
                else:
                    x = Exits()
                    ends = squeeze(self.block(f.body, [inner], x, f) + x.ret)
                    self.memo[key] = ends
                for e in ends:
                    facts = {k: v for k, v in s.facts.items() if k[0] != 'self'}
                    facts.update({k: v for k, v in e.facts.items() if k[0] == 'self'})
                    out.append(State(facts, e.have, s.names))
        finally:
            self.stack.pop()
        return squeeze(out)

    def me(self, f):
        return f.pos[0] if f.pos else None

    def class_facts(self):
        """What the constants at class level tell of attributes which no instance has stored yet."""
        out, seen = {}, set()
        for c in self.cls.mro(self.prog):
            for k, v in c.class_vars.items():
                if k in seen:
                    continue
                seen.add(k)
                if isinstance(v, ast.Constant):
                    load = ast.Attribute(ast.Name('self', ast.Load()), k, ast.Load())
                    for e, val in ((load, bool(v.value)), (ast.Compare(load, [ast.Is()], [ast.Constant(None)]), v.value is None)):
                        out[('self', ast.dump(e), frozenset({'.' + k}))] = val
        return out

    # -------------------------------------------------------------- statements
    def block(self, body, states, x, f):
        for n in body:
            if not states:
                return []
            states = squeeze(self.stmt(n, states, x, f))
        return states

    def stmt(self, n, states, x, f):
        me = self.me(f)
        if isinstance(n, (ast.Expr, ast.Assign, ast.AnnAssign, ast.AugAssign)):
            value = n.value
            if isinstance(n, ast.AugAssign) and self_attr(n.target, me):
                states = self.read(n.target, states, f)
            if value is not None:
                states = self.expr(value, states, f)
            targets = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []
            if isinstance(n, ast.AnnAssign) and value is None:
                return states
            for t in targets:
                states = self.store(t, states, f, value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None)
            return states
        if isinstance(n, ast.If):
            yes, no = self.test(n.test, states, f)
            return self.block(n.body, yes, x, f) + self.block(n.orelse, no, x, f)
        if isinstance(n, ast.Return):
            if n.value is not None:
                states = self.expr(n.value, states, f)
            x.ret += states
            return []
        if isinstance(n, ast.Raise):
            if n.exc is not None:
                self.expr(n.exc, states, f)
            return []
        if isinstance(n, (ast.For, ast.AsyncFor)):
            states = self.expr(n.iter, states, f)
            y = Exits()
            some = isinstance(n.iter, (ast.List, ast.Tuple, ast.Set)) and bool(n.iter.elts)
            once = self.store(n.target, [s.copy() for s in states], f, None)
            stored = self.loop_kills(n, once, f)
            names = self.literal_names(n, f)
            end = self.block(n.body, stored, y, f) + y.cont
            end = self.forget(n, end, f)
            if names:
                end = [State(s.facts, (s.have - {ALL}) | set(names), s.names) for s in end] if any(ALL in s.have for s in end) and not any(ALL in s.have for s in states) else end
                some = True
            base = end if some else end + states
            out = self.block(n.orelse, squeeze(base), x, f) if n.orelse else base
            x.ret += y.ret
            return out + y.brk
        if isinstance(n, ast.While):
            forever = isinstance(n.test, ast.Constant) and bool(n.test.value)
            y = Exits()
            yes, no = self.test(n.test, [s.copy() for s in states], f)
            end = self.block(n.body, self.loop_kills(n, yes, f), y, f) + y.cont
            end = self.forget(n, end, f)
            base = [] if forever else no + end
            out = self.block(n.orelse, squeeze(base), x, f) if n.orelse else base
            x.ret += y.ret
            return out + y.brk
        if isinstance(n, ast.Try):
            caught = any(h.type is None or any(isinstance(k, ast.Name) and k.id in ('AttributeError', 'Exception', 'BaseException') for k in ast.walk(h.type)) for h in n.handlers)
            before = [s.copy() for s in states]
            self.guard += caught
            y = Exits()
            after = self.block(n.body, states, y, f)
            self.guard -= caught
            x.brk += y.brk
            x.cont += y.cont
            after = self.block(n.orelse, after, x, f) if n.orelse else after
            stored = self.forget(n, before, f)
            out = after
            for h in n.handlers:
                out = out + self.block(h.body, [s.copy() for s in stored], x, f)
            x.ret += y.ret
            out = squeeze(out)
            return self.block(n.finalbody, out, x, f) if n.finalbody else out
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                states = self.expr(i.context_expr, states, f)
                if i.optional_vars is not None:
                    states = self.store(i.optional_vars, states, f, None)
            return self.block(n.body, states, x, f)
        if isinstance(n, ast.Break):
            x.brk += states
            return []
        if isinstance(n, ast.Continue):
            x.cont += states
            return []
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if self_attr(t, me):
                    states = [State(self.drop(s.facts, t), s.have - {t.attr}, s.names) for s in states]
            return states
        if isinstance(n, ast.Match):
            states = self.expr(n.subject, states, f)
            out, total = [], False
            for c in n.cases:
                inner = self.forget(c.pattern, [s.copy() for s in states], f)
                if c.guard is not None:
                    inner = self.test(c.guard, inner, f)[0]
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                out += self.block(c.body, inner, x, f)
            return out if total else out + states
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # its calls are not followed: what it may store counts as stored
            st = {k.attr for k in ast.walk(n) if self_attr(k, me) and isinstance(k.ctx, ast.Store)}
            return [State(self.forget(n, [s], f)[0].facts, s.have | st, s.names) for s in states] if st else states
        if isinstance(n, ast.Assert):
            return self.test(n.test, states, f)[0]
        return states

    def forget(self, n, states, f):
        """Drop what is known of names and attributes which n stores."""
        me = self.me(f)
        st = set()
        for k in ast.walk(n):
            if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store):
                st.add(k.id)
            elif isinstance(k, ast.Attribute) and isinstance(k.ctx, ast.Store):
                st.add('.' + k.attr)
            elif isinstance(k, ast.Attribute) and self_attr(k, me):
                m = self.cls.find_method(self.prog, k.attr)
                if m is not None:
                    st |= self.stores_of(m)
        out = []
        for s in states:
            out.append(State({k: v for k, v in s.facts.items() if not (st & k[2]) and not ('self' in st and k[0] == 'self')}, s.have, {k: v for k, v in s.names.items() if k not in st}))
        return out

    def stores_of(self, m, seen=None):
        """Attributes ('.name') which a method or those it calls on the same object may store; 'self' for unknown ones."""
        if m in self.kills:
            return self.kills[m]
        seen = seen if seen is not None else set()
        seen.add(m)
        out, me = set(), self.me(m)
        for k in ast.walk(m.node):
            if isinstance(k, ast.Attribute) and not isinstance(k.ctx, ast.Load):
                out.add('.' + k.attr)
            elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and (k.func.id in ('setattr', 'delattr', 'vars', 'super')):
                out.add('self')
            elif isinstance(k, ast.Call) and not self_attr(k.func, me) and any(isinstance(a, ast.Name) and a.id == me for a in k.args):
                out.add('self')
            elif self_attr(k, me) and k.attr == '__dict__':
                out.add('self')
            elif self_attr(k, me):
                g = self.cls.find_method(self.prog, k.attr)
                if g is not None and g not in seen:
                    out |= self.stores_of(g, seen)
        if len(seen) == 1 or seen and next(iter(seen)) is m:
            self.kills[m] = out
        return out

    def loop_kills(self, n, states, f):
        return self.forget(n, states, f)

    def literal_names(self, n, f):
        """Names which a loop over literal strings stores through setattr(self, name, ...)."""
        me = self.me(f)
        hit = None
        for k in ast.walk(n):
            if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'setattr' and len(k.args) == 3 and isinstance(k.args[0], ast.Name) and k.args[0].id == me and isinstance(k.args[1], ast.Name):
                hit = k.args[1].id
        if hit is None:
            return ()
        it, t = n.iter, n.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            pairs = list(zip(t.elts, it.args))
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            pairs = [(t.elts[0], it.func.value)]
        else:
            pairs = [(t, it)]
        for a, b in pairs:
            if isinstance(a, ast.Name) and a.id == hit:
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                    v = self.cls.find_class_var(self.prog, b.attr)
                    b = v[1] if v else b
                elif isinstance(b, ast.Name):
                    for q in f.module.tree.body:
                        if isinstance(q, ast.Assign) and any(isinstance(z, ast.Name) and z.id == b.id for z in q.targets):
                            b = q.value
                            break
                els = b.keys if isinstance(b, ast.Dict) else b.elts if isinstance(b, (ast.List, ast.Tuple, ast.Set)) else []
                if els and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in els):
                    return [e.value for e in els]
        return ()

    # -------------------------------------------------------------- tests
    def factkey(self, e, f):
        me = self.me(f)
        names, selfish = set(), True
        for k in ast.walk(e):
            if isinstance(k, ast.Call):
                return None
            if isinstance(k, ast.Name):
                if k.id != me:
                    names.add(k.id)
                    loc, glob, nonl = f.scope_info()
                    if k.id in loc or k.id in f.all_params:
                        selfish = False
            elif isinstance(k, ast.Attribute):
                names.add('.' + k.attr)
        return ('self' if selfish else f.fq, ast.dump(e), frozenset(names))

    def known(self, e, s, f):
        """Truth of a test from constants passed for names."""
        def val(q):
            if isinstance(q, ast.Constant):
                return True, q.value
            if isinstance(q, ast.Name) and q.id in s.names:
                return True, s.names[q.id]
            return False, None
        ok, v = val(e)
        if ok:
            return bool(v)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            (a, x), (b, y) = val(e.left), val(e.comparators[0])
            if a and b:
                op = e.ops[0]
                try:
                    if isinstance(op, ast.Is):
                        return x is y
                    if isinstance(op, ast.IsNot):
                        return x is not y
                    if isinstance(op, ast.Eq):
                        return x == y
                    if isinstance(op, ast.NotEq):
                        return x != y
                    if isinstance(op, ast.Lt):
                        return x < y
                    if isinstance(op, ast.Gt):
                        return x > y
                except TypeError:
                    return None
        return None

    def test(self, e, states, f):
        """(states where the test holds, states where it fails)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.test(e.operand, states, f)
            return b, a
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            live, done = states, []
            for v in e.values:
                if not live:
                    break
                yes, no = self.test(v, live, f)
                if conj:
                    live, done = yes, done + no
                else:
                    live, done = no, done + yes
            return (live, squeeze(done)) if conj else (squeeze(done), live)
        me = self.me(f)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and e.args[0].id == me and isinstance(e.args[1], ast.Constant):
            a = e.args[1].value
            yes = [State(s.facts, s.have | {a}, s.names) for s in states]
            no = [s for s in states if a not in s.have and a not in self.provided]
            return yes, no
        states = self.expr(e, states, f)
        flip, key = False, e
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            swap = {ast.IsNot: ast.Is, ast.NotEq: ast.Eq, ast.NotIn: ast.In}.get(type(e.ops[0]))
            if swap:
                key = ast.Compare(e.left, [swap()], e.comparators)
                flip = True
        k = self.factkey(key, f)
        yes, no = [], []
        for s in states:
            v = self.known(e, s, f)
            if v is None and k is not None and k in s.facts:
                v = s.facts[k] != flip
            if v is None and isinstance(e, (ast.Name, ast.Attribute)):
                isnone = self.factkey(ast.Compare(e, [ast.Is()], [ast.Constant(None)]), f)
                if isnone is not None and s.facts.get(isnone) is True:
                    v = False
            for want, out in ((True, yes), (False, no)):
                if v is None or v is want:
                    t = s.copy()
                    if k is not None:
                        t.facts[k] = want != flip
                        if want and isinstance(e, (ast.Name, ast.Attribute)):
                            isnone = self.factkey(ast.Compare(e, [ast.Is()], [ast.Constant(None)]), f)
                            if isnone is not None:
                                t.facts[isnone] = False
                    out.append(t)
        return squeeze(yes), squeeze(no)

    # -------------------------------------------------------------- expressions
    def read(self, n, states, f):
        self.reads += 1
        a = n.attr
        m = self.cls.find_method(self.prog, a)
        if m is not None and any(d in ('property', 'cached_property') for d in m.decorator_names()) and m not in self.stack:
            return self.call(m, states, {})
        if a in self.provided or a.startswith('__'):
            return states
        if not self.guard and any(a not in s.have and ALL not in s.have for s in states):
            self.on_read(a, n, f, list(self.stack))
        # past this point the attribute exists
        return [State(s.facts, s.have | {a}, s.names) for s in states]

    def expr(self, e, states, f):
        me = self.me(f)
        if isinstance(e, ast.Lambda) or isinstance(e, (ast.FunctionDef, ast.ClassDef)):
            return states
        if isinstance(e, ast.BoolOp):
            yes, no = self.test(e, states, f)
            return squeeze(yes + no)
        if isinstance(e, ast.IfExp):
            yes, no = self.test(e.test, states, f)
            return squeeze(self.expr(e.body, yes, f) + self.expr(e.orelse, no, f))
        if self_attr(e, me) and isinstance(e.ctx, ast.Load):
            return self.read(e, states, f)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s0 = self.expr(e.generators[0].iter, states, f)
            inner = [s.copy() for s in s0]
            for i, g in enumerate(e.generators):
                if i:
                    inner = self.expr(g.iter, inner, f)
                for c in g.ifs:
                    inner = self.test(c, inner, f)[0]
            for part in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                if inner:
                    inner = self.expr(part, inner, f)
            return s0
        if isinstance(e, ast.Call):
            return self.callexpr(e, states, f)
        if isinstance(e, ast.NamedExpr):
            return self.store(e.target, self.expr(e.value, states, f), f, e.value)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                states = self.expr(c, states, f)
            elif isinstance(c, ast.keyword):
                states = self.expr(c.value, states, f)
        return states

    def bind(self, m, e, skip):
        args, pos = {}, m.pos[skip:]
        for p, a in zip(pos, e.args):
            args[p] = a
        for k in e.keywords:
            args[k.arg] = k.value
        if any(isinstance(a, ast.Starred) for a in e.args):
            args[None] = None
        return args

    def callexpr(self, e, states, f):
        me = self.me(f)
        fn = e.func
        args = list(e.args) + [k.value for k in e.keywords]
        target, skip = None, 1
        if self_attr(fn, me):
            target = self.cls.find_method(self.prog, fn.attr)
            if target is not None and any(d in ('staticmethod', 'classmethod', 'property') for d in target.decorator_names()):
                if 'property' not in target.decorator_names():
                    target = None
                    for a in args:
                        states = self.expr(a, states, f)
                    return states
                target = None
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
            own = next((c for c in self.cls.mro(self.prog) if f.name in c.methods and c.methods[f.name] is f), None)
            mro = self.cls.mro(self.prog)
            for c in (mro[mro.index(own) + 1:] if own in mro else []):
                if fn.attr in c.methods:
                    target = c.methods[fn.attr]
                    break
            if target is None:
                for a in args:
                    states = self.expr(a, states, f)
                return states
        elif isinstance(fn, ast.Attribute) and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == me:
            r = self.prog.resolve_expr_in(f, fn)
            if r and r[0] == 'func' and r[1].cls is not None:
                target, skip = r[1], 0
        elif isinstance(fn, ast.Name) and fn.id in ('setattr', 'delattr', 'hasattr', 'getattr') and args and isinstance(args[0], ast.Name) and args[0].id == me:
            for a in args[1:]:
                states = self.expr(a, states, f)
            k = args[1] if len(args) > 1 else None
            name = k.value if isinstance(k, ast.Constant) else None
            if fn.id == 'setattr':
                return [State({q: v for q, v in s.facts.items() if q[0] != 'self' or name is not None and '.' + name not in q[2]}, s.have | {name or ALL}, s.names) for s in states]
            if fn.id == 'delattr' and name:
                return [State(s.facts, s.have - {name}, s.names) for s in states]
            return states
        elif isinstance(fn, ast.Attribute) and fn.attr == 'update' and (isinstance(fn.value, ast.Attribute) and fn.value.attr == '__dict__' and self_attr(fn.value, me) or isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'vars'):
            for a in args:
                states = self.expr(a, states, f)
            keys = {k.arg for k in e.keywords if k.arg}
            opaque = bool(e.args) or any(k.arg is None for k in e.keywords)
            return [State(s.facts, s.have | keys | ({ALL} if opaque else set()), s.names) for s in states]
        if target is not None:
            for a in args:
                states = self.expr(a, states, f)
            return self.call(target, states, self.bind(target, e, skip))
        # a plain function which is handed the object itself may store anything
        handed = any(isinstance(a, ast.Name) and a.id == me for a in args)
        states = self.expr(fn, states, f)
        for a in args:
            states = self.expr(a.value if isinstance(a, ast.Starred) else a, states, f)
        if handed and not (isinstance(fn, ast.Name) and fn.id in ('isinstance', 'type', 'id', 'repr', 'str', 'hash', 'len')):
            r = self.prog.resolve_expr_in(f, fn)
            if r is not None and r[0] in ('func',) and r[1].cls is None and r[1] not in self.stack:
                # a module-level helper which takes the object
                g = r[1]
                for p, a in zip(g.pos, e.args):
                    if isinstance(a, ast.Name) and a.id == me and g.pos and g.pos[0] == p:
                        return self.call(g, states, self.bind(g, e, 0))
            return [State(s.facts, s.have | {ALL}, s.names) for s in states]
        return states

    # -------------------------------------------------------------- stores
    def drop(self, facts, t):
        if isinstance(t, ast.Name):
            return {k: v for k, v in facts.items() if t.id not in k[2]}
        return {k: v for k, v in facts.items() if '.' + t.attr not in k[2]}

    def store(self, t, states, f, value):
        me = self.me(f)
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None]*len(t.elts)
            for q, v in zip(t.elts, vals):
                states = self.store(q, states, f, v)
            return states
        if isinstance(t, ast.Starred):
            return self.store(t.value, states, f, None)
        out = []
        if isinstance(value, ast.Name) and value.id == me and me is not None:
            # an alias of the object: stores through it are not followed
            states = [State({}, s.have | {ALL}, s.names) for s in states]
        for s in states:
            if isinstance(t, ast.Name):
                names = dict(s.names)
                names.pop(t.id, None)
                facts = self.drop(s.facts, t)
                if isinstance(value, ast.Constant):
                    names[t.id] = value.value
                elif isinstance(value, ast.Name) and value.id in s.names:
                    names[t.id] = s.names[value.id]
                out.append(State(facts, s.have, names))
            elif self_attr(t, me):
                facts = self.drop(s.facts, t)
                if value is not None:
                    load = ast.Attribute(ast.Name(me, ast.Load()), t.attr, ast.Load())
                    none = self.factkey(ast.Compare(load, [ast.Is()], [ast.Constant(None)]), f)
                    truth = self.factkey(load, f)
                    c = value if isinstance(value, ast.Constant) else None
                    if c is None and isinstance(value, ast.Name):
                        if value.id in s.names:
                            c = ast.Constant(s.names[value.id])
                        else:
                            old = s.facts.get(self.factkey(ast.Compare(ast.Name(value.id, ast.Load()), [ast.Is()], [ast.Constant(None)]), f))
                            if old is not None:
                                facts[none] = old
                            old = s.facts.get(self.factkey(ast.Name(value.id, ast.Load()), f))
                            if old is not None:
                                facts[truth] = old
                    if c is not None:
                        facts[none], facts[truth] = c.value is None, bool(c.value)
                out.append(State(facts, s.have | {t.attr}, s.names))
            else:
                out.append(s)
        if isinstance(t, ast.Subscript):
            out = self.expr(t.value, out, f)
            out = self.expr(t.slice, out, f)
        elif isinstance(t, ast.Attribute) and not self_attr(t, me):
            out = self.expr(t.value, out, f)
        return out


def class_level(prog, cls):
    out = set()
    for c in cls.mro(prog):
        out |= set(c.class_vars) | set(c.methods)
        for n in c.node.body:
            if isinstance(n, ast.ClassDef):
                out.add(n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.Import, ast.ImportFrom, ast.For)):
                for k in ast.walk(n):
                    if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Store) and not (isinstance(n, ast.AnnAssign) and n.value is None):
                        out.add(k.id)
    return out


def opaque_bases(prog, cls):
    return any(r is None or r[0] not in ('class', 'builtin') for c in cls.mro(prog) for b in c.node.bases for r in [prog.resolve_expr(c.module, b)])


def analyse(prog, cls):
    """{(attr, entry method): (location, chain)} of reads of attributes missing on some path, the states after
    construction, and the number of reads looked at."""
    out = {}
    provided = class_level(prog, cls)
    entry = ['__init__']

    def on_read(a, n, f, stack):
        out.setdefault((a, entry[0]), (f'{f.module.rel}:{n.lineno}', ' > '.join(g.name for g in stack)))
    w = Walk(prog, cls, provided, on_read)
    init = cls.find_method(prog, '__init__')
    states = [State(w.class_facts())]
    if init is not None:
        states = w.call(init, states)
    states = [State(s.facts, s.have, {}) for s in states]
    methods = {}
    for c in cls.mro(prog):
        for k, m in c.methods.items():
            methods.setdefault(k, m)
    n = 0
    public = [(k, m) for k, m in methods.items() if not (k == '__init__' or k.startswith('_') and not k.startswith('__')) and m.pos
              and not any(d in ('staticmethod', 'classmethod') for d in m.decorator_names())]
    after = {}
    for k, m in public:
        n += 1
        entry[0] = k
        after[k] = w.call(m, [s.copy() for s in states])
    # histories of two calls
    for k, m in public:
        if not w.stores_of(m) or not after[k]:
            continue
        for k2, m2 in public:
            entry[0] = k + '; ' + k2
            n += 1
            if not any(a == (q, k2) or a == (q, k) for a in out for q in (a[0],)):
                w.call(m2, [State(s.facts, s.have, {}) for s in after[k]])
    return out, states, n, w.reads
