"""Path-sensitive abstract interpreter over the package's syntax trees.

Forward analysis; states fork at undecided branches and are merged again when
they agree on every discrete component (or when a cap is exceeded).  Unknown
quantities stay unknown: a fact reported by a client holds on an abstract path
on which every decided condition was decided by the domain."""
from __future__ import annotations
import ast
import builtins
import math
import operator

from .program import AnalysisBroken, FuncInfo, ClassInfo, walk_scope, COMP
from .values import (Val, Const, NONE, Sym, Lit, TupV, ListV, DictV, Inst, Ref, Fn, Ext, Cls, Mod, Slice, EMPTY, INF, fresh, vnum,
                     join_deps)

MISSING = object()
CAP_SOFT, CAP_HARD = 40, 160


class Budget(Exception):
    pass


class Fact:
    __slots__ = ('lo', 'loo', 'hi', 'hio', 'eq', 'ne', 'truth')

    def __init__(self, lo=-INF, loo=False, hi=INF, hio=False, eq=MISSING, ne=EMPTY, truth=None):
        self.lo, self.loo, self.hi, self.hio, self.eq, self.ne, self.truth = lo, loo, hi, hio, eq, ne, truth

    def copy(self):
        return Fact(self.lo, self.loo, self.hi, self.hio, self.eq, self.ne, self.truth)

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.loo or self.hio)) or (self.lo == self.hi and self.lo in self.ne)

    def __eq__(self, o):
        return isinstance(o, Fact) and all(getattr(self, s) == getattr(o, s) for s in self.__slots__)


class Frame:
    __slots__ = ('fi', 'parent', 'env')

    def __init__(self, fi, parent, env):
        self.fi, self.parent, self.env = fi, parent, env


class State:
    __slots__ = ('frames', 'heap', 'facts', 'rel', 'ctrl', 'trace', 'cur', 'dims', 'extra')

    def __init__(self):
        self.frames, self.heap, self.facts, self.rel = {}, {}, {}, {}
        self.ctrl, self.trace, self.cur, self.dims, self.extra = EMPTY, (), None, {}, ()

    def copy(self):
        s = State()
        s.frames = {k: Frame(f.fi, f.parent, dict(f.env)) for k, f in self.frames.items()}
        s.heap, s.facts, s.rel, s.dims = dict(self.heap), dict(self.facts), dict(self.rel), dict(self.dims)
        s.ctrl, s.trace, s.cur, s.extra = self.ctrl, self.trace, self.cur, self.extra
        return s

    @property
    def env(self):
        return self.frames[self.cur].env


class Outcome:
    __slots__ = ('kind', 'val', 'st', 'node', 'exc', 'why', 'env')

    def __init__(self, kind, val, st, node, exc=None, why=None):
        self.env = None
        self.kind, self.val, self.st, self.node, self.exc, self.why = kind, val, st, node, exc, why

    def __repr__(self):
        return f'<{self.kind} {self.val if self.kind == "return" else self.exc} @{getattr(self.node, "lineno", 0)}>'


BINOPS = {ast.Add: ('+', operator.add), ast.Sub: ('-', operator.sub), ast.Mult: ('*', operator.mul), ast.Div: ('/', operator.truediv),
          ast.FloorDiv: ('//', operator.floordiv), ast.Mod: ('%', operator.mod), ast.Pow: ('**', operator.pow),
          ast.BitAnd: ('&', operator.and_), ast.BitOr: ('|', operator.or_), ast.BitXor: ('^', operator.xor),
          ast.LShift: ('<<', operator.lshift), ast.RShift: ('>>', operator.rshift), ast.MatMult: ('@', None)}
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
NEGOP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
RELSET = {'<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '>=': frozenset('>='), '==': frozenset('='), '!=': frozenset('<>')}
ALLREL = frozenset('<=>')
FLIP = {'<': '>', '>': '<', '=': '='}

MATH_NUM = {'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'expm1',
            'log', 'log10', 'log1p', 'log2', 'pow', 'fabs', 'floor', 'ceil', 'trunc', 'radians', 'degrees', 'hypot', 'erf', 'erfc', 'gamma',
            'lgamma', 'copysign', 'fmod', 'ldexp', 'fsum', 'factorial', 'isinf', 'isnan', 'isfinite', 'modf', 'frexp', 'comb', 'gcd', 'cbrt', 'fma'}
PYNUM = (int, float, complex, bool)


def is_num(v):
    return isinstance(v, PYNUM)


class Interp:
    inline_depth = 7

    def __init__(self, prog, budget=400000):
        self.prog = prog
        self.budget0 = self.budget = budget
        self.raised = []
        self.stack = []        # FuncInfo call stack
        self.modcache = {}
        self.modbusy = set()
        self.module_override = {}
        self.loop_unroll = 48
        self.prefixes = {}
        self.soft, self.hard = CAP_SOFT, CAP_HARD
        self.incomplete = []

    # ------------------------------------------------------------------ API
    def entry(self, fi, args=None, st=None, defaults=False):
        """Run fi from a fresh state. args: name -> Val for any parameter."""
        st = st or State()
        self.budget = self.budget0
        a = {}
        for p in fi.params:
            if args and p in args:
                a[p] = args[p]
            elif defaults and p in fi.defaults:
                d = self.eval_default(fi, p, st)
                a[p] = d
            else:
                a[p] = self.param_value(fi, p)
        if fi.vararg:
            a[fi.vararg] = (args or {}).get(fi.vararg) or Sym(deps=frozenset([fi.vararg]), kind='obj')
        if fi.kwarg:
            a[fi.kwarg] = (args or {}).get(fi.kwarg) or Sym(deps=frozenset([fi.kwarg]), kind='obj')
        self.stack = []
        self.raised = []
        return self.run_body(fi, a, st, None)

    def param_kind(self, fi, p):
        """'num' | 'str' | 'bool' | 'obj' | 'any' from annotation/default."""
        ann = None
        for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
            if x.arg == p:
                ann = x.annotation
        d = fi.defaults.get(p)
        none_default = isinstance(d, ast.Constant) and d.value is None
        txt = ''
        if ann is not None:
            txt = ann.value if isinstance(ann, ast.Constant) and isinstance(ann.value, str) else ast.unparse(ann)
        if none_default or 'None' in txt or 'Optional' in txt:
            return 'any'
        if txt == 'float' or txt == 'int':
            return 'num'
        if txt == 'bool':
            return 'bool'
        if txt == 'str':
            return 'str'
        if txt:
            return 'obj'
        if isinstance(d, ast.Constant):
            if isinstance(d.value, bool):
                return 'bool'
            if isinstance(d.value, (int, float)):
                return 'num'
            if isinstance(d.value, str):
                return 'str'
        if d is not None:
            return 'any'
        return 'obj'

    def param_value(self, fi, p):
        return Sym(vn=vnum('param', fi.fq, p), deps=frozenset([p]), kind=self.param_kind(fi, p))

    def eval_default(self, fi, p, st):
        d = fi.defaults[p]
        return self.const_expr(fi.module, d)

    # ----------------------------------------------------------- functions
    def run_body(self, fi, args, st, parent_frame, caller=None):
        fid = fresh()
        saved = st.cur
        st.frames[fid] = Frame(fi, parent_frame, dict(args))
        st.cur = fid
        self.stack.append(fi)
        old = self.raised
        self.raised = []
        try:
            normals, outs = self.exec_block(fi.body, [st])
        finally:
            self.stack.pop()
            self.raised = old
        res = []
        for s in normals:
            res.append(Outcome('return', NONE, s, fi.node, why='falls off the end'))
        for o in outs:
            if o.kind in ('return', 'raise'):
                res.append(o)
        keep = bool(self._has_nested(fi))
        for o in res:
            o.st.cur = saved
            if not self.stack and fid in o.st.frames:
                o.env = o.st.frames[fid].env
            if not keep:
                o.st.frames.pop(fid, None)
        return res

    def _has_nested(self, fi):
        if fi._children is None:
            fi._children = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in walk_scope(fi.node))
        return fi._children

    def call_fn(self, fn, args, kwargs, st, node, star=False):
        """Returns list of (st, val); raises go to self.raised."""
        fi = fn.fi
        if fn.self_ is not None:
            args = [fn.self_] + list(args)
        if fn.partial:
            args = list(fn.partial[0]) + list(args)
            kwargs = {**fn.partial[1], **kwargs}
        bound = None if star else self.bind(fi, args, kwargs, st, node)
        if bound is False:
            return []
        r = self.on_call(fn, bound, args, kwargs, st, node)
        if r is not None:
            return r
        if bound is None or fi.is_generator() or self.policy(fn, bound, st, node) == 'opaque' or fi in self.stack \
                or len(self.stack) > self.inline_depth:
            return self.opaque_call(fn, bound, args, kwargs, st, node)
        for d in fi.decorator_names():
            if d not in ('staticmethod', 'classmethod', 'property', 'mark_numba_incompatible', 'numba.njit', 'njit', 'mark_numba_uncacheable'):
                return self.opaque_call(fn, bound, args, kwargs, st, node)
        outs = self.run_body(fi, bound, st, fn.frame)
        res = []
        for o in outs:
            if o.kind == 'return':
                res.append((o.st, o.val))
            else:
                self.raised.append(o)
        return self.compact_results(res)

    def compact_results(self, res):
        if len(res) <= 1:
            return res
        if len(res) > self.soft:
            res = self.merge_results(res)
        return res

    def merge_results(self, res):
        groups = {}
        for st, v in res:
            groups.setdefault((self.vkey(v), self.state_key(st)), []).append((st, v))
        out = []
        for k, g in groups.items():
            st, v = g[0]
            for s2, v2 in g[1:]:
                v = self.join_val(v, v2, st, s2)
                self.join_into(st, s2)
            out.append((st, v))
        if len(out) > self.hard:
            st, v = out[0]
            for s2, v2 in out[1:]:
                v = self.join_val(v, v2, st, s2)
                self.join_into(st, s2)
            out = [(st, v)]
        return out

    def bind(self, fi, args, kwargs, st, node):
        bound = {}
        pos = fi.pos
        if len(args) > len(pos) and not fi.vararg:
            self.raise_(st, node, 'TypeError', f'{fi.name}() takes {len(pos)} positional arguments, {len(args)} given')
            return False
        for n, v in zip(pos, args):
            bound[n] = v
        if fi.vararg:
            bound[fi.vararg] = TupV(args[len(pos):])
        extra = {}
        for k, v in kwargs.items():
            if k in bound and k != fi.vararg:
                self.raise_(st, node, 'TypeError', f'{fi.name}() got multiple values for argument {k}')
                return False
            if k in fi.params:
                bound[k] = v
            elif fi.kwarg:
                extra[k] = v
            else:
                self.raise_(st, node, 'TypeError', f'{fi.name}() got an unexpected keyword argument {k}')
                return False
        if fi.kwarg:
            bound[fi.kwarg] = DictV(extra)
        for p in fi.params:
            if p not in bound:
                if p in fi.defaults:
                    if fi.parent is not None or fi.is_lambda:
                        d = fi.defaults[p]
                        bound[p] = self.nested_default(fi, d, st)
                    else:
                        bound[p] = self.eval_default(fi, p, st)
                else:
                    self.raise_(st, node, 'TypeError', f'{fi.name}() missing required argument {p}')
                    return False
        return bound

    def nested_default(self, fi, d, st):
        try:
            v = ast.literal_eval(d)
            return self.wrap(v)
        except (ValueError, TypeError, SyntaxError):
            return Sym()

    # hooks ---------------------------------------------------------------
    def policy(self, fn, bound, st, node):
        return 'inline'

    def on_call(self, fn, bound, args, kwargs, st, node):
        return None

    def on_event(self, kind, st, node, msg, data=None):
        pass

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        deps = join_deps([self.deref_deep(a, st) for a in args]) | join_deps([self.deref_deep(a, st) for a in kwargs.values()])
        return [(st, self.opaque_shape(fn.fi, deps))]

    def opaque_shape(self, fi, deps):
        sh = self.return_shape(fi)
        if isinstance(sh, int):
            return TupV([Sym(deps=deps) for _ in range(sh)])
        return Sym(deps=deps, kind='num' if sh == 'num' else 'any')

    _shapes = {}

    def return_shape(self, fi):
        if fi not in self._shapes:
            self._shapes[fi] = None
            if not fi.is_lambda:
                sh = set()
                for n in walk_scope(fi.node):
                    if isinstance(n, ast.Return):
                        if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts):
                            sh.add(len(n.value.elts))
                        else:
                            sh.add('x')
                if len(sh) == 1 and sh != {'x'}:
                    self._shapes[fi] = sh.pop()
                elif fi.node.returns is not None and ast.unparse(fi.node.returns) in ('float', 'int'):
                    self._shapes[fi] = 'num'
        return self._shapes[fi]

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts, states):
        outs = []
        for s in stmts:
            if not states:
                break
            nxt = []
            for st in states:
                n, o = self.exec_stmt(s, st)
                nxt.extend(n)
                outs.extend(o)
            states = self.reduce(nxt)
        return states, self.reduce_outs(outs)

    def reduce_outs(self, outs):
        # collapse raise outcomes with identical type+node (keep first few)
        if len(outs) < self.soft:
            return outs
        seen, res = {}, []
        for o in outs:
            if o.kind == 'raise':
                k = (id(o.node), o.exc)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > 3:
                    continue
            res.append(o)
        rets = [o for o in res if o.kind == 'return']
        if len(rets) > 4 * self.hard:
            groups, new = {}, []
            for o in rets:
                groups.setdefault((id(o.node), self.vkey(o.val)), []).append(o)
            for g in groups.values():
                f = g[0]
                for o in g[1:]:
                    f.val = self.join_val(f.val, o.val, f.st, o.st)
                    self.join_into(f.st, o.st)
                new.append(f)
            res = [o for o in res if o.kind != 'return'] + new
        return res

    def exec_stmt(self, s, st):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        old = self.raised
        self.raised = []
        try:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                n, o = [st], []
            else:
                n, o = m(s, st)
            o = list(o) + self.raised
        finally:
            self.raised = old
        return n, o

    def x_Expr(self, s, st):
        return [a for a, _ in self.eval(s.value, st)], []

    def x_Pass(self, s, st):
        return [st], []

    def x_Import(self, s, st):
        for al in s.names:
            n = al.asname or al.name.split('.')[0]
            t = al.name if al.asname else al.name.split('.')[0]
            if self.declared_global(st, n):
                continue
            st.env[n] = Mod(self.prog.modules[t]) if t in self.prog.modules else Ext(t)
        return [st], []

    def x_ImportFrom(self, s, st):
        m = self.frame_module(st).abs_mod(s)
        for al in s.names:
            if al.name == '*':
                continue
            n = al.asname or al.name
            r = self.prog._import(m, al.name, set())
            if self.declared_global(st, n):
                continue
            st.env[n] = self.resolved(r)
        return [st], []

    def declared_global(self, st, name):
        fi = st.frames[st.cur].fi
        return fi is not None and name in fi.scope_info()[1]

    def x_Global(self, s, st):
        return [st], []

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s, st):
        fi = self.frame_module(st).by_node.get(s)
        self.store_name(s.name, Fn(fi, st.cur), st)
        return [st], []

    def x_ClassDef(self, s, st):
        ci = self.frame_module(st).by_node.get(s)
        self.store_name(s.name, Cls(ci), st)
        return [st], []

    def x_Return(self, s, st):
        if s.value is None:
            return [], [Outcome('return', NONE, st, s)]
        return [], [Outcome('return', v, a, s) for a, v in self.eval(s.value, st)]

    def x_Raise(self, s, st):
        if s.exc is None:
            return [], [Outcome('raise', None, st, s, None, 'explicit')]
        exc = s.exc
        nm = None
        e = exc.func if isinstance(exc, ast.Call) else exc
        r = self.lookup_expr(e, st)
        if isinstance(r, Cls):
            nm = r.ci.fq
        elif isinstance(r, Ext):
            nm = r.name.replace('builtins.', '')
        outs = []
        for a, v in (self.eval(exc, st) if isinstance(exc, ast.Call) else [(st, None)]):
            outs.append(Outcome('raise', v, a, s, nm, 'explicit'))
        return [], outs

    def x_Assert(self, s, st):
        res = []
        for a, t in self.cond(s.test, st):
            if t:
                res.append(a)
            else:
                self.raise_(a, s, 'AssertionError', 'assert')
        return res, []

    def x_Assign(self, s, st):
        res = []
        for a, v in self.eval(s.value, st):
            ok = [a]
            for t in s.targets:
                ok = [x for y in ok for x in self.assign(t, v, y, s)]
            res.extend(ok)
        return res, []

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return [st], []
        return [x for a, v in self.eval(s.value, st) for x in self.assign(s.target, v, a, s)], []

    def x_AugAssign(self, s, st):
        load = ast.copy_location(self._as_load(s.target), s.target)
        res = []
        for a, (x, y) in self.eval_seq([load, s.value], st):
            if isinstance(x, Ref) and isinstance(s.op, ast.Add):
                h = a.heap.get(x.id)
                if isinstance(h, ListV):
                    self.on_event('mutate', a, s, 'augmented assignment', x)
                    ys = self.iter_items(y, a)
                    if ys is not None and h.items is not None:
                        a.heap[x.id] = ListV(h.items + ys)
                    else:
                        a.heap[x.id] = ListV(None, Sym(deps=h.deps | self.deref_deep(y, a).deps))
                    res.extend(self.assign(s.target, x, a, s))
                    continue
            if isinstance(x, Ref) or isinstance(x, (Lit, ListV)):
                self.on_event('mutate', a, s, 'augmented assignment', x)
            for b, v in self.binop(s.op, x, y, a, s):
                res.extend(self.assign(s.target, v, b, s))
        return res, []

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
        if isinstance(t, ast.Attribute):
            return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                r = self.eval(t.value, st)
                for a, v in r:
                    self.on_event('mutate', a, s, 'del item', v)
                    if isinstance(v, Ref):
                        h = a.heap.get(v.id)
                        if isinstance(h, ListV):
                            a.heap[v.id] = ListV(None, Sym(deps=h.deps))
                        elif isinstance(h, DictV):
                            a.heap[v.id] = DictV(h.items, False, h.xdeps)
        return [st], []

    def x_If(self, s, st):
        normals, outs = [], []
        for a, t in self.cond(s.test, st):
            n, o = self.exec_block(s.body if t else s.orelse, [a])
            normals.extend(n)
            outs.extend(o)
        return normals, outs

    def x_With(self, s, st):
        sts = [st]
        for it in s.items:
            nx = []
            for a in sts:
                for b, v in self.eval(it.context_expr, a):
                    if it.optional_vars is not None:
                        nx.extend(self.assign(it.optional_vars, Sym(deps=v.deps, kind='obj'), b, s))
                    else:
                        nx.append(b)
            sts = nx
        return self.exec_block(s.body, sts)

    def x_Try(self, s, st):
        base = st.copy()
        n, o = self.exec_block(s.body, [st])
        normals, outs = [], []
        raises = [x for x in o if x.kind == 'raise']
        outs = [x for x in o if x.kind != 'raise']
        if s.orelse:
            n, o2 = self.exec_block(s.orelse, n)
            outs.extend(o2)
        normals.extend(n)
        # a generic exception somewhere inside the body
        generic = self.havoc(base, s.body, [])
        pend = [(Outcome('raise', None, generic, s, MISSING), True)] + [(r, False) for r in raises]
        for r, gen in pend:
            handled = False
            for h in s.handlers:
                m = True if gen else self.exc_match(r.exc, h.type, r.st)
                if not m:
                    continue
                hs = r.st if m is True and not gen else r.st.copy()
                if h.name:
                    self.store_name(h.name, Sym(kind='obj'), hs)
                hn, ho = self.exec_block(h.body, [hs])
                normals.extend(hn)
                for x in ho:
                    if x.kind == 'raise' and x.exc is None and x.why == 'explicit' and not gen:
                        x.exc = r.exc
                    outs.append(x)
                if m is True and not gen:
                    handled = True
                    break
            if not handled and not gen:
                outs.append(r)
        if s.finalbody:
            normals, fo = self.exec_block(s.finalbody, normals)
            fouts = []
            for x in outs:
                fn, fo2 = self.exec_block(s.finalbody, [x.st])
                for z in fn:
                    fouts.append(Outcome(x.kind, x.val, z, x.node, x.exc, x.why))
                fouts.extend(fo2)
            outs = fouts + fo
        return normals, outs

    x_TryStar = x_Try

    def exc_match(self, exc, typ, st):
        """True / False / None (maybe)."""
        if typ is None:
            return True
        names = typ.elts if isinstance(typ, ast.Tuple) else [typ]
        if exc is None or exc is MISSING:
            return None
        maybe = False
        for t in names:
            r = self.lookup_expr(t, st)
            if isinstance(r, Cls):
                tn = r.ci.fq
            elif isinstance(r, Ext):
                tn = r.name.replace('builtins.', '')
            else:
                maybe = True
                continue
            if tn in ('Exception', 'BaseException') or tn == exc:
                return True
            a, b = getattr(builtins, exc, None), getattr(builtins, tn, None)
            if a is not None and b is not None and isinstance(a, type) and isinstance(b, type):
                if issubclass(a, b):
                    return True
            elif '.' in exc:
                ci = self.prog.cls(exc, required=False)
                if ci:
                    if any(c.fq == tn for c in ci.mro(self.prog)):
                        return True
                    for c in ci.mro(self.prog):
                        for bse in c.node.bases:
                            if isinstance(bse, ast.Name) and isinstance(getattr(builtins, bse.id, None), type) and b is not None \
                                    and issubclass(getattr(builtins, bse.id), b):
                                return True
        return None if maybe else False

    # loops ----------------------------------------------------------------
    def assigned_names(self, stmts):
        names = set()
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
        return names

    MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard'}

    def havoc(self, st, stmts, extra_deps, bind_new=True):
        """State over-approximating any number of executions of stmts."""
        a = st.copy()
        names = self.assigned_names(stmts)
        read = EMPTY
        for n in names:
            f = self.find_frame(n, a)
            if f is None:
                if bind_new:
                    a.env[n] = Sym()
                continue
            old = f.env[n]
            nd = self.deref_deep(old, a).deps
            f.env[n] = self.havoc_val(old, nd, a)
        # heap mutated through methods / subscripts / attributes
        muts = set()
        for s in stmts:
            for n in ast.walk(s):
                t = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.MUTATORS:
                    t = n.func.value
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                while t is not None and isinstance(t, (ast.Subscript, ast.Attribute)):
                    t = t.value
                if isinstance(t, ast.Name):
                    muts.add(t.id)
        for m in muts:
            f = self.find_frame(m, a)
            if f is not None:
                v = f.env.get(m)
                if isinstance(v, Ref) and v.id in a.heap:
                    h = a.heap[v.id]
                    if isinstance(h, ListV):
                        a.heap[v.id] = ListV(None, Sym(deps=h.deps))
                    elif isinstance(h, DictV):
                        a.heap[v.id] = DictV({k: Sym(deps=x.deps) for k, x in h.items.items()}, False, h.xdeps)
                    elif isinstance(h, Inst):
                        a.heap[v.id] = Inst(h.cls, {k: (x if isinstance(x, (Ref, Fn)) else Sym(deps=x.deps)) for k, x in h.attrs.items()}, h.open)
        return a

    def havoc_val(self, old, deps, st):
        return Sym(deps=deps, kind='num' if self.is_numeric(old) else 'any', dim=self.havoc_dim(old))

    def havoc_dim(self, old):
        return None

    def loop_dim(self, old, vals):
        return getattr(old, 'dim', None)

    def is_numeric(self, v):
        return (isinstance(v, Const) and is_num(v.v) and not isinstance(v.v, bool)) or (isinstance(v, Sym) and v.kind == 'num')

    def find_frame(self, name, st):
        fid = st.cur
        while fid is not None:
            f = st.frames.get(fid)
            if f is None:
                return None
            if name in f.env:
                return f
            fid = f.parent
        return None

    def run_abstract_loop(self, s, st, bind_target, test=None):
        """Fixpoint over dependency labels; returns (normals, outs)."""
        body = s.body
        stm = list(body)
        zero = st.copy()
        cur = self.havoc(st, stm, [])
        names = self.assigned_names(stm)
        result = None
        for it in range(4):
            start = cur.copy()
            starts = [start]
            if bind_target is not None:
                starts = bind_target(start)
            exit_states = []
            if test is not None:
                nx = []
                for x in starts:
                    for a, t in self.cond(test, x):
                        (nx if t else exit_states).append(a)
                starts = nx
            save = self.raised
            self.raised = []
            normals, outs = self.exec_block(body, starts)
            outs = outs + self.raised
            self.raised = save
            back = normals + [o.st for o in outs if o.kind == 'continue']
            breaks = [o.st for o in outs if o.kind == 'break']
            others = [o for o in outs if o.kind in ('return', 'raise')]
            result = (exit_states, back, breaks, others)
            # widen: propagate deps of assigned names to the loop head
            changed = False
            for n in names:
                f = self.find_frame(n, cur)
                if f is None:
                    continue
                d = f.env[n].deps if not isinstance(f.env[n], Ref) else EMPTY
                nd = d
                kinds = set()
                vals = []
                for b in back:
                    fb = self.find_frame(n, b)
                    if fb is not None:
                        v = self.deref_deep(fb.env[n], b)
                        vals.append(v)
                        nd = nd | v.deps
                        kinds.add(self.is_numeric(v))
                ov = f.env[n]
                dim = self.loop_dim(ov, vals)
                if nd != d or (isinstance(ov, Sym) and (ov.kind == 'num' and False in kinds or dim != ov.dim)):
                    changed = True
                    f.env[n] = Sym(deps=nd, kind='num' if kinds == {True} and isinstance(ov, Sym) and ov.kind == 'num' else 'any', dim=dim)
            # heap lists grown in the loop
            for rid, h in list(cur.heap.items()):
                d = h.deps
                nd = d
                for b in back:
                    if rid in b.heap:
                        nd = nd | b.heap[rid].deps
                if nd != d:
                    changed = True
                    if isinstance(h, ListV):
                        cur.heap[rid] = ListV(h.items, h.elem, h.xdeps | nd)
                    elif isinstance(h, DictV):
                        cur.heap[rid] = DictV(h.items, h.complete, h.xdeps | nd)
            if not changed:
                break
        exit_states, back, breaks, others = result
        return zero, cur, exit_states, back, breaks, others

    def x_While(self, s, st):
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        zero, cur, exits, back, breaks, others = self.run_abstract_loop(s, st, None, s.test)
        normals = []
        if not const_true:
            # exits: those taken from the widened head state, plus after a body pass
            done = list(exits)
            for b in self.reduce(back):
                for a, t in self.cond(s.test, b):
                    if not t:
                        done.append(a)
            for a, t in self.cond(s.test, zero):
                if not t:
                    done.append(a)
            done = self.reduce(done)
            if s.orelse:
                n, o = self.exec_block(s.orelse, done)
                normals.extend(n)
                others = others + o
            else:
                normals.extend(done)
        normals.extend(breaks)
        return self.reduce(normals), others

    def x_For(self, s, st):
        normals_all, outs_all = [], []
        for a, it in self.eval(s.iter, st):
            items = self.iter_items(it, a)
            if items is not None and len(items) <= self.loop_unroll and len(items) * max(1, self._size(s)) < 6000:
                states, outs, breaks = [a], [], []
                for v in items:
                    nx = []
                    for x in states:
                        for y in self.assign(s.target, v, x, s):
                            n, o = self.exec_block(s.body, [y])
                            nx.extend(n)
                            for q in o:
                                if q.kind == 'break':
                                    breaks.append(q.st)
                                elif q.kind == 'continue':
                                    nx.append(q.st)
                                else:
                                    outs.append(q)
                    states = self.reduce(nx)
                if s.orelse:
                    states, o = self.exec_block(s.orelse, states)
                    outs.extend(o)
                normals_all.extend(states + breaks)
                outs_all.extend(outs)
                continue
            ev = self.iter_elem(it, a)

            def bind_target(x, ev=ev):
                v = ev
                if isinstance(ev, Sym):
                    v = Sym(deps=ev.deps, kind=ev.kind, dim=ev.dim, iv=ev.iv)
                return self.assign(s.target, v, x, s)
            zero, cur, exits, back, breaks, others = self.run_abstract_loop(s, a, bind_target)
            done = list(back)
            nonempty = self.known_nonempty(it, a)
            if not nonempty:
                done.append(zero)
            done = self.reduce(done)
            if s.orelse:
                done, o = self.exec_block(s.orelse, done)
                others = others + o
            normals_all.extend(done + breaks)
            outs_all.extend(others)
        return self.reduce(normals_all), outs_all

    def _size(self, s):
        return sum(1 for _ in ast.walk(s)) // 8 + 1

    def known_nonempty(self, it, st):
        if isinstance(it, Sym):
            return it.tag == 'nonempty'
        items = self.iter_items(it, st)
        return bool(items)

    def x_Break(self, s, st):
        return [], [Outcome('break', None, st, s)]

    def x_Continue(self, s, st):
        return [], [Outcome('continue', None, st, s)]

    # ------------------------------------------------------------- assigning
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_items(v, st)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and not stars:
                if len(items) != len(t.elts):
                    self.raise_(st, node, 'ValueError', f'unpacking {len(items)} values into {len(t.elts)} targets')
                    return []
                sts = [st]
                for e, x in zip(t.elts, items):
                    sts = [y for z in sts for y in self.assign(e, x, z, node)]
                return sts
            if isinstance(v, Const) and v.v is None:
                self.raise_(st, node, 'TypeError', 'cannot unpack None')
                return []
            if isinstance(v, (Const,)) and is_num(v.v):
                self.raise_(st, node, 'TypeError', 'cannot unpack a number')
                return []
            el = self.iter_elem(v, st)
            sts = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    x = Sym(deps=el.deps, kind='obj')
                    sts = [y for z in sts for y in self.assign(e.value, x, z, node)]
                    continue
                x = el
                if isinstance(v, Sym):
                    x = Sym(vn=vnum('item', v.vn, i), deps=v.deps, dim=None)
                elif isinstance(el, Sym):
                    x = Sym(deps=el.deps, kind=el.kind, dim=el.dim)
                sts = [y for z in sts for y in self.assign(e, x, z, node)]
            return sts
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, ast.Attribute):
            res = []
            for a, o in self.eval(t.value, st):
                self.set_attr(o, t.attr, v, a, node)
                res.append(a)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for a, (o, i) in self.eval_seq([t.value, t.slice], st):
                self.set_item(o, i, v, a, node)
                res.append(a)
            return res
        return [st]

    def store_name(self, name, v, st):
        f = st.frames[st.cur]
        fi = f.fi
        if fi is not None:
            loc, glob, nonl = fi.scope_info()
            if name in glob:
                self.on_event('global-write', st, None, name, v)
                st.heap[('g', fi.module.name, name)] = v
                return
            if name in nonl:
                fid = f.parent
                while fid is not None:
                    pf = st.frames.get(fid)
                    if pf is None:
                        return
                    if name in pf.env or (pf.fi is not None and name in pf.fi.scope_info()[0]):
                        pf.env[name] = v
                        return
                    fid = pf.parent
                return
        f.env[name] = v

    def set_attr(self, o, attr, v, st, node):
        self.on_event('setattr', st, node, attr, o)
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            if isinstance(h, Inst):
                at = dict(h.attrs)
                at[attr] = v
                st.heap[o.id] = Inst(h.cls, at, h.open)

    def set_item(self, o, i, v, st, node):
        self.on_event('mutate', st, node, 'item assignment', o)
        if isinstance(o, Ref):
            h = st.heap.get(o.id)
            vd = v
            if isinstance(h, ListV):
                if h.items is not None and isinstance(i, Const) and isinstance(i.v, int) and -len(h.items) <= i.v < len(h.items):
                    it = list(h.items)
                    it[i.v] = v
                    st.heap[o.id] = ListV(it, None, h.xdeps)
                else:
                    d = h.deps | self.deref_deep(vd, st).deps | i.deps
                    n = len(h.items) if h.items is not None else None
                    if n is not None and not isinstance(i, Slice):
                        st.heap[o.id] = ListV([Sym(deps=d, dim=getattr(x, 'dim', None)) for x in h.items])
                    else:
                        st.heap[o.id] = ListV(None, Sym(deps=d))
            elif isinstance(h, DictV):
                if isinstance(i, Const):
                    it = dict(h.items)
                    it[i.v] = v
                    st.heap[o.id] = DictV(it, h.complete, h.xdeps)
                else:
                    st.heap[o.id] = DictV(h.items, False, h.xdeps | self.deref_deep(vd, st).deps | i.deps)
        elif isinstance(o, Sym):
            pass

    # ------------------------------------------------------------ name lookup
    def frame_module(self, st):
        f = st.frames.get(st.cur)
        while f is not None and f.fi is None:
            f = st.frames.get(f.parent)
        return f.fi.module if f is not None else self._const_module

    def lookup(self, name, st, node):
        """Value or None (raise emitted)."""
        fid = st.cur
        first = True
        while fid is not None:
            f = st.frames.get(fid)
            if f is None:
                # enclosing frame gone: the module of a function defined at module scope, else unknown
                c = st.frames.get(st.cur)
                if c is not None and c.fi is not None and c.fi.parent is None and c.fi.cls is None:
                    r = self.prog.resolve(c.fi.module, name)
                    return Sym() if r is None or r[0] == 'missing' else self.resolved(r)
                return Sym()
            if name in f.env:
                return self.refine(f.env[name], st)
            if f.fi is not None:
                loc, glob, nonl = f.fi.scope_info()
                if name in glob:
                    k = ('g', f.fi.module.name, name)
                    if k in st.heap:
                        return st.heap[k]
                    break
                if name in loc:
                    self.raise_(st, node, 'UnboundLocalError' if first else 'NameError', f'local variable {name!r} referenced before assignment')
                    return None
            fid = f.parent
            first = False
        if fid is None and st.frames.get(st.cur) is not None and st.frames[st.cur].fi is not None:
            fi = st.frames[st.cur].fi
            # closure whose defining frame was not entered here (module-level lambda etc.)
            p = fi.parent
            while p is not None:
                if name in p.scope_info()[0] and st.frames[st.cur].parent is None:
                    return Sym()
                p = p.parent
        m = self.frame_module(st)
        return self.module_name(m, name, st, node)

    def module_name(self, m, name, st, node):
        r = self.prog.resolve(m, name)
        if r is None or r[0] == 'missing':
            if st is not None:
                self.raise_(st, node, 'NameError', f'name {name!r} is not defined')
                return None
            return Sym()
        return self.resolved(r)

    def resolved(self, r):
        if r is None:
            return Sym()
        k = r[0]
        if k == 'func':
            return Fn(r[1])
        if k == 'class':
            return Cls(r[1])
        if k == 'module':
            return Mod(r[1])
        if k == 'ext':
            return self.ext_const(r[1])
        if k == 'builtin':
            return Ext('builtins.' + r[1])
        if k == 'var':
            return self.module_value(r[1], r[2])
        return Sym()

    def ext_const(self, name):
        if name == 'math.pi':
            return Const(math.pi)
        if name == 'math.e':
            return Const(math.e)
        if name == 'math.inf':
            return Const(math.inf)
        if name == 'math.nan':
            return Const(math.nan)
        return Ext(name)

    def module_value(self, m, name):
        key = (m.name, name)
        if key in self.module_override:
            return self.module_override[key]
        if key in self.modcache:
            return self.modcache[key]
        if key in self.modbusy:
            return Sym()
        self.modbusy.add(key)
        v = Sym(vn=vnum('modvar', *key), kind='any')
        try:
            bs = [b for b in m.bind.get(name, []) if b[0] == 'var']
            if bs:
                b = bs[-1]
                if len(bs) == 1 and b[1] is not None and isinstance(b[2], (ast.Assign, ast.AnnAssign)) \
                        and self._unconditional(m, b[2]):
                    v = self.const_expr(m, b[1], key)
                elif len(bs) > 1 and all(x[1] is not None for x in bs):
                    v2 = self.const_expr(m, bs[-1][1], key)
                    vals = [self.const_expr(m, x[1], key) for x in bs]
                    if all(self._unconditional(m, x[2]) for x in bs):
                        v = v2
                    elif all(isinstance(x, Const) for x in vals) and len({repr(x.v) for x in vals}) == 1:
                        v = v2
        finally:
            self.modbusy.discard(key)
        self.modcache[key] = v
        return v

    def _unconditional(self, m, stmt):
        p = m.parent.get(stmt)
        while p is not None and not isinstance(p, ast.Module):
            if isinstance(p, ast.Try) and stmt in p.body:
                p = m.parent.get(p)
                continue
            return False
        return True

    _const_module = None

    def const_expr(self, m, e, key=None):
        """Evaluate an expression at module scope to a value without effects."""
        lit = fold_literal(e)
        if lit is not MISSING:
            return self.wrap(lit, key)
        st = State()
        fake = Frame(None, None, {})
        fid = fresh()
        st.frames[fid] = fake
        st.cur = fid
        oldm, self._const_module = self._const_module, m
        oldr, self.raised = self.raised, []
        oldb = self.budget
        try:
            r = self.eval(e, st)
            if len(r) == 1:
                return self.freeze(r[0][1], r[0][0])
        except (Budget, RecursionError):
            pass
        finally:
            self._const_module = oldm
            self.raised = oldr
            self.budget = oldb
        return Sym()

    def freeze(self, v, st):
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if isinstance(h, ListV):
                if h.items is not None:
                    return ListV([self.freeze(x, st) for x in h.items])
                return ListV(None, h.elem, h.xdeps)
            if isinstance(h, DictV):
                return DictV({k: self.freeze(x, st) for k, x in h.items.items()}, h.complete, h.xdeps)
            if isinstance(h, Inst):
                return Inst(h.cls, {k: self.freeze(x, st) for k, x in h.attrs.items()}, h.open)
            return Sym()
        if isinstance(v, TupV):
            return TupV([self.freeze(x, st) for x in v.items])
        return v

    def wrap(self, v, origin=None):
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            if isinstance(v, tuple) and len(v) <= 12:
                return TupV([self.wrap(x) for x in v])
            return Lit(v, origin)
        return Const(v)

    def refine(self, v, st):
        if isinstance(v, Sym):
            f = st.facts.get(v.vn)
            if f is not None and f.eq is not MISSING:
                c = Const(f.eq, v.deps, v.dim)
                return c
        return v

    def deref(self, v, st):
        if isinstance(v, Ref):
            return st.heap.get(v.id, Sym())
        return v

    def deref_deep(self, v, st, depth=0):
        """A value whose .deps covers everything reachable."""
        if isinstance(v, Ref):
            h = st.heap.get(v.id)
            if h is None or depth > 5:
                return Sym()
            d = self._reach_deps(h, st, depth + 1)
            return Sym(deps=d)
        if isinstance(v, (TupV, ListV, DictV, Inst)):
            return Sym(deps=self._reach_deps(v, st, depth + 1))
        if isinstance(v, Fn) and v.frame is not None and depth < 3:
            d = EMPTY
            f = st.frames.get(v.frame)
            if f is not None:
                for n in walk_scope(v.fi.node):
                    if isinstance(n, ast.Name) and n.id in f.env:
                        d |= self.deref_deep(f.env[n.id], st, depth + 1).deps
            if v.partial:
                for x in list(v.partial[0]) + list(v.partial[1].values()):
                    d |= self.deref_deep(x, st, depth + 1).deps
            return Sym(deps=d)
        return v

    def _reach_deps(self, h, st, depth):
        d = getattr(h, 'xdeps', EMPTY)
        subs = []
        if isinstance(h, TupV):
            subs = h.items
        elif isinstance(h, ListV):
            subs = list(h.items or ()) + ([h.elem] if h.elem is not None else [])
        elif isinstance(h, DictV):
            subs = h.items.values()
        elif isinstance(h, Inst):
            subs = h.attrs.values()
        for x in subs:
            if depth > 6:
                break
            d |= self.deref_deep(x, st, depth).deps
        return d

    def alloc(self, obj, st):
        i = fresh()
        st.heap[i] = obj
        return Ref(i)

    # -------------------------------------------------------------- raising
    def raise_(self, st, node, exc, why):
        self.raised.append(Outcome('raise', None, st, node, exc, why))
        self.on_event('raise', st, node, why, exc)

    # ------------------------------------------------------------ evaluation
    def eval_seq(self, exprs, st):
        acc = [(st, [])]
        for e in exprs:
            nx = []
            for a, vs in acc:
                for b, v in self.eval(e, a):
                    nx.append((b, vs + [v]))
            acc = nx
        return acc

    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, Sym())]
        return m(e, st)

    def e_Constant(self, e, st):
        return [(st, Const(e.value))]

    def e_Name(self, e, st):
        v = self.lookup(e.id, st, e)
        return [] if v is None else [(st, v)]

    def lookup_expr(self, e, st):
        """Resolve Name/Attribute without effects; may return None."""
        save, self.raised = self.raised, []
        try:
            r = self.eval(e, st)
            return r[0][1] if len(r) == 1 else None
        finally:
            self.raised = save

    def e_Tuple(self, e, st):
        return [(a, TupV(vs)) for a, vs in self.eval_elts(e.elts, st)]

    def eval_elts(self, elts, st):
        acc = [(st, [])]
        for x in elts:
            nx = []
            star = isinstance(x, ast.Starred)
            for a, vs in acc:
                for b, v in self.eval(x.value if star else x, a):
                    if star:
                        it = self.iter_items(v, b)
                        nx.append((b, vs + (it if it is not None else [Sym(deps=self.deref_deep(v, b).deps, tag='star')])))
                    else:
                        nx.append((b, vs + [v]))
            acc = nx
        return acc

    def e_List(self, e, st):
        lit = fold_literal(e)
        if lit is not MISSING and len(lit) > 16:
            return [(st, self.alloc(ListV([self.wrap(x) for x in lit]), st))]
        res = []
        for a, vs in self.eval_elts(e.elts, st):
            if any(isinstance(v, Sym) and v.tag == 'star' for v in vs):
                res.append((a, self.alloc(ListV(None, Sym(deps=join_deps([self.deref_deep(v, a) for v in vs]))), a)))
            else:
                res.append((a, self.alloc(ListV(vs), a)))
        return res

    def e_Set(self, e, st):
        res = []
        for a, vs in self.eval_elts(e.elts, st):
            res.append((a, self.alloc(ListV(vs), a)))
        return res

    def e_Dict(self, e, st):
        if any(k is None for k in e.keys):
            res = []
            for a, vs in self.eval_seq(e.values, st):
                items, complete = {}, True
                for kk, v in zip(e.keys, vs):
                    if kk is None:
                        d = self.deref(v, a)
                        if isinstance(d, DictV):
                            items.update(d.items)
                            complete = complete and d.complete
                        elif isinstance(d, Lit) and isinstance(d.v, dict):
                            items.update({k: self.wrap(x) for k, x in d.v.items()})
                        else:
                            complete = False
                    elif isinstance(kk, ast.Constant):
                        items[kk.value] = v
                    else:
                        complete = False
                res.append((a, self.alloc(DictV(items, complete, join_deps([self.deref_deep(v, a) for v in vs])), a)))
            return res
        res = []
        for a, ks in self.eval_seq(e.keys, st):
            for b, vs in self.eval_seq(e.values, a):
                items, complete, x = {}, True, EMPTY
                for k, v in zip(ks, vs):
                    if isinstance(k, Const):
                        items[k.v] = v
                    elif isinstance(k, TupV) and all(isinstance(z, Const) for z in k.items):
                        items[tuple(z.v for z in k.items)] = v
                    else:
                        complete = False
                        x |= self.deref_deep(v, b).deps | k.deps
                res.append((b, self.alloc(DictV(items, complete, x), b)))
        return res

    def e_JoinedStr(self, e, st):
        acc = [(st, [])]
        for v in e.values:
            nx = []
            for a, ps in acc:
                if isinstance(v, ast.Constant):
                    nx.append((a, ps + [Const(v.value)]))
                else:
                    for b, x in self.eval(v.value, a):
                        nx.append((b, ps + [x if v.format_spec is None and v.conversion == -1 else Sym(deps=x.deps)]))
            acc = nx
        out = []
        for a, ps in acc:
            if all(isinstance(p, Const) for p in ps):
                out.append((a, Const(''.join(str(p.v) for p in ps))))
            else:
                out.append((a, Sym(deps=join_deps([self.deref_deep(p, a) for p in ps]), kind='str')))
        return out

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Lambda(self, e, st):
        m = self.frame_module(st)
        fi = m.by_node.get(e)
        if fi is None:
            return [(st, Sym(kind='obj'))]
        part = None
        return [(st, Fn(fi, st.cur, None, part))]

    def e_IfExp(self, e, st):
        res = []
        for a, t in self.cond(e.test, st):
            res.extend(self.eval(e.body if t else e.orelse, a))
        return res

    def e_NamedExpr(self, e, st):
        res = []
        for a, v in self.eval(e.value, st):
            res.extend((b, v) for b in self.assign(e.target, v, a, e))
        return res

    def e_BoolOp(self, e, st):
        # value semantics: return deciding operand
        is_and = isinstance(e.op, ast.And)
        pend, res = [st], []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nx = []
            for a in pend:
                for b, v in self.eval(x, a):
                    if last:
                        res.append((b, v))
                        continue
                    for c, t in self.truth(v, b, x):
                        if t == is_and:
                            nx.append(c)
                        else:
                            res.append((c, self.refine_truth(v, t, c)))
            pend = nx
        return res

    def refine_truth(self, v, t, st):
        return self.refine(v, st)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(a, Const(not t)) for a, t in self.cond(e.operand, st)]
        res = []
        for a, v in self.eval(e.operand, st):
            if isinstance(v, Const):
                if v.v is None:
                    self.raise_(a, e, 'TypeError', 'unary operator on None')
                    self.on_event('none-arith', a, e, ast.unparse(e.operand))
                    continue
                try:
                    x = -v.v if isinstance(e.op, ast.USub) else +v.v if isinstance(e.op, ast.UAdd) else ~v.v
                    res.append((a, Const(x, v.deps, v.dim)))
                    continue
                except TypeError:
                    pass
            dv = self.deref_deep(v, a)
            vn = vnum('u-', dv.vn) if isinstance(dv, Sym) and isinstance(e.op, ast.USub) else None
            iv = None
            if isinstance(v, Sym) and isinstance(e.op, ast.USub):
                lo, hi = self.interval(v, a)
                iv = (-hi, -lo)
            res.append((a, Sym(vn, deps=dv.deps, dim=getattr(v, 'dim', None), kind='num', iv=iv)))
        return res

    def e_BinOp(self, e, st):
        res = []
        for a, (x, y) in self.eval_seq([e.left, e.right], st):
            res.extend(self.binop(e.op, x, y, a, e))
        return res

    def binop(self, op, x, y, st, node):
        sym, f = BINOPS[type(op)]
        cx, cy = isinstance(x, Const), isinstance(y, Const)
        if (cx and x.v is None) or (cy and y.v is None):
            if not (sym == '%' and isinstance(x, Const) and isinstance(x.v, str)):
                self.on_event('none-arith', st, node, ast.unparse(node)[:80])
                self.raise_(st, node, 'TypeError', f'arithmetic on None in `{ast.unparse(node)[:80]}`')
                return []
        if cx and cy:
            if is_num(x.v) and is_num(y.v):
                r = self.fold_num(sym, f, x.v, y.v)
                if r is ZeroDivisionError:
                    self.raise_(st, node, 'ZeroDivisionError', 'division by constant zero')
                    return []
                if r is not MISSING:
                    return [(st, self.const_binop_val(sym, x, y, r, st, node))]
            elif isinstance(x.v, str) or isinstance(y.v, str):
                try:
                    if sym in '+*%':
                        return [(st, Const(f(x.v, y.v), x.deps | y.deps))]
                except Exception:
                    pass
            return [(st, Sym(deps=x.deps | y.deps))]
        # sequences
        dx, dy = self.deref(x, st), self.deref(y, st)
        if sym == '+':
            xi, yi = self.seq_items(dx), self.seq_items(dy)
            if xi is not None and yi is not None:
                if isinstance(dx, TupV) and isinstance(dy, TupV):
                    return [(st, TupV(xi + yi))]
                return [(st, self.alloc(ListV(xi + yi), st))]
        if sym == '*':
            for s, k in ((dx, y), (dy, x)):
                it = self.seq_items(s)
                if it is not None:
                    if isinstance(k, Const) and isinstance(k.v, int) and len(it) * k.v <= 200:
                        if isinstance(s, TupV):
                            return [(st, TupV(list(it) * k.v))]
                        return [(st, self.alloc(ListV(list(it) * k.v), st))]
                    el = it[0] if len(it) == 1 else Sym(deps=join_deps(it))
                    if isinstance(el, (Const, Sym)):
                        el = Sym(deps=el.deps | k.deps, kind='num' if self.is_numeric(el) else 'any', dim=getattr(el, 'dim', None))
                    return [(st, self.alloc(ListV(None, el), st))]
        if cx and isinstance(x.v, str) and sym == '%':
            return [(st, Sym(deps=self.deref_deep(y, st).deps, kind='str'))]
        ddx, ddy = self.deref_deep(x, st), self.deref_deep(y, st)
        deps = ddx.deps | ddy.deps
        vn = None
        kx, ky = self.vnkey(x), self.vnkey(y)
        if kx is not None and ky is not None:
            if sym in '+*' and repr(kx) > repr(ky):
                kx, ky = ky, kx
            vn = vnum('b', sym, kx, ky)
        num = self.is_numeric(x) or self.is_numeric(y)
        strs = (isinstance(x, Sym) and x.kind == 'str') or (isinstance(y, Sym) and y.kind == 'str') or (cx and isinstance(x.v, str)) or (cy and isinstance(y.v, str))
        kind = 'str' if strs else 'num' if num and self.is_numeric(x) and self.is_numeric(y) else 'obj'
        iv = self.iv_binop(sym, x, y, st)
        # an operand used in arithmetic cannot have been None
        for o in (x, y):
            if isinstance(o, Sym) and o.kind == 'any':
                self.add_ne(o.vn, None, st)
        return [(st, Sym(vn, deps=deps, kind=kind, iv=iv, dim=self.dim_binop(sym, x, y, st, node)))]

    def const_binop_val(self, sym, x, y, r, st, node):
        return Const(r, x.deps | y.deps)

    def dim_binop(self, sym, x, y, st, node):
        return None

    def seq_items(self, d):
        if isinstance(d, TupV):
            return list(d.items)
        if isinstance(d, ListV):
            return d.items
        if isinstance(d, Lit) and isinstance(d.v, (list, tuple)) and len(d.v) <= 64:
            return [self.wrap(x) for x in d.v]
        return None

    def vnkey(self, v):
        if isinstance(v, Sym):
            return ('s', v.vn)
        if isinstance(v, Const) and is_num(v.v):
            return ('c', float(v.v) if not isinstance(v.v, complex) else v.v)
        return None

    def fold_num(self, sym, f, a, b):
        try:
            if sym == '**':
                if isinstance(b, (int, float)) and abs(b) > 1e4:
                    return MISSING
                if isinstance(a, int) and isinstance(b, int) and abs(a) > 10**6 and b > 8:
                    return MISSING
            if sym in ('/', '//', '%') and b == 0:
                return ZeroDivisionError
            if sym == '<<' and b > 256:
                return MISSING
            if f is None:
                return MISSING
            return f(a, b)
        except Exception:
            return MISSING

    # intervals ------------------------------------------------------------
    def interval(self, v, st):
        if isinstance(v, Const) and is_num(v.v) and not isinstance(v.v, complex):
            return (float(v.v), float(v.v)) if v.v == v.v else (-INF, INF)
        if isinstance(v, Sym):
            lo, hi = v.iv if v.iv is not None else (-INF, INF)
            f = st.facts.get(v.vn)
            if f is not None:
                lo, hi = max(lo, f.lo), min(hi, f.hi)
            return lo, hi
        return -INF, INF

    def iv_binop(self, sym, x, y, st):
        a, b = self.interval(x, st), self.interval(y, st)
        try:
            if sym == '+':
                return (a[0] + b[0] if -INF not in (a[0], b[0]) else -INF, a[1] + b[1] if INF not in (a[1], b[1]) else INF)
            if sym == '-':
                return (a[0] - b[1] if a[0] != -INF and b[1] != INF else -INF, a[1] - b[0] if a[1] != INF and b[0] != -INF else INF)
            if sym == '*':
                if isinstance(x, Sym) and isinstance(y, Sym) and x.vn == y.vn:
                    return (0.0, INF)
                if a[0] >= 0 and b[0] >= 0:
                    hi = INF if INF in (a[1], b[1]) else a[1] * b[1]
                    return (a[0] * b[0] if INF not in (a[0], b[0]) else 0.0, hi)
                if a == (-INF, INF) or b == (-INF, INF):
                    return None
                if INF not in map(abs, a + b):
                    ps = [p * q for p in a for q in b]
                    return (min(ps), max(ps))
            if sym == '/':
                if a[0] >= 0 and b[0] >= 0:
                    return (0.0, INF if b[0] == 0 or a[1] == INF else a[1] / b[0])
            if sym == '**':
                if isinstance(y, Const) and isinstance(y.v, int) and y.v % 2 == 0:
                    return (0.0, INF)
                if a[0] >= 0:
                    return (0.0, INF)
        except (OverflowError, ValueError):
            pass
        return None

    # comparisons / conditions ----------------------------------------------
    def e_Compare(self, e, st):
        res = []
        for a, t in self.cond_compare(e, st):
            if t is None:
                res.append((a, Sym(kind='bool')))
            else:
                res.append((a, Const(t, self._last_cdeps)))
        return res

    _last_cdeps = EMPTY

    def e_Attribute(self, e, st):
        res = []
        for a, v in self.eval(e.value, st):
            res.extend(self.getattr(v, e.attr, a, e))
        return res

    def getattr(self, v, attr, st, node):
        if isinstance(v, Const):
            if v.v is None:
                self.raise_(st, node, 'AttributeError', f'None has no attribute {attr}')
                return []
            return [(st, Ext('method.' + attr, v))]
        if isinstance(v, Mod):
            r = self.prog.getattr(('module', v.m), attr)
            return [(st, self.resolved(r))]
        if isinstance(v, Ext):
            return [(st, self.ext_const(v.name + '.' + attr))]
        if isinstance(v, Cls):
            fm = v.ci.find_method(self.prog, attr)
            if fm is not None:
                if 'staticmethod' in fm.decorator_names():
                    return [(st, Fn(fm))]
                if 'classmethod' in fm.decorator_names():
                    return [(st, Fn(fm, None, v))]
                return [(st, Fn(fm))]
            cv = v.ci.find_class_var(self.prog, attr)
            if cv:
                return [(st, self.const_expr(cv[0].module, cv[1]))]
            return [(st, Sym())]
        h = self.deref(v, st)
        if isinstance(h, Inst):
            if attr in h.attrs:
                return [(st, self.refine(h.attrs[attr], st))]
            if h.cls is not None:
                fm = h.cls.find_method(self.prog, attr)
                if fm is not None:
                    dn = fm.decorator_names()
                    if 'property' in dn:
                        return self.call_fn(Fn(fm, None, v), [], {}, st, node)
                    if 'staticmethod' in dn:
                        return [(st, Fn(fm))]
                    if 'classmethod' in dn:
                        return [(st, Fn(fm, None, Cls(h.cls)))]
                    if any(d.endswith('.setter') for d in dn):
                        return [(st, Sym())]
                    return [(st, Fn(fm, None, v))]
                cv = h.cls.find_class_var(self.prog, attr)
                if cv:
                    if attr == '__class__':
                        return [(st, Cls(h.cls))]
                    return [(st, self.const_expr(cv[0].module, cv[1]))]
                if attr == '__class__':
                    return [(st, Cls(h.cls))]
                if not h.open and attr not in ('__dict__', '__doc__', '__name__') and not h.cls.find_method(self.prog, '__getattr__') \
                        and self.known_bases(h.cls):
                    self.raise_(st, node, 'AttributeError', f'{h.cls.name} object has no attribute {attr!r}')
                    return []
            return [(st, Sym(deps=h.deps))]
        if isinstance(h, (ListV, DictV, TupV, Lit)):
            return [(st, Ext('method.' + attr, v))]
        if isinstance(v, Sym):
            if v.kind in ('any',):
                self.add_ne(v.vn, None, st)
            return [(st, Ext('method.' + attr, v) if attr in self.METHODS else Sym(vn=vnum('attr', v.vn, attr), deps=v.deps))]
        return [(st, Sym(deps=v.deps if not isinstance(v, (Fn,)) else EMPTY))]

    METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'get', 'items', 'keys', 'values',
               'lower', 'upper', 'split', 'strip', 'startswith', 'endswith', 'replace', 'join', 'format', 'tolist', 'copy', 'index', 'count', 'title'}

    def known_bases(self, ci):
        for c in ci.mro(self.prog):
            for b in c.node.bases:
                r = self.prog.resolve_expr(c.module, b)
                if not (r and r[0] == 'class') and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return False
        return True

    def e_Subscript(self, e, st):
        res = []
        for a, (o, i) in self.eval_seq([e.value, e.slice], st):
            res.extend(self.getitem(o, i, a, e))
        return res

    def e_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(a, Slice(vs)) for a, vs in self.eval_seq(parts, st)]

    def getitem(self, o, i, st, node):
        if isinstance(o, Const):
            if o.v is None:
                self.raise_(st, node, 'TypeError', f'subscript of None in `{ast.unparse(node)[:60]}`')
                self.on_event('none-arith', st, node, ast.unparse(node)[:80])
                return []
            if isinstance(o.v, str) and isinstance(i, Const) and isinstance(i.v, int):
                try:
                    return [(st, Const(o.v[i.v]))]
                except IndexError:
                    self.raise_(st, node, 'IndexError', 'string index')
                    return []
            return [(st, Sym(deps=o.deps | i.deps, kind='str' if isinstance(o.v, str) else 'any'))]
        h = self.deref(o, st)
        if isinstance(i, Slice):
            its = self.seq_items(h) if not isinstance(h, Lit) else None
            if isinstance(h, Lit) and isinstance(h.v, (list, tuple)) and all(isinstance(p, Const) for p in i.parts):
                return [(st, Lit(h.v[slice(*[p.v for p in i.parts])]))]
            if its is not None and all(isinstance(p, Const) for p in i.parts):
                try:
                    sub = its[slice(*[p.v for p in i.parts])]
                    return [(st, TupV(sub) if isinstance(h, TupV) else self.alloc(ListV(sub), st))]
                except Exception:
                    pass
            d = self.deref_deep(o, st).deps | i.deps
            return [(st, Sym(deps=d, kind='obj'))]
        if isinstance(h, Lit):
            if isinstance(i, Const):
                try:
                    return [(st, self.wrap(h.v[i.v]))]
                except (KeyError, IndexError, TypeError) as ex:
                    self.raise_(st, node, type(ex).__name__, f'{i.v!r} not in table')
                    return []
            vals = list(h.v.values()) if isinstance(h.v, dict) else list(h.v)
            if vals and all(is_num(x) for x in vals[:50]):
                return [(st, Sym(deps=i.deps, kind='num'))]
            return [(st, Sym(deps=i.deps, kind='obj' if vals and all(x is not None for x in vals[:50]) else 'any'))]
        if isinstance(h, (TupV, ListV)):
            its = self.seq_items(h)
            if its is not None and isinstance(i, Const) and isinstance(i.v, int):
                if -len(its) <= i.v < len(its):
                    return [(st, self.refine(its[i.v], st))]
                self.raise_(st, node, 'IndexError', 'index out of range')
                return []
            if its is not None:
                if its and len(its) <= 24 and len({self.vkey(x) for x in its}) == 1 and all(isinstance(x, (Sym, Const)) for x in its):
                    return [(st, Sym(deps=join_deps(its) | i.deps, kind='num' if all(self.is_numeric(x) for x in its) else 'any',
                                     dim=self.common_dim(its)))]
                return [(st, Sym(deps=join_deps([self.deref_deep(x, st) for x in its]) | i.deps | getattr(h, 'xdeps', EMPTY)))]
            el = h.elem
            if isinstance(el, Sym):
                return [(st, Sym(deps=h.deps | i.deps, kind=el.kind, dim=el.dim))]
            if el is not None and not isinstance(el, Const):
                return [(st, el)]
            return [(st, Sym(deps=h.deps | i.deps))]
        if isinstance(h, DictV):
            if isinstance(i, Const):
                if i.v in h.items:
                    return [(st, self.refine(h.items[i.v], st))]
                if h.complete:
                    self.raise_(st, node, 'KeyError', f'{i.v!r} not in mapping')
                    return []
            if isinstance(i, TupV) and all(isinstance(z, Const) for z in i.items):
                k = tuple(z.v for z in i.items)
                if k in h.items:
                    return [(st, h.items[k])]
            vals = list(h.items.values())
            if h.complete and vals and all(isinstance(v, Fn) for v in vals):
                return [(st, Sym(deps=i.deps, kind='obj', tag=('fnset', tuple(vals))))]
            if h.complete and vals and all(isinstance(v, TupV) for v in vals) and len({len(v.items) for v in vals}) == 1 and isinstance(i, Sym):
                cols = []
                for c in range(len(vals[0].items)):
                    col = [v.items[c] for v in vals]
                    if all(isinstance(x, Fn) for x in col):
                        cols.append(Sym(deps=i.deps, kind='obj', tag=('fnset', tuple(col))))
                    else:
                        cols.append(Sym(deps=i.deps | join_deps(col)))
                return [(st, TupV(cols))]
            return [(st, Sym(deps=self._reach_deps(h, st, 1) | i.deps))]
        if isinstance(o, Sym):
            if o.kind == 'any':
                self.add_ne(o.vn, None, st)
            k = self.vnkey(i)
            if isinstance(i, Const):
                k = ('c', i.v)
            vn = vnum('sub', o.vn, k) if k is not None else None
            return [(st, Sym(vn, deps=o.deps | i.deps, dim=o.dim))]
        return [(st, Sym(deps=o.deps | i.deps))]

    def common_dim(self, its):
        return None

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return [(st, Sym())]

    def _comp(self, e, st, build):
        """Comprehensions: expand when every iterable is known, else abstract."""
        fr = Frame(None, st.cur, {})
        fid = fresh()
        outer = st.cur
        st.frames[fid] = fr
        st.cur = fid

        def gen(k, states):
            # states: list of (st, [collected])
            if k == len(e.generators):
                out = []
                for a, acc in states:
                    out.extend(build(a, acc))
                return out
            g = e.generators[k]
            out = []
            for a, acc in states:
                for b, it in self.eval(g.iter, a):
                    items = self.iter_items(it, b)
                    if items is not None and len(items) <= 64 and acc is not None:
                        cur = [(b, acc)]
                        for v in items:
                            nx = []
                            for c, ac in cur:
                                for d in self.assign(g.target, v, c, e):
                                    oks = [d]
                                    for cnd in g.ifs:
                                        keep, drop = [], []
                                        for x in oks:
                                            for y, t in self.cond(cnd, x):
                                                (keep if t else drop).append(y)
                                        oks = keep
                                        nx.extend((y, ac) for y in drop)
                                    nx.extend(gen(k + 1, [(y, ac) for y in oks]))
                            cur = nx
                            if len(cur) > 24:
                                # too many filter combinations
                                cur = [(cur[0][0], None)]
                        out.extend(cur)
                    else:
                        ev = self.iter_elem(it, b)
                        for d in self.assign(g.target, ev, b, e):
                            oks = [d]
                            for cnd in g.ifs:
                                oks = [y for x in oks for y, t in self.cond(cnd, x.copy()) if t] or oks
                                oks = oks[:4]
                            out.extend(gen(k + 1, [(y, None) for y in oks[:4]]))
            return out
        res = gen(0, [(st, [])])
        final = []
        for a, acc in res:
            a.cur = outer
            keep = any(isinstance(n, ast.Lambda) for n in ast.walk(e))
            if not keep:
                a.frames.pop(fid, None)
            final.append((a, acc))
        return final

    def e_ListComp(self, e, st):
        store = {}

        def build(a, acc):
            out = []
            for b, v in self.eval(e.elt, a):
                if acc is None:
                    out.append((b, ('abs', self.elem_of(v, b))))
                elif isinstance(acc, list):
                    out.append((b, acc + [v]))
                else:
                    out.append((b, ('abs', self.elem_of(v, b))))
            return out
        res = []
        r = self._comp(e, st, build)
        for a, acc in r:
            if isinstance(acc, list):
                res.append((a, self.alloc(ListV(acc), a)))
            elif acc is None:
                res.append((a, self.alloc(ListV(None, Sym()), a)))
            else:
                res.append((a, self.alloc(ListV(None, acc[1]), a)))
        if len(res) > 1 and any(not isinstance(acc, list) for _, acc in r):
            res = res[:2]
        return res

    def elem_of(self, v, st):
        if isinstance(v, Sym):
            return v
        if isinstance(v, Const):
            return Sym(deps=v.deps, kind='num' if is_num(v.v) else 'any', dim=v.dim)
        if isinstance(v, (TupV, Fn)):
            return v
        return self.deref_deep(v, st)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st):
        def build(a, acc):
            out = []
            for b, (k, v) in self.eval_seq([e.key, e.value], a):
                if isinstance(acc, list):
                    out.append((b, acc + [(k, v)]))
                else:
                    out.append((b, ('abs', Sym(deps=self.deref_deep(k, b).deps | self.deref_deep(v, b).deps))))
            return out
        res = []
        for a, acc in self._comp(e, st, build):
            if isinstance(acc, list) and all(isinstance(k, Const) for k, _ in acc):
                res.append((a, self.alloc(DictV({k.v: v for k, v in acc}), a)))
            elif isinstance(acc, list):
                res.append((a, self.alloc(DictV({}, False, join_deps([self.deref_deep(v, a) for _, v in acc])), a)))
            else:
                res.append((a, self.alloc(DictV({}, False, acc[1].deps if acc else EMPTY), a)))
        return res

    # iteration --------------------------------------------------------------
    def iter_items(self, v, st):
        h = self.deref(v, st)
        if isinstance(h, TupV):
            return list(h.items)
        if isinstance(h, ListV):
            if h.items is not None and not any(isinstance(x, Sym) and x.tag == 'star' for x in h.items):
                return list(h.items)
            return None
        if isinstance(h, Lit):
            if isinstance(h.v, (list, tuple)) and len(h.v) <= 400:
                return [self.wrap(x) for x in h.v]
            if isinstance(h.v, dict) and len(h.v) <= 400:
                return [self.wrap(x) for x in h.v]
            return None
        if isinstance(h, DictV):
            return [self.wrap(k) for k in h.items] if h.complete else None
        if isinstance(h, Const) and isinstance(h.v, str) and len(h.v) < 30:
            return [Const(c) for c in h.v]
        return None

    def iter_elem(self, v, st):
        h = self.deref(v, st)
        if isinstance(h, ListV):
            if h.elem is not None:
                if isinstance(h.elem, Sym) and h.xdeps:
                    return Sym(deps=h.elem.deps | h.xdeps, kind=h.elem.kind, dim=h.elem.dim)
                return h.elem
            if h.items is not None and h.items:
                if all(isinstance(x, TupV) for x in h.items) and len({len(x.items) for x in h.items}) == 1:
                    return TupV([Sym(deps=join_deps([x.items[k] for x in h.items])) for k in range(len(h.items[0].items))])
                return Sym(deps=h.deps, kind='num' if all(self.is_numeric(x) for x in h.items) else 'any')
        if isinstance(h, Lit):
            vals = list(h.v)
            return Sym(kind='num' if vals and all(is_num(x) for x in vals) else 'obj')
        if isinstance(h, Sym):
            if isinstance(h.tag, tuple) and h.tag[0] == 'elem':
                return h.tag[1]
            if h.tag == 'range':
                return Sym(deps=h.deps, kind='num')
            return Sym(deps=h.deps, dim=h.dim)
        return Sym(deps=self.deref_deep(v, st).deps)

    # conditions -------------------------------------------------------------
    def cond(self, e, st):
        """list of (state, bool); undecided conditions yield both."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, not t) for a, t in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            pend, res = [st], []
            for i, x in enumerate(e.values):
                nx = []
                for a in pend:
                    for b, t in self.cond(x, a):
                        if t == is_and:
                            nx.append(b)
                        else:
                            res.append((b, t))
                pend = nx
            res.extend((a, is_and) for a in pend)
            return self.reduce_cond(res)
        if isinstance(e, ast.Compare):
            return self.cond_compare(e, st)
        res = []
        for a, v in self.eval(e, st):
            res.extend(self.truth(v, a, e))
        return res

    def reduce_cond(self, res):
        return res

    def truth(self, v, st, node):
        if isinstance(v, Const):
            st.ctrl |= v.deps
            return [(st, bool(v.v))]
        h = self.deref(v, st)
        if isinstance(h, Lit):
            return [(st, bool(h.v))]
        if isinstance(h, TupV):
            return [(st, bool(h.items))]
        if isinstance(h, ListV) and h.items is not None:
            return [(st, bool(h.items))]
        if isinstance(h, DictV) and (h.complete or h.items):
            return [(st, bool(h.items))]
        if isinstance(h, (Fn, Cls, Mod, Inst)):
            if isinstance(h, Inst) and h.cls is not None and (h.cls.find_method(self.prog, '__len__') or h.cls.find_method(self.prog, '__bool__')):
                pass
            else:
                return [(st, True)]
        if isinstance(v, Sym):
            f = st.facts.get(v.vn)
            if f is not None and f.truth is not None:
                return [(st, f.truth)]
            lo, hi = self.interval(v, st)
            if v.kind == 'num' and (lo > 0 or hi < 0):
                return [(st, True)]
            return self.fork(st, v, node)
        b = st.copy()
        st.ctrl |= h.deps
        b.ctrl |= h.deps
        return [(st, True), (b, False)]

    def fork(self, st, v, node):
        b = st.copy()
        for s, t in ((st, True), (b, False)):
            f = s.facts.get(v.vn)
            f = f.copy() if f else Fact()
            f.truth = t
            if t:
                f.ne = f.ne | {None}
                if v.kind in ('num',):
                    f.ne = f.ne | {0.0}
            elif v.kind == 'num':
                f.lo = f.hi = 0.0
            s.facts[v.vn] = f
            s.ctrl |= v.deps
            s.trace = s.trace + ((getattr(node, 'lineno', 0), t),)
        return [(st, True), (b, False)]

    def cond_compare(self, e, st):
        # chained comparisons a < b < c
        acc = []
        for a, l in self.eval(e.left, st):
            acc.append((a, l))
        res = []
        pend = acc
        for k, (op, rhs) in enumerate(zip(e.ops, e.comparators)):
            nx = []
            for a, l in pend:
                for b, r in self.eval(rhs, a):
                    for c, t in self.compare(op, l, r, b, e):
                        if t and k < len(e.ops) - 1:
                            nx.append((c, r))
                        else:
                            res.append((c, t))
            pend = nx
        return res

    def compare(self, op, l, r, st, node):
        """list of (st, bool)"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            res = self.cmp_is(l, r, st, node)
            return [(a, t != isinstance(op, ast.IsNot)) for a, t in res]
        if isinstance(op, (ast.In, ast.NotIn)):
            res = self.cmp_in(l, r, st, node)
            return [(a, t != isinstance(op, ast.NotIn)) for a, t in res]
        o = CMP[type(op)]
        if o in ('==', '!='):
            res = self.cmp_eq(l, r, st, node)
            return [(a, t != (o == '!=')) for a, t in res]
        # ordering
        for x in (l, r):
            if isinstance(x, Const) and x.v is None:
                self.raise_(st, node, 'TypeError', f'ordering comparison with None in `{ast.unparse(node)[:80]}`')
                self.on_event('none-arith', st, node, ast.unparse(node)[:80])
                return []
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                st.ctrl |= l.deps | r.deps
                return [(st, bool({'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[o](l.v, r.v)))]
            except TypeError:
                self.raise_(st, node, 'TypeError', 'unorderable')
                return []
        return self.cmp_order(o, l, r, st, node)

    def add_ne(self, vn, c, st):
        f = st.facts.get(vn)
        f = f.copy() if f else Fact()
        if c not in f.ne:
            f.ne = f.ne | {c}
            st.facts[vn] = f

    def opaque_split(self, st, deps, node):
        """A test which leaves no fact behind."""
        return self.split(st, deps, node)

    def split(self, st, deps, node):
        b = st.copy()
        ln = getattr(node, 'lineno', 0)
        st.ctrl |= deps
        b.ctrl |= deps
        st.trace = st.trace + ((ln, True),)
        b.trace = b.trace + ((ln, False),)
        return st, b

    def cmp_is(self, l, r, st, node):
        if isinstance(l, Const) and not isinstance(r, Const):
            l, r = r, l
        if isinstance(r, Const):
            if isinstance(l, Const):
                st.ctrl |= l.deps
                return [(st, (l.v is r.v) if (l.v is None or r.v is None or isinstance(r.v, bool)) else (l.v == r.v and type(l.v) is type(r.v)))]
            if isinstance(l, Sym):
                if r.v is None:
                    if l.kind in ('num', 'str', 'bool', 'obj'):
                        return [(st, False)]
                    f = st.facts.get(l.vn)
                    if f is not None and (None in f.ne or f.truth is True or f.lo > -INF or f.hi < INF):
                        return [(st, False)]
                    s1, s2 = self.split(st, l.deps, node)
                    f1 = (f.copy() if f else Fact())
                    f1.eq = None
                    f1.truth = False
                    s1.facts[l.vn] = f1
                    self.add_ne(l.vn, None, s2)
                    return [(s1, True), (s2, False)]
                if isinstance(r.v, bool):
                    return self.cmp_eq(l, r, st, node)
            elif r.v is None and not isinstance(l, Sym):
                return [(st, False)]
        s1, s2 = self.opaque_split(st, self.deref_deep(l, st).deps | self.deref_deep(r, st).deps, node)
        return [(s1, True), (s2, False)]

    def cmp_eq(self, l, r, st, node):
        if isinstance(l, Const) and not isinstance(r, Const):
            l, r = r, l
        if isinstance(l, Const) and isinstance(r, Const):
            st.ctrl |= l.deps | r.deps
            try:
                return [(st, bool(l.v == r.v))]
            except Exception:
                return [(st, False)]
        if isinstance(l, Sym) and isinstance(r, Const):
            f = st.facts.get(l.vn)
            if r.v is None and l.kind != 'any':
                return [(st, False)]
            if f is not None and r.v in f.ne:
                return [(st, False)]
            if isinstance(r.v, str) and l.kind in ('num', 'bool'):
                return [(st, False)]
            if isinstance(r.v, str) and l.vn in self.prefixes:
                for p in self.prefixes[l.vn]:
                    pf = st.facts.get(vnum('startswith', l.vn, p))
                    if pf is not None and pf.truth is not None and pf.truth != r.v.startswith(p):
                        return [(st, False)]
            if is_num(r.v) and l.kind == 'str':
                return [(st, False)]
            if is_num(r.v) and not isinstance(r.v, complex):
                lo, hi = self.interval(l, st)
                if not (lo <= r.v <= hi):
                    return [(st, False)]
                if f is not None and ((f.lo == r.v and f.loo) or (f.hi == r.v and f.hio)):
                    return [(st, False)]
                if lo == hi == r.v and self.not_none(l, st):
                    st.ctrl |= l.deps | r.deps
                    return [(st, True)]
            s1, s2 = self.split(st, l.deps | r.deps, node)
            f1 = f.copy() if f else Fact()
            if is_num(r.v) and not isinstance(r.v, (bool, complex)):
                f1.lo = f1.hi = float(r.v)
                f1.loo = f1.hio = False
                if l.kind == 'any':
                    f1.ne = f1.ne | {None}
            else:
                f1.eq = r.v
                f1.truth = bool(r.v)
            s1.facts[l.vn] = f1
            self.add_ne(l.vn, r.v, s2)
            if l.kind == 'bool' and isinstance(r.v, bool):
                f2 = s2.facts[l.vn].copy()
                f2.eq = not r.v
                s2.facts[l.vn] = f2
            if l.kind == 'any' and l.deps and not is_num(r.v):
                pass
            return [(s1, True), (s2, False)]
        dl, dr = self.deref(l, st), self.deref(r, st)
        il, ir = self.seq_items(dl), self.seq_items(dr)
        if il is not None and ir is not None and len(il) != len(ir):
            return [(st, False)]
        if isinstance(l, Sym) and isinstance(r, Sym):
            if l.vn == r.vn:
                return [(st, True)]
            return self.cmp_order('==', l, r, st, node)
        if isinstance(l, (Cls, Ext, Fn)) and isinstance(r, (Cls, Ext, Fn)):
            a = l.ci.fq if isinstance(l, Cls) else l.name if isinstance(l, Ext) else l.fi.fq
            b = r.ci.fq if isinstance(r, Cls) else r.name if isinstance(r, Ext) else r.fi.fq
            return [(st, a == b)]
        s1, s2 = self.opaque_split(st, self.deref_deep(l, st).deps | self.deref_deep(r, st).deps, node)
        return [(s1, True), (s2, False)]

    def cmp_in(self, l, r, st, node):
        h = self.deref(r, st)
        keys = None
        if isinstance(h, Lit):
            keys = list(h.v)
        elif isinstance(h, (TupV, ListV)):
            its = self.seq_items(h)
            if its is not None and all(isinstance(x, Const) for x in its):
                keys = [x.v for x in its]
        elif isinstance(h, DictV) and h.complete:
            keys = list(h.items)
        elif isinstance(h, Const) and isinstance(h.v, str):
            if isinstance(l, Const) and isinstance(l.v, str):
                return [(st, l.v in h.v)]
        if keys is not None:
            if isinstance(l, Const):
                st.ctrl |= l.deps
                try:
                    return [(st, l.v in keys)]
                except TypeError:
                    return [(st, False)]
            if isinstance(l, Sym):
                f = st.facts.get(l.vn)
                if f is not None and all((k in f.ne) for k in keys):
                    return [(st, False)]
                live = [k for k in keys if not (f is not None and k in f.ne)]
                if len(live) <= 24:
                    res = []
                    cur = st
                    for k in live:
                        pair = self.cmp_eq(l, Const(k), cur, node)
                        cur = None
                        for a, t in pair:
                            if t:
                                res.append((a, True))
                            else:
                                cur = a
                        if cur is None:
                            break
                    if cur is not None:
                        res.append((cur, False))
                    return res
                s1, s2 = self.split(st, l.deps, node)
                self.add_ne(l.vn, None, s1)
                f2 = s2.facts.get(l.vn)
                f2 = f2.copy() if f2 else Fact()
                f2.ne = f2.ne | frozenset(k for k in keys if isinstance(k, (str, int, float, type(None))))
                s2.facts[l.vn] = f2
                return [(s1, True), (s2, False)]
        if isinstance(l, Sym):
            ks = None
            if isinstance(r, Sym):
                ks = vnum('in', l.vn, r.vn)
            if ks is not None:
                return self.fork_key(st, ks, l.deps | r.deps, node)
        s1, s2 = self.opaque_split(st, self.deref_deep(l, st).deps | self.deref_deep(r, st).deps, node)
        return [(s1, True), (s2, False)]

    def fork_key(self, st, vn, deps, node):
        f = st.facts.get(vn)
        if f is not None and f.truth is not None:
            return [(st, f.truth)]
        s1, s2 = self.split(st, deps, node)
        s1.facts[vn] = Fact(truth=True)
        s2.facts[vn] = Fact(truth=False)
        return [(s1, True), (s2, False)]

    def cmp_order(self, o, l, r, st, node):
        if isinstance(l, Const) and isinstance(r, Sym):
            l, r = r, l
            o = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[o]
        if isinstance(l, Sym) and isinstance(r, Const) and is_num(r.v) and not isinstance(r.v, complex):
            c = float(r.v)
            f = st.facts.get(l.vn)
            base = f.copy() if f else Fact()
            if l.iv is not None:
                if l.iv[0] > base.lo:
                    base.lo, base.loo = l.iv[0], False
                if l.iv[1] < base.hi:
                    base.hi, base.hio = l.iv[1], False
            t, fl = base.copy(), base.copy()
            self._narrow(t, o, c)
            self._narrow(fl, NEGOP[o], c)
            res = []
            te, fe = t.empty(), fl.empty()
            if l.kind == 'any':
                t.ne = t.ne | {None}
                fl.ne = fl.ne | {None}
            if te and fe:
                return []
            if te:
                st.facts[l.vn] = fl
                st.ctrl |= l.deps
                return [(st, False)]
            if fe:
                st.facts[l.vn] = t
                st.ctrl |= l.deps
                return [(st, True)]
            s1, s2 = self.split(st, l.deps | r.deps, node)
            s1.facts[l.vn] = t
            s2.facts[l.vn] = fl
            return [(s1, True), (s2, False)]
        if isinstance(l, Sym) and isinstance(r, Sym):
            if l.vn == r.vn:
                return [(st, o in ('<=', '>=', '=='))]
            a, b = self.interval(l, st), self.interval(r, st)
            cur = self.get_rel(l.vn, r.vn, st)
            poss = set(cur)
            if a[1] < b[0]:
                poss &= {'<'}
            elif b[1] < a[0]:
                poss &= {'>'}
            elif a[1] <= b[0]:
                poss &= {'<', '='}
            elif b[1] <= a[0]:
                poss &= {'>', '='}
            want = RELSET[o]
            t, f = frozenset(poss & want), frozenset(poss - want)
            for x in (l, r):
                if x.kind == 'any' and o != '==':
                    self.add_ne(x.vn, None, st)
            if not t and not f:
                return []
            if not f:
                return [(st, True)]
            if not t:
                return [(st, False)]
            s1, s2 = self.split(st, l.deps | r.deps, node)
            self.set_rel(l.vn, r.vn, t, s1)
            self.set_rel(l.vn, r.vn, f, s2)
            return [(s1, True), (s2, False)]
        s1, s2 = self.opaque_split(st, self.deref_deep(l, st).deps | self.deref_deep(r, st).deps, node)
        return [(s1, True), (s2, False)]

    def _narrow(self, f, o, c):
        if o in ('<', '<='):
            if c < f.hi or (c == f.hi and o == '<'):
                f.hi, f.hio = c, o == '<'
        elif o in ('>', '>='):
            if c > f.lo or (c == f.lo and o == '>'):
                f.lo, f.loo = c, o == '>'
        elif o == '==':
            if c < f.lo or c > f.hi or (c == f.lo and f.loo) or (c == f.hi and f.hio):
                f.lo, f.hi = 1.0, 0.0
            else:
                f.lo = f.hi = c
                f.loo = f.hio = False
        elif o == '!=':
            f.ne = f.ne | {c}

    def get_rel(self, a, b, st):
        direct = st.rel.get((a, b), ALLREL)
        # transitive closure through one or more intermediate values
        if len(direct) > 1 and st.rel:
            order = self._reach(a, b, st)
            back = self._reach(b, a, st)
            if order == '<':
                direct &= frozenset('<')
            elif order == '<=':
                direct &= frozenset('<=')
            if back == '<':
                direct &= frozenset('>')
            elif back == '<=':
                direct &= frozenset('>=')
        return direct

    def _reach(self, a, b, st):
        """'<' / '<=' if a is provably below b through recorded relations."""
        best = {a: '<='}
        todo = [a]
        while todo:
            x = todo.pop()
            for (p, q), r in st.rel.items():
                if p != x or not r or '>' in r:
                    continue
                strict = best[x] == '<' or r == frozenset('<')
                s = '<' if strict else '<='
                if q not in best or (best[q] == '<=' and s == '<'):
                    best[q] = s
                    todo.append(q)
        return best.get(b) if b != a else None

    def set_rel(self, a, b, r, st):
        st.rel[(a, b)] = frozenset(r)
        st.rel[(b, a)] = frozenset(FLIP[x] for x in r)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        res = []
        for a, f in self.eval(e.func, st):
            acc = [(a, [], False)]
            for x in e.args:
                nx = []
                for b, vs, star in acc:
                    if isinstance(x, ast.Starred):
                        for c, v in self.eval(x.value, b):
                            it = self.iter_items(v, c)
                            if it is None:
                                nx.append((c, vs + [Sym(deps=self.deref_deep(v, c).deps)], True))
                            else:
                                nx.append((c, vs + it, star))
                    else:
                        for c, v in self.eval(x, b):
                            nx.append((c, vs + [v], star))
                acc = nx
            for b, vs, star in acc:
                kacc = [(b, {}, star)]
                for k in e.keywords:
                    nx = []
                    for c, kv, s in kacc:
                        for d, v in self.eval(k.value, c):
                            if k.arg is None:
                                h = self.deref(v, d)
                                if isinstance(h, DictV) and h.complete and all(isinstance(z, str) for z in h.items):
                                    nx.append((d, {**kv, **h.items}, s))
                                else:
                                    nx.append((d, {**kv, '**': Sym(deps=self.deref_deep(v, d).deps)}, True))
                            else:
                                nx.append((d, {**kv, k.arg: v}, s))
                    kacc = nx
                for c, kv, s in kacc:
                    res.extend(self.call(f, vs, kv, c, e, s))
        return self.compact_results(res)

    def call(self, f, args, kwargs, st, node, star=False):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, node, star)
        if isinstance(f, Cls):
            return self.construct(f, args, kwargs, st, node, star)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, st, node)
        if isinstance(f, Const) and f.v is None:
            self.raise_(st, node, 'TypeError', 'calling None')
            return []
        deps = f.deps | join_deps([self.deref_deep(x, st) for x in list(args) + list(kwargs.values())])
        if isinstance(f, Sym) and isinstance(f.tag, tuple) and f.tag[0] == 'fnset':
            self.on_event('fnset-call', st, node, '', (f, args, kwargs))
        h = self.deref(f, st)
        if isinstance(h, Inst) and h.cls is not None:
            fm = h.cls.find_method(self.prog, '__call__')
            if fm is not None:
                return self.call_fn(Fn(fm, None, f), args, kwargs, st, node, star)
        self.call_unknown(f, args, kwargs, st, node)
        return [(st, Sym(deps=deps))]

    def call_unknown(self, f, args, kwargs, st, node):
        # unknown callee may mutate referenced objects
        for x in list(args) + list(kwargs.values()):
            if isinstance(x, Ref):
                h = st.heap.get(x.id)
                if isinstance(h, ListV):
                    st.heap[x.id] = ListV(None, Sym(deps=h.deps))

    def construct(self, f, args, kwargs, st, node, star):
        ci = f.ci
        init = ci.find_method(self.prog, '__init__')
        isexc = any(isinstance(b, ast.Name) and b.id.endswith(('Error', 'Exception', 'Warning')) for c in ci.mro(self.prog) for b in c.node.bases)
        if isexc:
            return [(st, Sym(kind='obj'))]
        o = self.alloc(Inst(ci, {}, not self.known_bases(ci)), st)
        if init is None or star or self.policy(Fn(init, None, o), None, st, node) == 'opaque' or init in self.stack:
            d = join_deps([self.deref_deep(x, st) for x in list(args) + list(kwargs.values())])
            st.heap[o.id] = Inst(ci, {'__deps__': Sym(deps=d)}, True)
            return [(st, o)]
        out = []
        for a, v in self.call_fn(Fn(init, None, o), args, kwargs, st, node, star):
            out.append((a, o))
        return out

    def call_ext(self, f, args, kwargs, st, node):
        name = f.name
        m = name.rsplit('.', 1)[-1]
        base = name.rsplit('.', 1)[0]
        deps = join_deps([self.deref_deep(x, st) for x in list(args) + list(kwargs.values())])
        r = self.ext_hook(f, args, kwargs, st, node, deps)
        if r is not None:
            return r
        if base == 'method':
            return self.call_method(f.self_, m, args, kwargs, st, node, deps)
        if base == 'builtins':
            g = getattr(self, 'b_' + m, None)
            if g is not None:
                return g(args, kwargs, st, node, deps)
            if isinstance(getattr(builtins, m, None), type) and issubclass(getattr(builtins, m), BaseException):
                return [(st, Sym(kind='obj'))]
            return [(st, Sym(deps=deps))]
        if base == 'math' and m in MATH_NUM:
            for x in args:
                if isinstance(x, Const) and x.v is None:
                    self.raise_(st, node, 'TypeError', f'{m}(None)')
                    self.on_event('none-arith', st, node, ast.unparse(node)[:80])
                    return []
                if isinstance(x, Sym) and x.kind == 'any':
                    self.add_ne(x.vn, None, st)
            if all(isinstance(x, Const) and is_num(x.v) for x in args) and args and m not in ('factorial', 'fsum', 'modf', 'frexp'):
                try:
                    return [(st, self.const_math(m, args, getattr(math, m)(*[x.v for x in args])))]
                except ValueError:
                    self.raise_(st, node, 'ValueError', 'math domain error')
                    return []
                except (OverflowError, TypeError, AttributeError):
                    pass
            iv = None
            if m in ('sqrt', 'exp', 'fabs', 'hypot', 'cosh'):
                iv = (0.0, INF)
            elif m in ('sin', 'cos', 'tanh', 'erf'):
                iv = (-1.0, 1.0)
            ks = [self.vnkey(x) for x in args]
            vn = vnum('f', m, *ks) if all(k is not None for k in ks) else None
            if m in ('isinf', 'isnan', 'isfinite'):
                return [(st, Sym(vn, deps=deps, kind='bool'))]
            return [(st, Sym(vn, deps=deps, kind='num', iv=iv, dim=self.dim_math(m, args, st, node)))]
        return [(st, Sym(deps=deps))]

    def const_math(self, m, args, r):
        return Const(r, join_deps(args))

    def dim_math(self, m, args, st, node):
        return None

    def ext_hook(self, f, args, kwargs, st, node, deps):
        return None

    # builtins
    def b_float(self, args, kwargs, st, node, deps):
        if not args:
            return [(st, Const(0.0))]
        x = args[0]
        if isinstance(x, Const):
            if x.v is None:
                self.raise_(st, node, 'TypeError', 'float(None)')
                return []
            try:
                return [(st, Const(float(x.v), x.deps, x.dim))]
            except (ValueError, TypeError, OverflowError):
                self.raise_(st, node, 'ValueError', 'float()')
                return []
        if isinstance(x, Sym):
            if x.kind == 'num':
                return [(st, x)]
            if x.kind == 'any':
                self.add_ne(x.vn, None, st)
            return [(st, Sym(vnum('float', x.vn), deps=deps, kind='num', dim=x.dim))]
        return [(st, Sym(deps=deps, kind='num'))]

    def b_int(self, args, kwargs, st, node, deps):
        if args and isinstance(args[0], Const):
            try:
                return [(st, Const(int(args[0].v), args[0].deps))]
            except (ValueError, TypeError, OverflowError):
                self.raise_(st, node, 'ValueError', 'int()')
                return []
        d = getattr(args[0], 'dim', None) if args else None
        return [(st, Sym(deps=deps, kind='num', dim=d))]

    def b_bool(self, args, kwargs, st, node, deps):
        if not args:
            return [(st, Const(False))]
        return [(a, Const(t, deps)) for a, t in self.truth(args[0], st, node)]

    def b_str(self, args, kwargs, st, node, deps):
        if args and isinstance(args[0], Const):
            return [(st, Const(str(args[0].v), args[0].deps))]
        return [(st, Sym(deps=deps, kind='str'))]

    b_repr = b_str

    def b_abs(self, args, kwargs, st, node, deps):
        x = args[0] if args else Sym()
        if isinstance(x, Const):
            if x.v is None:
                self.raise_(st, node, 'TypeError', 'abs(None)')
                return []
            try:
                return [(st, Const(abs(x.v), x.deps, x.dim))]
            except TypeError:
                return []
        if isinstance(x, Sym):
            if x.kind == 'any':
                self.add_ne(x.vn, None, st)
            return [(st, Sym(vnum('abs', x.vn), deps=deps, kind='num', dim=x.dim, iv=(0.0, INF)))]
        return [(st, Sym(deps=deps, kind='num', iv=(0.0, INF)))]

    def _minmax(self, args, kwargs, st, node, deps, mx):
        for x in args:
            if isinstance(x, Const) and x.v is None:
                self.raise_(st, node, 'TypeError', 'min/max with None')
                self.on_event('none-arith', st, node, ast.unparse(node)[:80])
                return []
        items = args
        if len(args) == 1:
            it = self.iter_items(args[0], st)
            if it is None:
                el = self.iter_elem(args[0], st)
                return [(st, Sym(deps=deps, kind='num' if self.is_numeric(el) else 'any', dim=getattr(el, 'dim', None)))]
            items = it
        if 'key' in kwargs:
            return [(st, Sym(deps=deps))]
        if items and all(isinstance(x, Const) and is_num(x.v) for x in items):
            f = max if mx else min
            c = f(items, key=lambda x: x.v)
            return [(st, Const(c.v, deps, c.dim))]
        iv = None
        if len(items) >= 1 and items:
            ivs = [self.interval(x, st) for x in items]
            iv = (max(i[0] for i in ivs), max(i[1] for i in ivs)) if mx else (min(i[0] for i in ivs), min(i[1] for i in ivs))
        ks = [self.vnkey(x) for x in items]
        vn = vnum('minmax', mx, *sorted(ks, key=repr)) if ks and all(k is not None for k in ks) else None
        r = Sym(vn, deps=deps, kind='num' if all(self.is_numeric(x) for x in items) else 'obj', iv=iv, dim=self.dim_same(items, st, node, 'max' if mx else 'min'))
        if vn is not None:
            for x in items:
                if isinstance(x, Sym) and x.vn != vn:
                    self.set_rel(vn, x.vn, frozenset('>=') if mx else frozenset('<='), st)
        return [(st, r)]

    def dim_same(self, items, st, node, what):
        return None

    def b_min(self, args, kwargs, st, node, deps):
        return self._minmax(args, kwargs, st, node, deps, False)

    def b_max(self, args, kwargs, st, node, deps):
        return self._minmax(args, kwargs, st, node, deps, True)

    def b_sum(self, args, kwargs, st, node, deps):
        el = self.iter_elem(args[0], st) if args else Sym()
        it = self.iter_items(args[0], st) if args else None
        d = getattr(el, 'dim', None)
        if it is not None and it and len(args) == 1 and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in it):
            return [(st, Const(sum(x.v for x in it), deps))]
        if it:
            d = self.dim_same(it, st, node, 'sum')
        return [(st, Sym(deps=deps, kind='num' if self.is_numeric(el) else 'obj', dim=d))]

    def b_len(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if args else None
        if it is not None:
            return [(st, Const(len(it)))]
        h = self.deref(args[0], st) if args else None
        if isinstance(h, Lit):
            return [(st, Const(len(h.v)))]
        if isinstance(args[0], Const) and args[0].v is None:
            self.raise_(st, node, 'TypeError', 'len(None)')
            return []
        vn = vnum('len', args[0].vn) if isinstance(args[0], Sym) else None
        return [(st, Sym(vn, deps=deps, kind='num', iv=(0.0, INF)))]

    def b_range(self, args, kwargs, st, node, deps):
        if all(isinstance(x, Const) and isinstance(x.v, int) for x in args) and args:
            r = range(*[x.v for x in args])
            if len(r) <= 400:
                return [(st, self.alloc(ListV([Const(i) for i in r]), st))]
            return [(st, Sym(kind='obj', tag='range' if len(r) == 0 else 'nonempty'))]
        tag = 'range'
        if len(args) == 1 and self.interval(args[0], st)[0] > 0:
            tag = 'nonempty'
        return [(st, Sym(deps=deps, kind='obj', tag=tag))]

    def b_enumerate(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st)
        if it is not None:
            return [(st, self.alloc(ListV([TupV([Const(i), x]) for i, x in enumerate(it)]), st))]
        return [(st, Sym(deps=deps, kind='obj', tag=('elem', TupV([Sym(kind='num', deps=EMPTY), self.iter_elem(args[0], st)]))))]

    def b_zip(self, args, kwargs, st, node, deps):
        its = [self.iter_items(x, st) for x in args]
        if its and all(i is not None for i in its):
            return [(st, self.alloc(ListV([TupV(t) for t in zip(*its)]), st))]
        return [(st, Sym(deps=deps, kind='obj', tag=('elem', TupV([self.iter_elem(x, st) for x in args]))))]

    def _mkseq(self, args, st, deps, tup=False):
        if not args:
            return [(st, TupV([]) if tup else self.alloc(ListV([]), st))]
        it = self.iter_items(args[0], st)
        if it is not None:
            return [(st, TupV(it) if tup else self.alloc(ListV(it), st))]
        el = self.iter_elem(args[0], st)
        if tup:
            return [(st, Sym(deps=deps, kind='obj', tag=('elem', el)))]
        return [(st, self.alloc(ListV(None, el), st))]

    def b_list(self, args, kwargs, st, node, deps):
        return self._mkseq(args, st, deps)

    def b_tuple(self, args, kwargs, st, node, deps):
        return self._mkseq(args, st, deps, True)

    b_set = b_frozenset = b_reversed0 = b_list

    def b_reversed(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if args else None
        if it is not None:
            return [(st, self.alloc(ListV(it[::-1]), st))]
        return self._mkseq(args, st, deps)

    def b_sorted(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if args else None
        if it is not None and all(isinstance(x, Const) for x in it) and 'key' not in kwargs:
            try:
                rv = kwargs.get('reverse')
                s = sorted(it, key=lambda c: c.v, reverse=bool(isinstance(rv, Const) and rv.v))
                return [(st, self.alloc(ListV(s), st))]
            except TypeError:
                pass
        el = self.iter_elem(args[0], st) if args else Sym()
        if it is not None:
            if any(not isinstance(x, (Sym, Const)) for x in it):
                return [(st, Sym(deps=deps, kind='obj'))]
            d = self.dim_same(it, st, node, 'sorted') if it else None
            return [(st, self.alloc(ListV([Sym(deps=deps, kind='num' if all(self.is_numeric(x) for x in it) else 'any', dim=d) for _ in it]), st))]
        return [(st, self.alloc(ListV(None, el), st))]

    def b_dict(self, args, kwargs, st, node, deps):
        if not args and '**' not in kwargs:
            return [(st, self.alloc(DictV(kwargs), st))]
        if args:
            h = self.deref(args[0], st)
            if isinstance(h, DictV):
                return [(st, self.alloc(DictV({**h.items, **kwargs}, h.complete, h.xdeps), st))]
            if isinstance(h, Lit) and isinstance(h.v, dict):
                return [(st, self.alloc(DictV({**{k: self.wrap(x) for k, x in h.v.items()}, **kwargs}), st))]
        return [(st, self.alloc(DictV({}, False, deps), st))]

    def b_isinstance(self, args, kwargs, st, node, deps):
        if len(args) == 2:
            v, t = args
            ts = list(t.items) if isinstance(t, TupV) else [t]
            names = [x.name.replace('builtins.', '') if isinstance(x, Ext) else x.ci.fq if isinstance(x, Cls) else None for x in ts]
            h = self.deref(v, st)
            if None not in names:
                if isinstance(h, Const):
                    py = [getattr(builtins, n, None) for n in names]
                    ok = any(isinstance(p, type) and isinstance(h.v, p) for p in py)
                    return [(st, Const(ok, h.deps))]
                if isinstance(h, (ListV,)) or (isinstance(h, Lit) and isinstance(h.v, list)):
                    return [(st, Const('list' in names))]
                if isinstance(h, TupV):
                    return [(st, Const('tuple' in names))]
                if isinstance(h, DictV):
                    return [(st, Const('dict' in names))]
                if isinstance(h, Inst) and h.cls is not None:
                    return [(st, Const(any(c.fq in names for c in h.cls.mro(self.prog))))]
                if isinstance(h, Sym) and h.kind == 'str' and 'str' in names:
                    return [(st, Const(True, h.deps))]
                if isinstance(h, Sym) and h.kind == 'num' and not ({'float', 'int', 'complex'} & set(names)) and not any('numpy' in n or 'ndarray' in n for n in names):
                    return [(st, Const(False, h.deps))]
                if isinstance(h, Sym):
                    return [(st, Sym(vnum('isinst', h.vn, tuple(names)), deps=h.deps, kind='bool'))]
        return [(st, Sym(deps=deps, kind='bool'))]

    def b_type(self, args, kwargs, st, node, deps):
        if args:
            h = self.deref(args[0], st)
            if isinstance(h, Const):
                return [(st, Ext('builtins.' + type(h.v).__name__))]
            if isinstance(h, ListV):
                return [(st, Ext('builtins.list'))]
            if isinstance(h, TupV):
                return [(st, Ext('builtins.tuple'))]
            if isinstance(h, Inst) and h.cls is not None:
                return [(st, Cls(h.cls))]
            if isinstance(h, Sym):
                return [(st, Sym(vnum('type', h.vn), deps=h.deps, kind='obj'))]
        return [(st, Sym(deps=deps, kind='obj'))]

    def b_hasattr(self, args, kwargs, st, node, deps):
        h = self.deref(args[0], st) if args else None
        if isinstance(h, Inst) and len(args) == 2 and isinstance(args[1], Const) and h.cls is not None and not h.open:
            n = args[1].v
            ok = n in h.attrs or h.cls.find_method(self.prog, n) is not None or h.cls.find_class_var(self.prog, n) is not None
            return [(st, Const(ok))]
        if isinstance(h, Sym) and len(args) == 2 and isinstance(args[1], Const):
            return [(st, Sym(vnum('hasattr', h.vn, args[1].v), deps=h.deps, kind='bool'))]
        return [(st, Sym(deps=deps, kind='bool'))]

    def b_getattr(self, args, kwargs, st, node, deps):
        if len(args) == 2 and isinstance(args[1], Const) and isinstance(args[1].v, str):
            return self.getattr(args[0], args[1].v, st, node)
        h = self.deref(args[0], st) if args else None
        if isinstance(h, Inst):
            return [(st, Sym(deps=self._reach_deps(h, st, 1)))]
        return [(st, Sym(deps=deps))]

    def b_setattr(self, args, kwargs, st, node, deps):
        if len(args) == 3 and isinstance(args[1], Const):
            self.set_attr(args[0], args[1].v, args[2], st, node)
        elif args and isinstance(args[0], Ref):
            h = st.heap.get(args[0].id)
            if isinstance(h, Inst):
                st.heap[args[0].id] = Inst(h.cls, h.attrs, True)
        return [(st, NONE)]

    def b_round(self, args, kwargs, st, node, deps):
        if args and all(isinstance(x, Const) for x in args):
            try:
                return [(st, Const(round(*[x.v for x in args]), deps))]
            except Exception:
                pass
        return [(st, Sym(deps=deps, kind='num', dim=getattr(args[0], 'dim', None) if args else None))]

    def b_print(self, args, kwargs, st, node, deps):
        return [(st, NONE)]

    def b_callable(self, args, kwargs, st, node, deps):
        if args and isinstance(args[0], (Fn, Cls)):
            return [(st, Const(True))]
        return [(st, Sym(deps=deps, kind='bool'))]

    def b_any(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if args else None
        if it is not None and all(isinstance(x, Const) for x in it):
            return [(st, Const(any(x.v for x in it), deps))]
        return [(st, Sym(deps=deps, kind='bool'))]

    def b_all(self, args, kwargs, st, node, deps):
        it = self.iter_items(args[0], st) if args else None
        if it is not None and all(isinstance(x, Const) for x in it):
            return [(st, Const(all(x.v for x in it), deps))]
        return [(st, Sym(deps=deps, kind='bool'))]

    def b_super(self, args, kwargs, st, node, deps):
        return [(st, Sym(kind='obj'))]

    def b_map(self, args, kwargs, st, node, deps):
        if len(args) == 2 and isinstance(args[0], (Fn, Ext)):
            el = self.iter_elem(args[1], st)
            out = []
            for a, v in self.call(args[0], [el], {}, st, node):
                out.append((a, self.alloc(ListV(None, self.elem_of(v, a)), a)))
            return out
        return [(st, Sym(deps=deps, kind='obj'))]

    def call_method(self, o, m, args, kwargs, st, node, deps):
        h = self.deref(o, st)
        if isinstance(h, Const) and isinstance(h.v, str):
            if all(isinstance(x, Const) for x in args) and m in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith', 'split', 'format', 'title', 'count', 'index', 'find', 'join', 'lstrip', 'rstrip'):
                try:
                    r = getattr(h.v, m)(*[x.v for x in args])
                    if isinstance(r, list):
                        return [(st, self.alloc(ListV([Const(x) for x in r]), st))]
                    return [(st, Const(r, h.deps | deps))]
                except Exception:
                    pass
            return [(st, Sym(deps=deps, kind='str'))]
        if m == 'startswith' and isinstance(o, Sym) and len(args) == 1 and not kwargs:
            pre = args[0]
            pres = [x.v for x in pre.items] if isinstance(pre, TupV) and all(isinstance(x, Const) for x in pre.items) else \
                [pre.v] if isinstance(pre, Const) else None
            if pres is not None and all(isinstance(x, str) for x in pres):
                f = st.facts.get(o.vn)
                if f is not None and isinstance(f.eq, str):
                    return [(st, Const(f.eq.startswith(tuple(pres)), o.deps))]
                reg = self.prefixes.setdefault(o.vn, set())
                out, cur = [], st
                for p in pres:
                    reg.add(p)
                    pair = self.fork_key(cur, vnum('startswith', o.vn, p), o.deps, node)
                    cur = None
                    for a, t in pair:
                        if t:
                            out.append((a, Const(True, o.deps)))
                        else:
                            cur = a
                    if cur is None:
                        break
                if cur is not None:
                    out.append((cur, Const(False, o.deps)))
                return out
        if m in self.MUTATORS:
            self.on_event('mutate', st, node, '.' + m + '()', o)
        if isinstance(o, Ref):
            if isinstance(h, ListV):
                if m == 'append' and len(args) == 1:
                    if h.items is not None and len(h.items) < 300:
                        st.heap[o.id] = ListV(h.items + [args[0]], None, h.xdeps)
                    else:
                        el = self.elem_of(args[0], st)
                        if h.items is None and h.elem is not None and isinstance(el, Sym) and isinstance(h.elem, Sym):
                            el = self.join_val(h.elem, el, st, st)
                        st.heap[o.id] = ListV(None, el, h.deps)
                    return [(st, NONE)]
                if m == 'extend':
                    it = self.iter_items(args[0], st)
                    if h.items is not None and it is not None:
                        st.heap[o.id] = ListV(h.items + it)
                    else:
                        st.heap[o.id] = ListV(None, Sym(deps=h.deps | deps))
                    return [(st, NONE)]
                if m == 'insert' and len(args) == 2 and isinstance(args[0], Const) and h.items is not None:
                    it = list(h.items)
                    it.insert(args[0].v, args[1])
                    st.heap[o.id] = ListV(it)
                    return [(st, NONE)]
                if m == 'pop' and h.items is not None and (not args or isinstance(args[0], Const)):
                    it = list(h.items)
                    try:
                        v = it.pop(*[x.v for x in args])
                    except IndexError:
                        self.raise_(st, node, 'IndexError', 'pop')
                        return []
                    st.heap[o.id] = ListV(it)
                    return [(st, v)]
                if m == 'reverse' and h.items is not None:
                    st.heap[o.id] = ListV(h.items[::-1], None, h.xdeps)
                    return [(st, NONE)]
                if m in self.MUTATORS:
                    if m == 'sort' and h.items is not None:
                        st.heap[o.id] = ListV([Sym(deps=h.deps, kind='num' if all(self.is_numeric(x) for x in h.items) else 'any') for _ in h.items])
                    else:
                        st.heap[o.id] = ListV(None, Sym(deps=h.deps | deps))
                    return [(st, NONE if m != 'pop' else Sym(deps=h.deps))]
            if isinstance(h, DictV):
                if m == 'update':
                    it = dict(h.items)
                    comp, x = h.complete, h.xdeps
                    if args:
                        d = self.deref(args[0], st)
                        if isinstance(d, DictV):
                            it.update(d.items)
                            comp = comp and d.complete
                            x |= d.xdeps
                        else:
                            comp = False
                            x |= deps
                    it.update({k: v for k, v in kwargs.items() if k != '**'})
                    st.heap[o.id] = DictV(it, comp, x)
                    return [(st, NONE)]
                if m == 'setdefault' and args and isinstance(args[0], Const):
                    it = dict(h.items)
                    it.setdefault(args[0].v, args[1] if len(args) > 1 else NONE)
                    st.heap[o.id] = DictV(it, h.complete, h.xdeps)
                    return [(st, it[args[0].v])]
                if m == 'pop' and args and isinstance(args[0], Const) and args[0].v in h.items:
                    it = dict(h.items)
                    v = it.pop(args[0].v)
                    st.heap[o.id] = DictV(it, h.complete, h.xdeps)
                    return [(st, v)]
                if m in self.MUTATORS:
                    st.heap[o.id] = DictV(h.items, False, h.xdeps | deps)
                    return [(st, Sym(deps=h.deps | deps))]
            if isinstance(h, Inst):
                return [(st, Sym(deps=self._reach_deps(h, st, 1) | deps))]
        items = h.items if isinstance(h, DictV) else ({k: self.wrap(x) for k, x in h.v.items()} if isinstance(h, Lit) and isinstance(h.v, dict) and len(h.v) < 400 else None)
        if items is not None and not (isinstance(h, DictV) and not h.complete):
            if m == 'items':
                return [(st, self.alloc(ListV([TupV([self.wrap(k), v]) for k, v in items.items()]), st))]
            if m == 'keys':
                return [(st, self.alloc(ListV([self.wrap(k) for k in items]), st))]
            if m == 'values':
                return [(st, self.alloc(ListV(list(items.values())), st))]
            if m == 'get' and args and isinstance(args[0], Const):
                return [(st, items.get(args[0].v, args[1] if len(args) > 1 else NONE))]
            if m == 'get':
                return [(st, Sym(deps=h.deps | deps))]
        if m == 'copy' and isinstance(h, (ListV, DictV)):
            return [(st, self.alloc(h, st))]
        if isinstance(o, Sym) and m in ('lower', 'upper', 'strip'):
            return [(st, Sym(vnum('m', m, o.vn), deps=o.deps, kind='str'))]
        if m == 'tolist' and isinstance(o, Sym):
            return [(st, o)]
        base = self.deref_deep(o, st)
        return [(st, Sym(deps=base.deps | deps))]

    # ----------------------------------------------------------------- merge
    def vkey(self, v):
        if isinstance(v, Const):
            if v.v is None or isinstance(v.v, (bool, str)):
                return ('c', v.v)
            return 'num' if is_num(v.v) else ('c', repr(v.v))
        if isinstance(v, Sym):
            return 'num' if v.kind == 'num' else ('s', v.kind, v.vn if v.kind in ('any', 'str', 'bool') else 0)
        if isinstance(v, TupV):
            return ('t',) + tuple(self.vkey(x) for x in v.items)
        if isinstance(v, Fn):
            return ('f', id(v.fi))
        if isinstance(v, Ref):
            return ('r', v.id)
        if isinstance(v, Lit):
            return ('l', id(v.v))
        return type(v).__name__

    def state_key(self, st):
        k = []
        for fid, f in sorted(st.frames.items()):
            k.append((fid, tuple(sorted((n, self.vkey(v)) for n, v in f.env.items()))))
        for rid, h in sorted(((r, h) for r, h in st.heap.items() if isinstance(r, int)), key=lambda t: t[0]):
            if isinstance(h, ListV):
                k.append((rid, len(h.items) if h.items is not None else -1))
            elif isinstance(h, Inst):
                k.append((rid, tuple(sorted((n, self.vkey(v)) for n, v in h.attrs.items()))))
            elif isinstance(h, DictV):
                k.append((rid, tuple(sorted((str(n)) for n in h.items))))
        k.append(self.extra_key(st))
        try:
            return hash(tuple(map(repr, k)))
        except Exception:
            return id(st)

    def extra_key(self, st):
        return st.extra

    def reduce(self, states):
        if len(states) <= self.soft:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.state_key(s), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                self.join_into(a, b)
            out.append(a)
        if len(out) > self.hard:
            self.incomplete.append('forced merge')
            a = out[0]
            for b in out[1:]:
                self.join_into(a, b)
            out = [a]
        return out

    def join_into(self, a, b):
        """a := a join b (in place)."""
        for fid, f in a.frames.items():
            g = b.frames.get(fid)
            if g is None:
                continue
            for n in list(f.env) + [x for x in g.env if x not in f.env]:
                if n in f.env and n in g.env:
                    f.env[n] = self.join_val(f.env[n], g.env[n], a, b)
                else:
                    v = f.env.get(n) or g.env.get(n)
                    f.env[n] = Sym(deps=self.deref_deep(v, a if n in f.env else b).deps)
        for fid, g in b.frames.items():
            if fid not in a.frames:
                a.frames[fid] = g
        for rid, h in b.heap.items():
            if rid not in a.heap:
                a.heap[rid] = h
            else:
                x = a.heap[rid]
                if x is h:
                    continue
                if isinstance(x, ListV) and isinstance(h, ListV):
                    if x.items is not None and h.items is not None and len(x.items) == len(h.items):
                        a.heap[rid] = ListV([self.join_val(p, q, a, b) for p, q in zip(x.items, h.items)], None, x.xdeps | h.xdeps)
                    else:
                        a.heap[rid] = ListV(None, Sym(deps=x.deps | h.deps))
                elif isinstance(x, DictV) and isinstance(h, DictV):
                    if set(x.items) == set(h.items):
                        a.heap[rid] = DictV({k: self.join_val(x.items[k], h.items[k], a, b) for k in x.items}, x.complete and h.complete, x.xdeps | h.xdeps)
                    else:
                        it = {k: (self.join_val(x.items[k], h.items[k], a, b) if k in x.items and k in h.items else Sym(deps=(x.items.get(k) or h.items.get(k)).deps)) for k in set(x.items) | set(h.items)}
                        a.heap[rid] = DictV(it, False, x.xdeps | h.xdeps)
                elif isinstance(x, Inst) and isinstance(h, Inst):
                    at = {}
                    opn = x.open or h.open
                    for k in set(x.attrs) | set(h.attrs):
                        if k in x.attrs and k in h.attrs:
                            at[k] = self.join_val(x.attrs[k], h.attrs[k], a, b)
                        else:
                            at[k] = Sym()
                    a.heap[rid] = Inst(x.cls, at, opn)
                elif isinstance(rid, tuple):
                    a.heap[rid] = Sym()
        facts = {}
        for vn, f in a.facts.items():
            g = b.facts.get(vn)
            if g is None:
                continue
            if f == g:
                facts[vn] = f
                continue
            n = Fact()
            if f.lo < g.lo or (f.lo == g.lo and not f.loo):
                n.lo, n.loo = f.lo, f.loo
            else:
                n.lo, n.loo = g.lo, g.loo
            if f.hi > g.hi or (f.hi == g.hi and not f.hio):
                n.hi, n.hio = f.hi, f.hio
            else:
                n.hi, n.hio = g.hi, g.hio
            fe = f.ne | ({None} if f.eq is not MISSING and f.eq is not None else EMPTY)
            ge = g.ne | ({None} if g.eq is not MISSING and g.eq is not None else EMPTY)
            n.ne = frozenset(fe) & frozenset(ge)
            if f.eq is not MISSING and g.eq is not MISSING and f.eq == g.eq:
                n.eq = f.eq
            if f.truth is not None and f.truth == g.truth:
                n.truth = f.truth
            facts[vn] = n
        a.facts = facts
        a.rel = {k: a.rel[k] | b.rel[k] for k in a.rel if k in b.rel}
        a.ctrl |= b.ctrl

    def join_val(self, x, y, a, b):
        if x is y:
            return x
        if isinstance(x, Const) and isinstance(y, Const) and type(x.v) is type(y.v) and x.v == y.v:
            return x if x.deps == y.deps else Const(x.v, x.deps | y.deps, x.dim)
        if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
            return x
        if isinstance(x, Fn) and isinstance(y, Fn) and x.fi is y.fi:
            return x
        if isinstance(x, TupV) and isinstance(y, TupV) and len(x.items) == len(y.items):
            return TupV([self.join_val(p, q, a, b) for p, q in zip(x.items, y.items)])
        if isinstance(x, Sym) and isinstance(y, Sym) and x.vn == y.vn:
            return x if x.deps == y.deps else Sym(x.vn, x.deps | y.deps, x.dim, x.kind, x.iv)
        dx, dy = self.deref_deep(x, a), self.deref_deep(y, b)
        kind = 'any'
        if self.is_numeric(x) and self.is_numeric(y):
            kind = 'num'
        elif self.not_none(x, a) and self.not_none(y, b):
            kind = 'obj'
        iv = None
        if kind == 'num':
            i, j = self.interval(x, a), self.interval(y, b)
            iv = (min(i[0], j[0]), max(i[1], j[1]))
        return Sym(deps=dx.deps | dy.deps, kind=kind, iv=iv, dim=self.dim_join(x, y, a))

    def dim_join(self, x, y, st):
        return None

    def not_none(self, v, st):
        if isinstance(v, Const):
            return v.v is not None
        if isinstance(v, Sym):
            if v.kind != 'any':
                return True
            f = st.facts.get(v.vn)
            return f is not None and (None in f.ne or f.truth is True)
        return True


def fold_literal(e):
    """Python value of a purely literal expression, else MISSING."""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple)):
        out = []
        for x in e.elts:
            v = fold_literal(x)
            if v is MISSING:
                return MISSING
            out.append(v)
        return out if isinstance(e, ast.List) else tuple(out)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = fold_literal(e.operand)
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool):
            return -v if isinstance(e.op, ast.USub) else v
        return MISSING
    if isinstance(e, ast.BinOp):
        a, b = fold_literal(e.left), fold_literal(e.right)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(e.op) in BINOPS:
            try:
                f = BINOPS[type(e.op)][1]
                if isinstance(e.op, ast.Pow) and abs(b) > 400:
                    return MISSING
                return f(a, b)
            except Exception:
                return MISSING
        return MISSING
    if isinstance(e, ast.Dict):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return MISSING
            kk, vv = fold_literal(k), fold_literal(v)
            if kk is MISSING or vv is MISSING:
                return MISSING
            try:
                out[kk] = vv
            except TypeError:
                return MISSING
        return out
    if isinstance(e, ast.Set):
        vals = [fold_literal(x) for x in e.elts]
        if any(v is MISSING for v in vals):
            return MISSING
        try:
            return set(vals)
        except TypeError:
            return MISSING
    return MISSING
