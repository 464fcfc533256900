"""Constant evaluation of module-level data: literals, arithmetic, comprehensions, loops filling containers."""
from __future__ import annotations
import ast
import math
import operator

BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
PURE = {'range': range, 'len': len, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'sorted': sorted, 'abs': abs, 'sum': sum, 'min': min, 'max': max, 'zip': zip, 'enumerate': enumerate, 'float': float, 'int': int,
        'str': str, 'round': round, 'reversed': reversed, 'frozenset': frozenset, 'bool': bool, 'map': None, 'any': any, 'all': all}
MATH = {'log': math.log, 'log10': math.log10, 'sqrt': math.sqrt, 'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'radians': math.radians, 'pi': math.pi, 'e': math.e, 'inf': math.inf, 'nan': math.nan}
METHODS = {(list, 'append'), (list, 'extend'), (list, 'index'), (list, 'count'), (list, 'reverse'), (list, 'sort'), (list, 'copy'), (list, 'insert'), (dict, 'update'), (dict, 'items'), (dict, 'keys'), (dict, 'values'), (dict, 'copy'),
           (dict, 'get'), (set, 'add'), (set, 'update'), (str, 'upper'), (str, 'lower'), (str, 'split'), (str, 'join'), (str, 'replace')}


class Unknown(Exception):
    pass


class Rec:
    """Object built by a constructor (or function) of the package from known arguments."""

    def __init__(self, name, args, kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs

    def __repr__(self):
        return f'{self.name}(...)'


class Tables:
    def __init__(self, prog, budget=3_000_000):
        self.prog, self.left = prog, budget
        self.mods = {}
        self.sites = {}          # id(container) -> 'module:line' of its expression
        self.ready = set()

    def module(self, name):
        """name -> value of the module-level names which are known constants."""
        m = self.prog.modules.get(name)
        if m is None:
            return {}
        if name not in self.mods:
            env = self.mods[name] = {}
            self.run(m, m.tree.body, env)
            self.ready.add(name)
        return self.mods[name]

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Unknown

    # -- statements
    def run(self, m, body, env):
        for s in body:
            try:
                self.stmt(m, s, env)
            except (Unknown, ArithmeticError, ValueError, TypeError, KeyError, IndexError, AttributeError, RecursionError, StopIteration):
                for t in targets(s):
                    env.pop(t, None)

    def stmt(self, m, s, env):
        self.tick()
        if isinstance(s, ast.Assign):
            v = self.ev(m, s.value, env)
            for t in s.targets:
                self.store(m, t, v, env)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(m, s.target, self.ev(m, s.value, env), env)
        elif isinstance(s, ast.AugAssign) and type(s.op) in BIN:
            load = ast.parse(ast.unparse(s.target), mode='eval').body
            self.store(m, s.target, BIN[type(s.op)](self.ev(m, load, env), self.ev(m, s.value, env)), env)
        elif isinstance(s, ast.Expr):
            self.ev(m, s.value, env)
        elif isinstance(s, ast.For):
            for x in list(self.ev(m, s.iter, env)):
                self.store(m, s.target, x, env)
                for b in s.body:
                    self.stmt(m, b, env)
        elif isinstance(s, ast.If):
            try:
                t = self.ev(m, s.test, env)
            except Unknown:
                if any(isinstance(n, (ast.Assign, ast.AnnAssign)) for b in s.body + s.orelse for n in ast.walk(b)):
                    raise
                return
            for b in s.body if t else s.orelse:
                self.stmt(m, b, env)
        elif isinstance(s, ast.Try):
            raise Unknown

    def store(self, m, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            if len(v) != len(t.elts):
                raise Unknown
            for a, b in zip(t.elts, v):
                self.store(m, a, b, env)
        elif isinstance(t, ast.Subscript):
            self.ev(m, t.value, env)[self.ev(m, t.slice, env)] = v
        else:
            raise Unknown

    # -- expressions
    def ev(self, m, e, env):
        self.tick()
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.ev(m, x.value, env))
                else:
                    out.append(self.ev(m, x, env))
            out = out if isinstance(e, ast.List) else tuple(out) if isinstance(e, ast.Tuple) else set(out)
            self.sites[id(out)] = m.loc(e)
            return out
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(m, v, env))
                else:
                    out[self.ev(m, k, env)] = self.ev(m, v, env)
            self.sites[id(out)] = m.loc(e)
            return out
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.global_(m, e.id)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(m, e.operand, env)
            return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else +v
        if isinstance(e, ast.BinOp) and type(e.op) in BIN:
            return BIN[type(e.op)](self.ev(m, e.left, env), self.ev(m, e.right, env))
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(m, x, env)
                if bool(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.Compare):
            a = self.ev(m, e.left, env)
            for op, x in zip(e.ops, e.comparators):
                b = self.ev(m, x, env)
                if isinstance(op, (ast.Is, ast.IsNot)):
                    r = (a is b) == isinstance(op, ast.Is)
                else:
                    r = CMP[type(op)](a, b)
                if not r:
                    return False
                a = b
            return True
        if isinstance(e, ast.IfExp):
            return self.ev(m, e.body if self.ev(m, e.test, env) else e.orelse, env)
        if isinstance(e, ast.Subscript):
            return self.ev(m, e.value, env)[self.ev(m, e.slice, env)]
        if isinstance(e, ast.Slice):
            return slice(*(None if x is None else self.ev(m, x, env) for x in (e.lower, e.upper, e.step)))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            out = []
            self.comp(m, e.generators, dict(env), lambda en: out.append(self.ev(m, e.elt, en)))
            return set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.DictComp):
            d = {}
            self.comp(m, e.generators, dict(env), lambda en: d.__setitem__(self.ev(m, e.key, en), self.ev(m, e.value, en)))
            return d
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ('math', 'np', 'numpy') and e.attr in MATH:
                return MATH[e.attr]
            v = self.ev(m, e.value, env)
            if isinstance(v, Rec) and e.attr in v.kwargs:
                return v.kwargs[e.attr]
            raise Unknown
        if isinstance(e, ast.JoinedStr):
            return ''.join(str(self.ev(m, x.value, env)) if isinstance(x, ast.FormattedValue) else x.value for x in e.values)
        if isinstance(e, ast.Call):
            return self.call(m, e, env)
        raise Unknown

    def comp(self, m, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        for x in list(self.ev(m, g.iter, env)):
            self.store(m, g.target, x, env)
            if all(self.ev(m, t, env) for t in g.ifs):
                self.comp(m, gens[1:], env, emit)

    def global_(self, m, name):
        if name in self.mods.get(m.name, ()) :
            return self.mods[m.name][name]
        r = self.prog.resolve(m, name)
        if r and r[0] == 'var' and r[1] is not m:
            v = self.module(r[1].name)
            if r[2] in v:
                return v[r[2]]
        if r and r[0] == 'ext':
            last = str(r[1]).rsplit('.', 1)[-1]
            if last in MATH:
                return MATH[last]
        raise Unknown

    def call(self, m, e, env):
        f = e.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy', 'math') and f.value.id not in env:
                a = [self.ev(m, x, env) for x in e.args]
                if f.attr in ('array', 'asarray'):
                    return a[0]
                if f.attr in MATH and callable(MATH[f.attr]):
                    return MATH[f.attr](*a)
                raise Unknown
            o = self.ev(m, f.value, env)
            a = self.args(m, e, env)
            if (type(o), f.attr) in METHODS:
                return getattr(o, f.attr)(*a, **self.kwargs(m, e, env))
            if f.attr == 'tolist':
                return o
            raise Unknown
        if isinstance(f, ast.Name):
            if PURE.get(f.id) and f.id not in env and (self.prog.resolve(m, f.id) or ('builtin',))[0] == 'builtin':
                v = PURE[f.id](*self.args(m, e, env), **self.kwargs(m, e, env))
                return list(v) if f.id in ('zip', 'enumerate', 'reversed', 'range') else v
            r = self.prog.resolve(m, f.id)
            if r is None:
                raise Unknown
            last = str(r[1]).rsplit('.', 1)[-1] if r[0] == 'ext' else f.id
            a, kw = self.args(m, e, env), self.kwargs(m, e, env)
            if r[0] == 'ext' and last in MATH and callable(MATH[last]):
                return MATH[last](*a)
            if r[0] == 'class':
                init = r[1].methods.get('__init__')
                if init is not None:
                    kw = {**dict(zip(init.pos[1:], a)), **kw}
                return Rec(f.id, a, kw)
            if r[0] == 'func':
                if f.id == 'implementation_optimize_tck':
                    return Rec('tck', list(a[0]), {})
                return Rec(f.id, a, kw)
        raise Unknown

    def args(self, m, e, env):
        out = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                out += list(self.ev(m, x.value, env))
            else:
                out.append(self.ev(m, x, env))
        return out

    def kwargs(self, m, e, env):
        if any(k.arg is None for k in e.keywords):
            raise Unknown
        return {k.arg: self.ev(m, k.value, env) for k in e.keywords}


def targets(s):
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            yield n.id


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def numbers(v):
    """v is a sequence of numbers."""
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(is_num(x) for x in v)


def matrix(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(numbers(x) for x in v)
