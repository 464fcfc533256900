"""Program model of /repo/fluids: modules, scopes, name resolution, classes.

Everything here is derived from the syntax trees of the current source; no
module of the analysed package is ever imported or executed.
"""
from __future__ import annotations
import ast
import builtins
import hashlib
import os

REPO = os.environ.get('FSA_REPO', '/repo')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__'}


class AnalysisBroken(Exception):
    """An anchor the analysis needs has vanished: neither pass nor violation."""


class FuncInfo:
    def __init__(self, module, node, qualname, parent, cls=None):
        self.module, self.node, self.qualname, self.parent, self.cls = module, node, qualname, parent, cls
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = self.posonly + [x.arg for x in a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        if a.defaults:
            for n, d in zip(self.pos[-len(a.defaults):], a.defaults):
                self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.params = self.pos + self.kwonly
        self.all_params = self.params + [x for x in (self.vararg, self.kwarg) if x]
        self.is_lambda = isinstance(node, ast.Lambda)
        self.doc = None if self.is_lambda else ast.get_docstring(node)
        self.decorators = [] if self.is_lambda else node.decorator_list
        self._locals = None
        self._children = None

    @property
    def fq(self):
        return self.module.name + '.' + self.qualname

    @property
    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def decorator_names(self):
        out = []
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return out

    @property
    def body(self):
        if self.is_lambda:
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    def scope_info(self):
        """(locals, globals_declared, nonlocals) bound directly in this scope."""
        if self._locals is None:
            self._locals = scope_bindings(self.node)
        return self._locals

    def is_generator(self):
        for n in walk_scope(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def __repr__(self):
        return f'<Func {self.fq}>'


def walk_scope(fn):
    """Walk nodes belonging to the scope of fn (not nested defs/lambdas/classes).

    Comprehensions are included (their element scope is folded in)."""
    body = [fn.body] if isinstance(fn, ast.Lambda) else list(fn.body)
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(n.decorator_list)
            stack.extend(d for d in n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
            stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def scope_bindings(fn):
    loc, glob, nonl = set(), set(), set()
    a = fn.args if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else None
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)

    def rec(n, in_comp):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMP):
            # targets are local to the comprehension
            for g in n.generators:
                rec(g.iter, in_comp)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name == '*':
                    continue
                loc.add(al.asname or al.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            rec(c, in_comp)
    for b in ([fn.body] if isinstance(fn, ast.Lambda) else fn.body):
        rec(b, False)
    loc -= glob
    loc -= nonl
    return loc, glob, nonl


class ClassInfo:
    def __init__(self, module, node, qualname):
        self.module, self.node, self.qualname, self.name = module, node, qualname, node.name
        self.methods = {}      # name -> FuncInfo
        self.class_vars = {}   # name -> value node (last)
        self.doc = ast.get_docstring(node)

    @property
    def fq(self):
        return self.module.name + '.' + self.qualname

    @property
    def loc(self):
        return f'{self.module.rel}:{self.node.lineno}'

    def bases(self, prog):
        out = []
        for b in self.node.bases:
            r = prog.resolve_expr(self.module, b)
            if r and r[0] == 'class':
                out.append(r[1])
        return out

    def mro(self, prog):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(c.bases(prog))
        return out

    def find_method(self, prog, name):
        for c in self.mro(prog):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_var(self, prog, name):
        for c in self.mro(prog):
            if name in c.class_vars:
                return c, c.class_vars[name]
        return None


class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        self.rel = os.path.relpath(path, prog.repo)
        with open(path, 'rb') as f:
            self.source = f.read()
        self.digest = hashlib.sha256(self.source).hexdigest()
        self.tree = ast.parse(self.source, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.bind = {}         # name -> list of binding tuples in order
        self.stars = []        # modules star-imported
        self.functions = {}    # qualname -> FuncInfo (all nested too)
        self.classes = {}      # qualname -> ClassInfo
        self.by_node = {}      # ast node -> FuncInfo
        self.parent = {}       # ast node -> parent
        for p in ast.walk(self.tree):
            for c in ast.iter_child_nodes(p):
                self.parent[c] = p
        self._collect_top(self.tree.body)
        self._collect_funcs(self.tree, '', None, None)

    def abs_mod(self, node):
        """Absolute module name of an ImportFrom."""
        if node.level == 0:
            return node.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        return '.'.join(parts + ([node.module] if node.module else []))

    def add(self, name, b):
        self.bind.setdefault(name, []).append(b)

    def _targets(self, t, value, stmt):
        if isinstance(t, ast.Name):
            self.add(t.id, ('var', value, stmt))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vals):
                self._targets(x, v, stmt)
        elif isinstance(t, ast.Starred):
            self._targets(t.value, None, stmt)

    def _collect_top(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.add(n.name, ('func', n))
            elif isinstance(n, ast.ClassDef):
                self.add(n.name, ('class', n))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self._targets(t, n.value, n)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    self._targets(n.target, n.value, n)
            elif isinstance(n, ast.AugAssign):
                self._targets(n.target, None, n)
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if al.asname:
                        self.add(al.asname, ('import', al.name, None))
                    else:
                        self.add(al.name.split('.')[0], ('import', al.name.split('.')[0], None))
            elif isinstance(n, ast.ImportFrom):
                m = self.abs_mod(n)
                for al in n.names:
                    if al.name == '*':
                        self.stars.append(m)
                    else:
                        self.add(al.asname or al.name, ('import', m, al.name))
            elif isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                if isinstance(n, ast.For):
                    self._targets(n.target, None, n)
                for f in ('body', 'orelse', 'finalbody'):
                    self._collect_top(getattr(n, f, []) or [])
                for h in getattr(n, 'handlers', []) or []:
                    self._collect_top(h.body)

    def _collect_funcs(self, node, prefix, parent, cls):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + c.name
                base, k = q, 2
                while q in self.functions:
                    q = f'{base}#{k}'
                    k += 1
                fi = FuncInfo(self, c, q, parent, cls)
                self.functions[q] = fi
                self.by_node[c] = fi
                if cls is not None:
                    cls.methods[c.name] = fi
                for d in c.decorator_list + c.args.defaults + [k for k in c.args.kw_defaults if k]:
                    self._collect_funcs_expr(d, prefix, parent)
                for st in c.body:
                    self._collect_funcs(ast.Module(body=[st], type_ignores=[]), q + '.', fi, None)
            elif isinstance(c, ast.ClassDef):
                q = prefix + c.name
                ci = ClassInfo(self, c, q)
                self.classes[q] = ci
                self.by_node[c] = ci
                for st in c.body:
                    if isinstance(st, ast.Assign):
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                ci.class_vars[t.id] = st.value
                    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                        ci.class_vars[st.target.id] = st.value
                    self._collect_funcs(ast.Module(body=[st], type_ignores=[]), q + '.', parent, ci)
            elif isinstance(c, ast.Lambda):
                self._lambda(c, prefix, parent)
            else:
                self._collect_funcs(c, prefix, parent, cls if isinstance(c, ast.stmt) else None)

    def _collect_funcs_expr(self, d, prefix, parent):
        self._collect_funcs(ast.Module(body=[ast.Expr(value=d)], type_ignores=[]), prefix, parent, None)

    def _lambda(self, c, prefix, parent):
        q = prefix + '<lambda>'
        base, k = q, 2
        while q in self.functions:
            q = f'{base}#{k}'
            k += 1
        fi = FuncInfo(self, c, q, parent)
        self.functions[q] = fi
        self.by_node[c] = fi
        self._collect_funcs(ast.Module(body=[ast.Expr(value=c.body)], type_ignores=[]), q + '.', fi, None)

    def loc(self, node):
        return f'{self.rel}:{getattr(node, "lineno", 0)}'


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, 'fluids')
        if not os.path.isdir(self.root):
            raise AnalysisBroken(f'package directory {self.root} not found')
        self.modules = {}
        for dp, dn, fn in os.walk(self.root):
            dn[:] = sorted(d for d in dn if d not in ('__pycache__', 'data'))
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.modules[rel] = Module(self, rel, p)
        self._all = {}
        self._res = {}
        self._allin = {}

    def func(self, fq, required=True):
        """'fluids.friction.friction_factor' -> FuncInfo."""
        parts = fq.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:i]))
            if m is not None:
                q = '.'.join(parts[i:])
                if q in m.functions:
                    return m.functions[q]
                if i == len(parts) - 1:
                    r = self.resolve(m, parts[-1])
                    if r and r[0] == 'func':
                        return r[1]
        if required:
            raise AnalysisBroken(f'anchor function {fq} not found')
        return None

    def cls(self, fq, required=True):
        mod, q = fq.rsplit('.', 1)
        m = self.modules.get(mod)
        if m is not None and q in m.classes:
            return m.classes[q]
        if required:
            raise AnalysisBroken(f'anchor class {fq} not found')
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f'anchor module {name} not found')
        return m

    def all_functions(self):
        for m in self.modules.values():
            yield from m.functions.values()

    # ---- name resolution -------------------------------------------------
    def resolve(self, module, name, _seen=None):
        """Resolve a module-scope name. Returns tuple or None:
        ('func', FuncInfo) ('class', ClassInfo) ('var', Module, name)
        ('module', Module) ('ext', 'pkg.attr') ('builtin', name)"""
        key = (module.name, name)
        if _seen is None and key in self._res:
            return self._res[key]
        seen = _seen or set()
        if key in seen:
            return None
        seen = seen | {key}
        r = self._resolve(module, name, seen)
        if _seen is None:
            self._res[key] = r
        return r

    def _resolve(self, module, name, seen):
        bs = module.bind.get(name)
        if bs:
            # last definition wins; but prefer function definition over
            # conditional re-imports of the same thing
            b = bs[-1]
            if b[0] == 'func':
                return ('func', module.by_node[b[1]])
            if b[0] == 'class':
                return ('class', module.by_node[b[1]])
            if b[0] == 'var':
                return ('var', module, name)
            if b[0] == 'import':
                _, m, attr = b
                return self._import(m, attr, seen)
        for m in reversed(module.stars):
            if m in self.modules:
                mm = self.modules[m]
                al = self.exports(mm)
                if al is None or name in al:
                    r = self.resolve(mm, name, seen)
                    if r is not None and r[0] != 'builtin':
                        return r
            elif m == 'math':
                import math
                if hasattr(math, name):
                    return ('ext', 'math.' + name)
        sub = module.name + '.' + name
        if module.is_pkg and sub in self.modules:
            return ('module', self.modules[sub])
        if name in BUILTINS:
            return ('builtin', name)
        return None

    def _import(self, m, attr, seen):
        if attr is None:
            if m in self.modules:
                return ('module', self.modules[m])
            return ('ext', m)
        if m in self.modules:
            mm = self.modules[m]
            if m + '.' + attr in self.modules and attr not in mm.bind:
                return ('module', self.modules[m + '.' + attr])
            r = self.resolve(mm, attr, seen)
            if r is None and m + '.' + attr in self.modules:
                return ('module', self.modules[m + '.' + attr])
            return r if r is None or r[0] != 'builtin' else ('missing', m, attr)
        return ('ext', f'{m}.{attr}')

    def exports(self, module):
        """Value of __all__ as a list of names, or None if not declared."""
        if module.name in self._all:
            return self._all[module.name]
        self._all[module.name] = None
        names = None
        for n in module.tree.body:
            for st in ([n] if not isinstance(n, ast.If) else n.body):
                v = None
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in st.targets):
                    v, names = st.value, []
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == '__all__':
                    v, names = st.value, []
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == '__all__':
                    v = st.value
                elif (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute)
                      and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == '__all__'):
                    if st.value.func.attr in ('extend', 'append') and st.value.args:
                        v = st.value.args[0]
                if v is None:
                    continue
                if names is None:
                    names = []
                names.extend(self._export_expr(module, v))
        self._all[module.name] = names
        return names

    def _export_expr(self, module, v):
        if isinstance(v, (ast.List, ast.Tuple)):
            out = []
            for e in v.elts:
                if isinstance(e, ast.Starred):
                    out.extend(self._export_expr(module, e.value))
                elif isinstance(e, ast.Constant):
                    out.append(e.value)
            return out
        if isinstance(v, ast.Constant) and isinstance(v.value, str):
            return [v.value]
        if isinstance(v, ast.Attribute) and v.attr == '__all__':
            r = self.resolve_expr(module, v.value)
            if r and r[0] == 'module':
                return list(self.exports(r[1]) or [])
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            return self._export_expr(module, v.left) + self._export_expr(module, v.right)
        return []

    def resolve_expr(self, module, e):
        """Resolve Name / dotted Attribute at module scope."""
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            return self.getattr(r, e.attr)
        return None

    def getattr(self, r, attr):
        if r is None:
            return None
        if r[0] == 'module':
            m = r[1]
            x = self.resolve(m, attr)
            if x is not None and x[0] != 'builtin':
                return x
            if m.name + '.' + attr in self.modules:
                return ('module', self.modules[m.name + '.' + attr])
            return None
        if r[0] == 'ext':
            return ('ext', r[1] + '.' + attr)
        if r[0] == 'class':
            fm = r[1].find_method(self, attr)
            if fm:
                return ('func', fm)
        return None

    def resolve_in(self, fn, name):
        """Resolve a name used inside function fn to its binding scope.
        Returns ('local', FuncInfo) if bound in fn or an enclosing function,
        else the module-level resolution."""
        f = fn
        while f is not None:
            loc, glob, nonl = f.scope_info()
            if name in loc:
                return ('local', f)
            if name in glob:
                break
            f = f.parent
        return self.resolve(fn.module, name)

    def resolve_expr_in(self, fn, e):
        if isinstance(e, ast.Name):
            return self.resolve_in(fn, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr_in(fn, e.value)
            if r is None or r[0] == 'local':
                return None
            return self.getattr(r, e.attr)
        return None

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.modules):
            h.update(n.encode())
            h.update(self.modules[n].digest.encode())
        return h.hexdigest()


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG
