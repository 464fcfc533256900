"""S02: extra arguments of solvers reach every evaluation of the caller's function."""
from __future__ import annotations
import ast

from ..effects import argument
from ..program import walk_scope
from ..refs import resolver

# Callable parameters which are not the caller's function of the unknowns.
NOT_OBJECTIVE = {'damping_func': 'combines a point and a step', 'solve_func': 'linear solver', 'sort_fun': 'orders points', 'callback': 'progress report'}
# ... except where the routine documents that it passes the arguments on.
WITH_ARGS = {('newton_system', 'damping_func')}
SKIP = ('fluids.numba', 'fluids.vectorized', 'fluids.units')


def carriers(fi):
    """(names carrying extra positional arguments, names carrying keyword ones)."""
    a = 'args' if 'args' in fi.params or fi.vararg == 'args' else None
    k = 'kwargs' if 'kwargs' in fi.params or fi.kwarg == 'kwargs' else None
    return a, k


def children(fi):
    return [g for g in fi.module.functions.values() if g.parent is fi]


def tree(fi):
    yield fi
    for g in children(fi):
        yield from tree(g)


class Flow:
    """Names of fi (and nested functions) standing for an objective or for the carriers."""

    def __init__(self, prog, fi, objective, a, k):
        self.prog, self.fi, self.a, self.k = prog, fi, a, k
        self.obj = set(objective)          # names
        self.attrs = set()                 # self attributes holding callables
        self.src = {a: {a}, k: {k}}
        self.names = {}                    # derived name -> carrier set
        for c in (a, k):
            if c:
                self.names[c] = {c}
        ch = True
        while ch:
            ch = False
            for g in tree(fi):
                for n in walk_scope(g.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in ts:
                            if isinstance(t, ast.Name):
                                if self.is_obj(n.value, g) and t.id not in self.obj:
                                    self.obj.add(t.id)
                                    ch = True
                                m = self.mentions(n.value)
                                if m - self.names.get(t.id, set()):
                                    self.names.setdefault(t.id, set()).update(m)
                                    ch = True
                            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                                m = self.mentions(n.value)
                                if m - self.names.get(t.value.id, set()):
                                    self.names.setdefault(t.value.id, set()).update(m)
                                    ch = True

    def mentions(self, e):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                out |= self.names.get(n.id, set())
        return out

    def is_obj(self, e, g):
        if isinstance(e, ast.Name):
            return e.id in self.obj
        if isinstance(e, ast.IfExp):
            return self.is_obj(e.body, g) or self.is_obj(e.orelse, g)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return e.attr in self.attrs
        return False


def objectives(prog, table):
    """Fixpoint: parameters of every function which hold a callable evaluated by it."""
    ch = True
    while ch:
        ch = False
        for fi in table:
            ps = set(fi.params) - {'args', 'kwargs', 'self'} - {q for q in NOT_OBJECTIVE if (fi.name, q) not in WITH_ARGS}
            for g in tree(fi):
                own = set(g.all_params) if g is not fi else set()
                for n in walk_scope(g.node):
                    if not isinstance(n, ast.Call):
                        continue
                    if isinstance(n.func, ast.Name) and n.func.id in ps - own and n.func.id not in table[fi]:
                        table[fi].add(n.func.id)
                        ch = True
                    t = callee(prog, g, n)
                    if t is None or t not in table:
                        continue
                    for p in table[t]:
                        e = argument(t, n, p)
                        if isinstance(e, ast.Name) and e.id in ps - own and e.id not in table[fi]:
                            table[fi].add(e.id)
                            ch = True
    return table


def callee(prog, g, n):
    if not isinstance(n.func, (ast.Name, ast.Attribute)):
        return None
    r = getattr(g, '_res', None)
    if r is None:
        r = g._res = resolver(prog, g)
    x = r(n.func)
    if x is not None and x[0] == 'func':
        return x[1]
    return None


def has_star(call, flow, c):
    for a in call.args:
        if isinstance(a, ast.Starred) and c in flow.mentions(a.value):
            return True
    return any(kw.arg is None and c in flow.mentions(kw.value) for kw in call.keywords)


def check(c, prog):
    table = {}
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for f in m.functions.values():
            if f.parent is None and not f.is_lambda:
                table[f] = set()
    objectives(prog, table)
    solver_attrs = {'objf', 'objf_original', 'original_jac', 'objf_counting', 'jac', 'user_hess', 'original_hess', 'solver_analytical_jac', 'solver_analytical_hess'}
    for fi, objs in table.items():
        a, k = carriers(fi)
        if a is None and k is None:
            continue
        method = fi.cls is not None and fi.cls.name == 'SolverInterface'
        if not objs and not method:
            continue
        if fi.vararg == 'args' and fi.kwarg == 'kwargs' and not objs:
            continue
        c.count('functions_with_extra_arguments')
        fl = Flow(prog, fi, objs, a, k)
        if method:
            fl.attrs = set(solver_attrs)
            fl = refill(fl)
        for g in children(fi):
            if not g.is_lambda and g.vararg is not None and any(isinstance(n, ast.Name) and n.id in fl.obj for n in walk_scope(g.node)):
                fl.obj.add(g.name)
        need = [x for x in (a, k) if x]
        if fi.kwarg == 'kwargs' and not forwards_kwargs(fi, fl):
            need = [x for x in need if x != k]
        for g in tree(fi):
            own = set(g.all_params) if g is not fi else set()
            for n in walk_scope(g.node):
                if isinstance(n, (ast.Assign,)) and g is fi:
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id in need and t.id not in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} \
                                and not none_guard(fi.module, n, t.id):
                            c.violation('dropped', f'{fi.fq}|{t.id}', fi.module.loc(n), f'{t.id} given by the caller is replaced')
                if not isinstance(n, ast.Call):
                    continue
                f = n.func
                direct = (isinstance(f, ast.Name) and f.id in fl.obj - own) or (isinstance(f, ast.Attribute) and fl.is_obj(f, g))
                if direct:
                    c.count('evaluations')
                    for x in need:
                        if not has_star(n, fl, x):
                            c.violation('evaluation', f'{fi.fq}|{ast.unparse(f)}|{x}', fi.module.loc(n), f'{ast.unparse(n)[:70]} does not pass {x} on')
                    continue
                vals = list(n.args) + [kw.value for kw in n.keywords]
                passed = [e for e in vals if (isinstance(e, ast.Name) and e.id in fl.obj - own) or (isinstance(e, ast.Attribute) and fl.is_obj(e, g))]
                if not passed:
                    continue
                if isinstance(f, ast.Name) and f.id in ('callable', 'isinstance', 'id', 'repr', 'hasattr', 'type', 'array_as_list'):
                    continue
                c.count('delegations')
                t = callee(prog, g, n)
                if t is not None and t in table:
                    ta, tk = carriers(t)
                    gets = [p for p in table[t] if (e := argument(t, n, p)) is not None and e != '?' and any(e is v for v in passed)]
                    if not gets or all(wraps(t, p) for p in gets):
                        continue        # handed on to something which does not call it
                    for x, tx in ((a, ta), (k, tk)):
                        if x is None or x not in need:
                            continue
                        if tx is None:
                            if x not in set().union(*[fl.mentions(v) for v in vals]):
                                c.violation('delegation', f'{fi.fq}|{t.name}|{x}', fi.module.loc(n), f'{t.name} evaluates {ast.unparse(passed[0])} without {x}')
                            continue
                        e = argument(t, n, tx) if tx in t.params else None
                        ok = (e == '?') or (e is not None and x in fl.mentions(e)) or has_star(n, fl, x)
                        if not ok:
                            c.violation('delegation', f'{fi.fq}|{t.name}|{x}', fi.module.loc(n), f'the call of {t.name} does not hand over {x} for {ast.unparse(passed[0])}')
                else:
                    # outside the package: args must take part in this call or in the call of its result
                    allv = set().union(*[fl.mentions(v) for v in vals]) if vals else set()
                    p = fi.module.parent.get(n)
                    if isinstance(p, ast.Call) and p.func is n:
                        allv |= set().union(*[fl.mentions(v) for v in list(p.args) + [kw.value for kw in p.keywords]] or [set()])
                    if isinstance(f, ast.Name) and f.id.startswith('residual_to') or isinstance(f, ast.Name) and f.id.startswith('fixed_point_to'):
                        continue        # wraps the function; the wrapper forwards its own arguments
                    for x in need:
                        if x not in allv:
                            c.violation('delegation', f'{fi.fq}|{ast.unparse(f)[:40]}|{x}', fi.module.loc(n), f'{ast.unparse(n)[:70]} does not hand over {x}')
    # functional wrappers: def wrapper(x, *args) -> f(x, *args)
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for g in m.functions.values():
            if g.parent is None or g.vararg is None or g.parent.vararg is not None:
                continue
            outer = set(g.parent.params)
            for n in walk_scope(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in outer - set(g.all_params) - {'self'}:
                    c.count('wrapper_evaluations')
                    if not any(isinstance(x, ast.Starred) for x in n.args):
                        c.violation('wrapper', f'{g.fq}|{n.func.id}', m.loc(n), f'the wrapper accepts *{g.vararg} but evaluates {ast.unparse(n)[:60]} without it')
            pair(c, m, g)
        for g in m.functions.values():
            if g.parent is None or g.vararg is None:
                pair(c, m, g)
    c.floor('functions_with_extra_arguments', 20)
    c.floor('evaluations', 90)
    c.floor('delegations', 15)
    c.self_test(any(f.name == 'brenth' and 'f' in o for f, o in table.items()), 'brenth calls its parameter f')
    c.rules = ["evaluation: a call of a callable parameter (or an alias or stored attribute of it) in a function with args/kwargs which does not unpack them",
               'delegation: handing the callable to another routine which evaluates it, without handing over args/kwargs',
               'dropped: reassigning args or kwargs to a value which ignores what the caller gave', 'wrapper: a nested wrapper which drops its variable arguments']
    c.explanation = ('All call sites of callable parameters, found by a fixpoint over delegating calls, in every function which accepts extra arguments; '
                     'derived argument tuples are followed through assignments.')
    c.assumptions = ['damping and linear-solver callbacks take no extra arguments (documented)']


def pair(c, m, g):
    """A forwarder which accepts both *args and **kwargs uses both or neither."""
    if g.vararg is None or g.kwarg is None or id(g) in _seen:
        return
    _seen.add(id(g))
    c.count('forwarders')
    used = {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    if (g.vararg in used) != (g.kwarg in used):
        miss = g.kwarg if g.vararg in used else g.vararg
        c.violation('forwarder', f'{g.fq}|{miss}', g.loc, f'{g.qualname} forwards its arguments but drops {miss}')
    for n in walk_scope(g.node):
        if isinstance(n, ast.Call):
            sa = any(isinstance(x, ast.Starred) and isinstance(x.value, ast.Name) and x.value.id == g.vararg for x in n.args)
            sk = any(kw.arg is None and isinstance(kw.value, ast.Name) and kw.value.id == g.kwarg for kw in n.keywords)
            if sa and not sk:
                c.violation('forwarder', f'{g.fq}|{ast.unparse(n.func)}|{g.kwarg}', m.loc(n), f'{ast.unparse(n)[:60]} forwards *{g.vararg} but drops **{g.kwarg}')


_seen = set()


def wraps(t, p):
    """t evaluates p only inside nested functions with variable arguments of their own."""
    for n in walk_scope(t.node):
        if isinstance(n, ast.Call) and any(isinstance(x, ast.Name) and x.id == p for x in [n.func] + list(n.args) + [kw.value for kw in n.keywords]):
            return False
    return any(g.vararg is not None for g in tree(t) if g is not t)


def refill(fl):
    n = Flow.__new__(Flow)
    n.__dict__.update(fl.__dict__)
    ch = True
    while ch:
        ch = False
        for g in tree(fl.fi):
            for s in walk_scope(g.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id not in n.obj and (n.is_obj(s.value, g) or (isinstance(s.value, ast.Attribute) and s.value.attr.startswith('objf_') and isinstance(s.value.value, ast.Name))):
                            n.obj.add(t.id)
                            ch = True
    return n


def forwards_kwargs(fi, fl):
    """**kwargs which the function evaluates its callable with (elsewhere it absorbs options)."""
    for g in tree(fi):
        for n in walk_scope(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in fl.obj and has_star(n, fl, fi.kwarg):
                return True
    return False


def none_guard(m, n, name):
    p = m.parent.get(n)
    return isinstance(p, ast.If) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(p.test))
