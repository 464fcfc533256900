"""M02: no history dependence."""
from __future__ import annotations
import ast

from ..alias import mutable_expr
from ..effects import alias, deps, live, public
from ..program import walk_scope

# (function, state) -> reason
ALLOW = {
    ('fluids.units.parse_numpydoc_variables_units', 'parse_numpydoc_variables_units_cache'): 'keyed by the hash of the very text which is parsed',
    ('fluids.geometry.TANK.set_table', '*'): 'documented preparatory call',
    ('fluids.geometry.TANK.set_chebyshev_approximators', '*'): 'documented preparatory call',
}
# classes whose purpose is to accumulate
STATEFUL = {'fluids.numerics.OscillationChecker', 'fluids.numerics.SolverInterface', 'fluids.design_climate.SimpleGeolocatorCache'}
CTOR = {'__init__', '__new__', '__setstate__', '__init_subclass__'}


def value_of(node):
    return getattr(node, 'value', None)


def reads(e, name):
    return e is not None and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))


def reads_attr(e, attr):
    return e is not None and any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(e))


def judge_store(prog, f, node):
    """None when the in-place write at node is a sound memo or argument independent; else a reason."""
    d = deps(prog, f)
    if isinstance(node, ast.Assign):
        ts = [t for t in node.targets if isinstance(t, ast.Subscript)]
        if ts:
            key, val = ts[0].slice, node.value
        else:
            key, val = None, node.value
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
        at = node.func.attr
        if at in ('setdefault', '__setitem__') and len(node.args) == 2:
            key, val = node.args
        elif at in ('clear', 'popitem', 'pop', 'remove', 'discard'):
            return 'removes'
        else:
            key, val = None, ast.Tuple(elts=list(node.args) + [k.value for k in node.keywords], ctx=ast.Load())
    elif isinstance(node, ast.AugAssign):
        return 'accumulates over calls'
    elif isinstance(node, ast.Delete):
        return 'removes'
    else:
        return 'modified in place'
    ctl = d.control(node)
    need = live(prog, f, d.of(val) | ctl)
    have = d.plain(key) if key is not None else set()
    miss = need - have
    if key is not None and not have and d.of(key) & live(prog, f, d.of(key)):
        # the key itself carries the argument: membership is history
        if not need:
            miss = live(prog, f, d.of(key))
    if miss:
        return 'stores a value which depends on ' + ', '.join(sorted(x.replace('F:', 'captured ') for x in miss)) + \
               (' which the key does not determine' if key is not None else '')
    if key is None:
        return 'argless'
    return None


def check(c, prog):
    al = alias(prog)

    def allowed(f, name):
        return (f.fq, name) in ALLOW or (f.fq, '*') in ALLOW

    for f in al.fns:
        c.count('functions_analysed')
        if f.cls is not None and f.cls.fq in STATEFUL or (f.parent is not None and f.parent.cls is not None and f.parent.cls.fq in STATEFUL):
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        d = deps(prog, f) if (al.gwrites.get(f) or al.fattr.get(f) or al.direct.get(f) or al.awrites.get(f)) else None
        rebound = {n for m, n, node in al.gwrites.get(f, ())}
        seen = set()
        for m, name, node in al.gwrites.get(f, ()):
            if id(node) in seen:
                continue
            seen.add(id(node))
            c.count('global_rebindings')
            v = value_of(node)
            if allowed(top, name):
                continue
            if isinstance(node, ast.AugAssign) or (v is not None and reads(v, name)):
                c.violation('history', f'{f.fq}|{m.name}.{name}', m.loc(node), f'{f.name} updates module variable {name} from its previous value')
                continue
            dep = live(prog, f, d.of(v) | d.control(node)) if v is not None else set()
            if dep:
                c.violation('history', f'{f.fq}|{m.name}.{name}', m.loc(node), f'{f.name} keeps a value which depends on {", ".join(sorted(dep))} in module variable {name}')
        for n, node in al.fattr.get(f, ()):
            c.count('attribute_state_writes')
            v = value_of(node)
            attr = n.rsplit('.', 1)[1]
            if allowed(top, attr):
                continue
            if isinstance(node, ast.AugAssign) or reads_attr(v, attr):
                c.violation('history', f'{f.fq}|{n}', f.module.loc(node), f'{f.name} updates {n} from its previous value')
                continue
            dep = live(prog, f, d.of(v) | d.control(node)) if v is not None else set()
            if dep:
                c.violation('history', f'{f.fq}|{n}', f.module.loc(node), f'{f.name} keeps a value which depends on {", ".join(sorted(dep))} in {n}')
        for (root, lvl), node, what in al.direct.get(f, ()):
            if root[0] in 'GK':
                c.count('package_object_writes')
                if allowed(top, root[2]):
                    continue
                why = judge_store(prog, f, node)
                if why is None:
                    continue
                if why == 'argless' and (root[2] in rebound):
                    continue
                if why == 'removes':
                    mm = prog.modules.get(root[1])
                    bs = [b for b in mm.bind.get(root[2], ()) if b[0] == 'var'] if mm else []
                    if bs and all(isinstance(b[1], (ast.Dict, ast.List)) and not (getattr(b[1], 'keys', None) or getattr(b[1], 'elts', None)) for b in bs):
                        continue
                    why = 'removes data from it'
                if why == 'argless':
                    why = 'grows or changes it at every call'
                c.violation('history', f'{f.fq}|{root[1]}.{root[2]}', f.module.loc(node), f'{f.name} writes to package-level {root[2]} ({what}): {why}')
            elif root[0] == 'P':
                dflt = f.defaults.get(root[1])
                if dflt is not None and mutable_expr(prog, f.module, dflt, lvl):
                    c.violation('history', f'{f.fq}|default {root[1]}', f.module.loc(node), f'{f.name} modifies the default value of {root[1]}, shared by all calls: {what}')
            elif root[0] == 'A' and f.name not in CTOR and public(top):
                c.count('instance_container_writes')
                ctor_only = False
                if allowed(top, root[2]) or ctor_only:
                    continue
                why = judge_store(prog, f, node)
                if why in (None, 'argless', 'removes'):
                    if why is None or not isinstance(node, ast.AugAssign):
                        continue
                c.violation('history', f'{f.fq}|self.{root[2]}', f.module.loc(node), f'{f.name} writes to attribute {root[2]} ({what}): {why}')
            elif root[0] == 'A' and f.name not in CTOR:
                c.count('instance_container_writes')
                if isinstance(node, ast.Assign):
                    why = judge_store(prog, f, node)
                    if why not in (None, 'argless') and not allowed(top, root[2]) and not only_constructed(prog, al, f):
                        c.violation('history', f'{f.fq}|self.{root[2]}', f.module.loc(node), f'{f.name} writes to attribute {root[2]} ({what}): {why}')
            elif root[0] == 'F' and escaping(prog, f):
                c.count('closure_writes')
                why = judge_store(prog, f, node)
                if why not in (None, 'removes') and not allowed(top, root[1]):
                    c.violation('history', f'{f.fq}|closure {root[1]}', f.module.loc(node), f'{f.name} keeps state in captured {root[1]}: {why}')
        for key, node in al.awrites.get(f, ()):
            if f.name in CTOR or allowed(top, key[2]):
                continue
            c.count('instance_attribute_writes')
            if only_constructed(prog, al, f):
                continue
            v = value_of(node)
            if isinstance(node, ast.AugAssign):
                c.violation('history', f'{f.fq}|self.{key[2]}', f.module.loc(node), f'{f.name} updates attribute {key[2]} from its previous value at every call')
                continue
            dep = live(prog, f, d.of(v) | d.control(node)) if v is not None else set()
            if dep and (public(f) or f.cls is None or True):
                c.violation('history', f'{f.fq}|self.{key[2]}', f.module.loc(node), f'{f.name} keeps a value which depends on {", ".join(sorted(dep))} in attribute {key[2]}')
        if f.cls is not None and any(x.endswith(('lru_cache', '.cache')) or x == 'cache' for x in f.decorator_names()):
            c.violation('history', f'{f.fq}|cached method', f.loc, f'{f.name} is a cached method: the cache does not see later changes of the object')
        nl = f.scope_info()[2]
        if nl and escaping(prog, f):
            for n in walk_scope(f.node):
                t = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []
                for x in t:
                    if isinstance(x, ast.Name) and x.id in nl and (isinstance(n, ast.AugAssign) or live(prog, f, deps(prog, f).of(n.value) | deps(prog, f).control(n))):
                        c.violation('history', f'{f.fq}|closure {x.id}', f.module.loc(n), f'{f.name} keeps state in captured {x.id} between calls')
    c.floor('functions_analysed', 1100)
    c.floor('global_rebindings', 4)
    c.floor('package_object_writes', 4)
    c.rules = ['history: a write to state which outlives the call (module or class variable, function attribute, package-level container, default argument, '
               'captured variable of a decorator, instance attribute outside construction) whose value depends on the arguments or on its own previous value, '
               'unless it is a memo whose key is an injective packing of everything the value depends on']
    c.explanation = 'Writes come from the alias analysis; dependence is explicit plus control dependence on parameters, with parameters of private helpers followed to their call sites.'
    c.assumptions = ['OscillationChecker, SolverInterface and the geolocation cache accumulate by purpose', 'numba, vectorized and nrlmsise00 layers are not analysed']


def only_constructed(prog, al, f):
    """Private method whose every call site is inside a constructor (or such a method)."""
    from ..effects import callers
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        if g.name in CTOR or 'classmethod' in g.decorator_names():
            continue
        if public(g):
            return False
        cs = callers(prog).get(g, [])
        if not cs:
            return False
        todo.extend(x for x, _ in cs)
    return True


def escaping(prog, f):
    """Nested function returned by an outer function used as a decorator or called at module level."""
    p = f.parent
    if p is None or f.is_lambda:
        return False
    if not any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id == f.name for n in walk_scope(p.node)):
        return False
    used = getattr(prog, '_decorators', None)
    if used is None:
        from ..refs import module_level
        used = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    for x in n.decorator_list:
                        x = x.func if isinstance(x, ast.Call) else x
                        r = prog.resolve_expr(m, x)
                        if r and r[0] == 'func':
                            used.add(r[1])
            for n in module_level(m):
                if isinstance(n, ast.Call):
                    r = prog.resolve_expr(m, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                    if r and r[0] == 'func':
                        used.add(r[1])
        prog._decorators = used
    return p in used or escaping(prog, p)
