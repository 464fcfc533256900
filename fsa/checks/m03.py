"""M03: no reference to package-level mutable data escapes."""
from __future__ import annotations
import ast

from ..alias import is_mutable, mutable_expr
from ..effects import alias, public

# reason per function; internal accessors whose callers only read.
ALLOW = {
    ('fluids.design_climate.get_stations', '_stations'): 'not exported; documented accessor of the station list',
    ('fluids.design_climate.get_latlongs', '_latlongs'): 'not exported; not copied by design (comment at its definition)',
    ('fluids.numerics.central_diff_weights', 'central_diff_weights_precomputed'): 'not exported; its only caller reads the weights',
    ('fluids.units.parse_numpydoc_variables_units', 'parse_numpydoc_variables_units_cache'): 'not exported; its callers copy (M01)',
    ('fluids.units.UnitAwareClass.__getattr__', 'property_units'): 'unit objects are immutable',
    ('fluids.units.UnitAwareClass.input_units_to_dimensionless', 'method_units'): 'unit objects are immutable',
}
CACHES = ('lru_cache', 'functools.lru_cache', 'cache', 'functools.cache')


def mutable_return(prog, f):
    """The function returns a fresh mutable container on some path."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            if mutable_expr(prog, f.module, n.value, 0):
                return True
            if isinstance(n.value, ast.Name):
                for a in ast.walk(f.node):
                    if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.value.id for t in a.targets) and mutable_expr(prog, f.module, a.value, 0):
                        return True
    return False


def check(c, prog):
    al = alias(prog)
    tables = set()
    for f in al.fns:
        if f.parent is not None or f.is_lambda:
            continue
        for d in f.decorator_names():
            if d in CACHES:
                c.count('cached_functions')
                if mutable_return(prog, f):
                    c.violation('cached-result-escapes', f.fq, f.loc, f'{f.name} is cached and returns a mutable object: a caller who changes it changes later results')
        if not public(f):
            continue
        c.count('public_functions_analysed')
        s = al.sum[f]
        for loc in sorted(s.ret.all(), key=str):
            root, lvl = loc
            if root[0] not in 'GK':
                continue
            c.count('package_objects_reaching_a_result')
            if not is_mutable(prog, loc):
                continue
            if (f.fq, root[2]) in ALLOW or (f.name.startswith('__') and f.name != '__init__'):
                tables.add((f.fq, root[2]))
                continue
            depth = ['', 'an element of ', 'an element of an element of ', 'an object inside '][lvl]
            c.violation('table-escapes', f'{f.fq}|{root[1]}.{root[2]}', f.loc, f'{f.name} can return {depth}the package-level mutable {root[1]}.{root[2]} itself')
        # mutable defaults
        for p, d in f.defaults.items():
            if mutable_expr(prog, f.module, d, 0) and (('P', p), 0) in s.ret.s:
                c.violation('default-escapes', f'{f.fq}|{p}', f.loc, f'{f.name} can return its own default value of {p}, shared by all calls')
    # stored in instances
    muts = {}
    for key, vals in al.attr_vals.items():
        c.count('instance_attributes_tracked')
        for (f, loc, depth), where in vals.items():
            if loc[0][0] in 'GK' and is_mutable(prog, loc) and not key[2].startswith('_') and not key[1].startswith('fluids.units'):
                c.violation('table-kept-in-object', f'{key[1]}.{key[2]}|{loc[0][1]}.{loc[0][2]}', where,
                            f'public attribute {key[2]} holds the package-level mutable {loc[0][2]} itself')
    nmut = 0
    for m in prog.modules.values():
        for nm in m.bind:
            if is_mutable(prog, (('G', m.name, nm), 0)):
                nmut += 1
    c.count('package_level_mutables', nmut)
    c.floor('package_level_mutables', 200)
    c.floor('public_functions_analysed', 900)
    c.floor('package_objects_reaching_a_result', 40)
    c.rules = ['table-escapes: a package-level mutable object (or one inside it) may be the returned object or be inside it',
               'cached-result-escapes', 'default-escapes', 'table-kept-in-object']
    c.explanation = 'Return-value provenance with three containment levels; mutability of the exact containment level is read off the defining expression.'
    c.assumptions = ['immutability of leaves: numbers, strings, tuples of those, pint units']
