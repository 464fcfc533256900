"""M01: arguments are never modified."""
from __future__ import annotations
import ast

from ..effects import alias, public
from ..program import walk_scope

# (function, parameter) -> reason; documented or named as working in place.
INPLACE = {
    ('fluids.numerics.trunc_exp_numpy', 'out'): 'numpy output argument',
    ('fluids.numerics.trunc_log_numpy', 'out'): 'numpy output argument',
    ('fluids.numerics.fpbspl', 'h'): 'work arrays of the FITPACK kernel',
    ('fluids.numerics.fpbspl', 'hh'): 'work arrays of the FITPACK kernel',
    ('fluids.numerics.bounds_clip_naive', 'x'): 'clips the given work vector in place and returns it',
    ('fluids.numerics.arrays.inplace_LU', 'A'): 'in-place factorisation by name',
    ('fluids.numerics.arrays.inplace_LU', 'ipivot'): 'in-place factorisation by name',
    ('fluids.numerics.caching_decorator.wrapper', 'kwargs'): 'the info argument is an output list',
    ('fluids.optional.spa.solar_position_loop', 'out'): 'output array argument',
    ('fluids.units.convert_output', 'result'): 'receives the freshly built result of the wrapped function',
}


def self_param(f):
    return f.pos[0] if f.cls is not None and f.pos and 'staticmethod' not in f.decorator_names() else None


def handed_out(f):
    """Nested function returned to the user by a public function."""
    p = f.parent
    if p is None or f.is_lambda or not (public(p) or handed_out(p)):
        return False
    for n in walk_scope(p.node):
        if isinstance(n, ast.Return) and n.value is not None and any(isinstance(x, ast.Name) and x.id == f.name for x in ast.walk(n.value)):
            return True
    return False


def check(c, prog):
    al = alias(prog)
    hit = set()
    for f in al.fns:
        if not (public(f) or handed_out(f)):
            continue
        s = al.sum[f]
        c.count('public_functions_analysed')
        c.count('parameters_tracked', len(f.all_params))
        me = self_param(f)
        for (root, lvl), (loc, what) in sorted(s.mut.items(), key=str):
            if root[0] != 'P' or root[1] == me:
                continue
            if root[1] in (f.vararg, f.kwarg) and lvl == 0:
                continue
            if (f.fq, root[1]) in INPLACE:
                hit.add((f.fq, root[1]))
                continue
            depth = ['the object itself', 'an element of it', 'an element of an element', 'an object deep inside it'][lvl]
            c.violation('argument-modified', f'{f.fq}|{root[1]}', loc, f'{f.name} modifies {depth} passed as {root[1]}: {what}')
    # objects kept in attributes by a constructor or setter and modified later
    muts = {}
    for f in al.fns:
        for (root, lvl), why in al.sum[f].mut.items():
            if root[0] == 'A':
                muts.setdefault(root, []).append((lvl, f, why))
    for key, vals in al.attr_vals.items():
        c.count('instance_attributes_tracked')
        for (f, (root, k), depth), where in vals.items():
            if root[0] != 'P' or root[1] == self_param(f) or not entry_like(f):
                continue
            for lvl, g, why in muts.get(key, ()):
                # the attribute's own object is level 0; depth says where the argument sits in it
                if lvl >= depth and (f.fq, root[1]) not in INPLACE:
                    if depth == 0 and k > 0:
                        continue
                    c.violation('argument-modified', f'{f.fq}|{root[1]}|{key[2]}', why[0],
                                f'{f.name} keeps argument {root[1]} in attribute {key[2]} (at {where}) and {g.name} modifies it: {why[1]}')
    c.floor('public_functions_analysed', 900)
    c.floor('parameters_tracked', 4000)
    c.self_test(prog.func('fluids.numerics.arrays.inplace_LU', False) is None or ('fluids.numerics.arrays.inplace_LU', 'A') in hit,
                'in-place factorisation is seen to modify its argument')
    c.rules = ['argument-modified: an in-place operation (item/attribute store, augmented assignment, mutating method, out=) reaches, directly, '
               'through an alias, through a container or through a callee, an object passed as a parameter of a public function']
    c.explanation = 'May-alias with three levels of containment per root object and function summaries applied at every resolved call to a fixed point.'
    c.assumptions = ['third-party functions do not modify their arguments except the listed in-place ones', 'nrlmsise00, numba and vectorized layers are not analysed',
                     'callbacks given by the user do not modify what they receive']


def entry_like(f):
    return public(f) or f.name == '__init__'
