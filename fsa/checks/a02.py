"""A02: export lists and the string-named function/attribute lists of the variants resolve."""
from __future__ import annotations
import ast
import collections
import re

from ..docs import parse
from ..program import walk_scope, COMP

VARIANTS = ('fluids.numba', 'fluids.numba_vectorized', 'fluids.vectorized')
OUTSIDE = ('fluids.numerics', 'fluids.nrlmsise00', 'fluids.optional', 'fluids.numba', 'fluids.vectorized', 'fluids.units', 'fluids.constants')
# documented functions which the package does not export (confirmed on the base tree)
UNEXPORTED = {
    'fluids.compressible.P_upstream_isothermal_critical_flow': 'documented, reached through isothermal_gas',
    'fluids.core.Engauge_2d_parser': 'digitising helper',
    'fluids.fittings.Miller_bend_roughness_correction': 'helper of bend_rounded_Miller',
    'fluids.fittings.Miller_bend_unimpeded_correction': 'helper of bend_rounded_Miller',
    'fluids.fittings.bend_rounded_Ito': 'reached through bend_rounded',
    'fluids.fittings.diffuser_conical_Crane': 'reached through diffuser_conical',
    'fluids.jet_pump.liquid_jet_pump_pressure_ratio': 'helper of liquid_jet_pump',
    'fluids.mixing.adjust_homogeneity': 'not exported',
    'fluids.two_phase.friction_factor_Kim_Mudawar': 'helper of Kim_Mudawar',
}
# same name, different objects, on purpose: the numpy/pure-Python split of numerics and re-exports
TOPLEVEL_SHADOW = {}


def top_level_defs(m):
    """name -> [def nodes] executed unconditionally at module level."""
    out = collections.defaultdict(list)
    for n in m.tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out[n.name].append(n)
    return out


# ---- model of the numba source transformation (fluids/numba.py: remove_for_numba) ----
DEL = re.compile(r'.*# ?(numba|NUMBA) ?: *(DELETE|delete|comment|COMMENT).*')
UNC = re.compile(r'#(.*)# ?(numba|NUMBA) ?: *(UNCOMMENT|uncomment).*')


def numba_source(src):
    return UNC.sub(r'\1', DEL.sub('', src))


def segment(m, node):
    lines = m.source.decode('utf-8').splitlines()
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    seg = lines[first - 1:node.end_lineno]
    return '\n'.join(seg) + '\n'


def literal_strings(e):
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return [(x.value, x) for x in e.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
    return []


def undefined_names(prog, m, fn_ast, name):
    """Names read by the transformed function which resolve nowhere in the module."""
    bound = set()
    for n in ast.walk(fn_ast):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, ast.arg):
            bound.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bound.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, ast.alias):
            bound.add((n.asname or n.name).split('.')[0])
    for n in ast.walk(fn_ast):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound and prog.resolve(m, n.id) is None \
                and n.id not in ('np', 'numba', 'jitclass', 'njit', 'jit', 'prange', 'sum', 'array_if_needed', '__file__', 'NUMERICS_SUBMOD', 'full', 'zeros'):
            yield n.id


def check(c, prog):
    # 1. every exported name exists, no duplicates hidden behind one another
    for m in prog.modules.values():
        ex = prog.exports(m)
        if ex is None:
            continue
        for n in ex:
            c.count('exported_names')
            if m.name in VARIANTS or m.name == 'fluids.units':
                continue
            if prog.resolve(m, n) is None:
                c.violation('export-missing', f'{m.name}|{n}', f'{m.rel}:1', f'__all__ of {m.name} names {n}, which the module does not define')
    # 2. documented public functions and classes are exported
    for m in prog.modules.values():
        ex = prog.exports(m)
        if ex is None or m.name.startswith(OUTSIDE) or m.name == 'fluids':
            continue
        for n, nodes in top_level_defs(m).items():
            node = nodes[-1]
            doc = ast.get_docstring(node)
            if n.startswith('_') or not doc:
                continue
            s = parse(doc)
            full = bool(s.get('Parameters')) and (bool(s.get('Returns')) or isinstance(node, ast.ClassDef))
            if not full:
                continue
            c.count('documented_definitions')
            if n not in ex and f'{m.name}.{n}' not in UNEXPORTED:
                c.violation('not-exported', f'{m.name}.{n}', m.loc(node), f'{n} is a documented public object but is missing from __all__: the package namespace and its vectorised, compiled and unit-aware variants lack it')
            if len(nodes) > 1:
                c.violation('redefined', f'{m.name}.{n}', m.loc(nodes[-1]), f'{n} is defined more than once in {m.name}')
    # 3. the top-level namespace
    top = prog.module('fluids')
    stars = []
    for n in ast.walk(top.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
            stars.append(top.abs_mod(n))
    topall = set(prog.exports(top) or ())
    subs = next((v for k, v in ((t.id, n.value) for n in ast.walk(top.tree) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)) if k == 'submodules'), None)
    subnames = {x.id for x in subs.elts if isinstance(x, ast.Name)} if isinstance(subs, ast.List) else set()
    owners = collections.defaultdict(dict)
    for mn in stars:
        m = prog.modules.get(mn)
        if m is None:
            c.violation('export-missing', f'fluids|{mn}', top.rel + ':1', f'star import of the unknown module {mn}')
            continue
        short = mn.split('.')[-1]
        c.count('star_imported_modules')
        if short not in subnames:
            c.violation('variant-missing', f'submodules|{short}', top.rel, f'{short} is missing from the list of submodules: the compiled variant does not cover it')
        for n in prog.exports(m) or ():
            r = prog.resolve(m, n)
            if r is not None:
                owners[n][mn] = (r[0], r[1], r[2] if len(r) > 2 else None)
            if n not in topall:
                c.violation('not-exported', f'fluids|{n}', top.rel, f'{n} of {mn} is imported into the top-level namespace but not exported by it')
    for mn, m in prog.modules.items():
        if mn.count('.') == 1 and not mn.startswith(OUTSIDE) and prog.exports(m) and mn not in stars and mn not in ('fluids.design_climate',):
            c.violation('not-exported', f'fluids|{mn}', top.rel, f'the calculation module {mn} is not imported into the top-level namespace')
    for n, d in owners.items():
        c.count('top_level_names')
        if len(set(d.values())) > 1 and n not in TOPLEVEL_SHADOW:
            c.violation('name-clash', n, top.rel, f'{n} is exported as different objects by {sorted(d)}')
        if f'fluids.{n}' in prog.modules:
            c.violation('name-clash', n, top.rel, f'exported name {n} of {sorted(d)} replaces the module fluids.{n}')
    # 4. names used as strings by the compiled variant
    nb = prog.modules.get('fluids.numba')
    num = prog.module('fluids.numerics')
    ok_num = set(num.bind)
    if nb is not None:
        for n in ast.walk(nb.tree):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                continue
            k = n.targets[0].id
            if k in ('solvers', 'same_classes'):
                for s, node in literal_strings(n.value):
                    c.count('string_named_functions')
                    r = prog.resolve(num, s)
                    if r is None or r[0] not in ('func', 'class', 'var', 'ext'):
                        c.violation('variant-missing', f'numba|{s}', nb.loc(node), f'the compiled variant refers to numerics.{s}, which does not exist')
            elif k == 'to_change' and isinstance(n.value, ast.List):
                for s, node in literal_strings(n.value):
                    c.count('string_named_functions')
                    mod, f = s.rsplit('.', 1)
                    m = prog.modules.get('fluids.' + mod)
                    if m is None or f not in m.bind:
                        c.violation('variant-missing', f'numba|{s}', nb.loc(node), f'the compiled variant rewrites {s}, which does not exist')
        # jitclass attribute lists
        specs = {}
        for n in ast.walk(nb.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.endswith('_spec'):
                comp = n.value
                if isinstance(comp, COMP) and isinstance(comp.generators[0].iter, (ast.Tuple, ast.List)):
                    specs[n.targets[0].id[:-5]] = ({s for s, _ in literal_strings(comp.generators[0].iter)}, n)
        used = {n.args[0].id for n in ast.walk(nb.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'jitclass' and n.args and isinstance(n.args[0], ast.Name)}
        for cn, (attrs, node) in specs.items():
            ci = next((m.classes[cn] for m in prog.modules.values() if cn in m.classes and not m.name.startswith(VARIANTS)), None)
            if ci is None or cn + '_spec' not in used:
                continue
            for me in ci.methods.values():
                me_name = me.pos[0] if me.pos else None
                for x in walk_scope(me.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me_name:
                        c.count('compiled_class_attributes')
                        if x.attr not in attrs:
                            c.violation('variant-missing', f'{cn}.{x.attr}', ci.module.loc(x), f'attribute {x.attr} set by {cn} is missing from the attribute list of the compiled class')
    # 5. numba comment directives leave valid code with resolvable names
    for m in prog.modules.values():
        if m.name.startswith(VARIANTS):
            continue
        for f in m.functions.values():
            if f.is_lambda or f.parent is not None or f.cls is not None:
                continue
            seg = segment(m, f.node)
            if 'numba' not in seg.lower() or not (DEL.search(seg) or UNC.search(seg)):
                continue
            c.count('rewritten_functions')
            out = numba_source(seg)
            import textwrap
            try:
                t = ast.parse(textwrap.dedent(out))
            except SyntaxError as e:
                if prog_parse_ok(f):
                    c.violation('variant-broken', f.fq, f.loc, f'the numba comment directives leave invalid source: {e.msg} at line {f.node.lineno + (e.lineno or 1) - 1}')
                continue
            fn = next((x for x in t.body if isinstance(x, ast.FunctionDef)), None)
            if fn is None:
                continue
            for nm in undefined_names(prog, m, fn, f.name):
                c.violation('variant-broken', f'{f.fq}|{nm}', f.loc, f'after the numba comment directives {f.name} uses {nm}, which is not defined')
            a = [x.arg for x in fn.args.args]
            if a != [p for p in f.pos] and not m.name.startswith('fluids.numerics'):
                c.violation('variant-broken', f'{f.fq}|signature', f.loc, f'the compiled variant of {f.name} has parameters {a} instead of {f.pos}')
    c.floor('exported_names', 1500)
    c.floor('documented_definitions', 400)
    c.floor('star_imported_modules', 20)
    c.floor('rewritten_functions', 10)
    c.self_test(numba_source('    x = 1 # numba: delete\n#    x = 2 # numba: uncomment\n').strip() == 'x = 2', 'model of the source rewriting')
    c.rules = ['export-missing', 'not-exported', 'redefined', 'name-clash', 'variant-missing (names and attributes listed as strings for the compiled variant)',
               'variant-broken (source left by the numba comment directives must parse, keep its parameters and resolve its names)']
    c.explanation = 'Names are resolved through assignments, imports and star imports of the parsed modules.'
    c.assumptions = ['variants build their namespaces from the plain package as fluids/vectorized.py, fluids/units.py and fluids/numba.py do on the base tree']


def prog_parse_ok(f):
    return True
