"""A01: documentation, signatures and unit handling agree."""
from __future__ import annotations
import ast
import json
import os
import re

from ..docs import UnitError, parse, unit_dims
from ..report import VERIF
from ..scope import SKIP, is_api

TABLE = os.path.join(VERIF, 'data', 'a01.json')
NUMERIC = re.compile(r'^(?:\(?\s*)?(float|int|real|number|complex|array_like|ndarray|numpy array)', re.I)
DEFAULT = [re.compile(r"[Dd]efault(?:s)?(?: value)?(?: is| to| of| are|:| =|=)? *(?:to |the )?(?:``|`)?('[^']*'|\"[^\"]*\"|None|True|False|[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?)(?![\w/*^%])"),
           re.compile(r"\(('[^']*'|None|True|False|[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?) by default\)")]


def literal(e):
    try:
        return ast.literal_eval(e)
    except (ValueError, SyntaxError, TypeError):
        return Ellipsis


def documented_default(entry):
    text = ' '.join((entry.type + ' ' + entry.desc).split())
    got = []
    for r in DEFAULT:
        for m in r.finditer(text):
            tail = text[m.end():m.end() + 12]
            if re.match(r'\s*[°\u00b0]', tail):
                continue
            v = literal(m.group(1))
            if re.match(r'\s*(?:\*|/|x10|e-|deg)', tail):
                continue
            got.append(v)
    return got


def targets(prog):
    """(function whose docstring documents, its parameters) of every public function, method and class."""
    for m in prog.modules.values():
        if m.name.startswith(SKIP) and not m.name.startswith('fluids.numerics'):
            continue
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda:
                continue
            doc = ast.get_docstring(f.node)
            if f.cls is not None:
                if f.name == '__init__':
                    cd = ast.get_docstring(f.cls.node)
                    doc = doc if doc and parse(doc).get('Parameters') else cd
                elif f.name.startswith('_'):
                    continue
            elif f.name.startswith('_'):
                continue
            if not doc:
                continue
            d = parse(doc)
            if d.get('Parameters'):
                yield f, d


def params_of(f):
    ps = list(f.params)
    if f.cls is not None and ps and 'staticmethod' not in f.decorator_names():
        ps = ps[1:] if f.pos and f.pos[0] == ps[0] else ps
    return ps


def returns_of(f):
    """Set of tuple lengths (None: anything else) of the return statements."""
    out = set()
    todo = list(f.node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Return):
            out.add(len(n.value.elts) if isinstance(n.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.value.elts)
                    else 'scalar' if isinstance(n.value, (ast.BinOp, ast.Compare)) and not isinstance(getattr(n.value, 'op', None), (ast.Add, ast.Mult)) else None)
        todo += list(ast.iter_child_nodes(n))
    return out


EXTRA = {'day': 's', 'days': 's', 'hr': 's', 'hour': 's', 'hours': 's', 'minute': 's', 'minutes': 's', 'year': 's', 'years': 's', 'in': 'm', 'inch': 'm', 'inches': 'm', 'ft': 'm', 'foot': 'm', 'feet': 'm',
         'gallon': 'm^3', 'gallons': 'm^3', 'revolution': '1', 'revolutions': '1', 'rev': '1', 'dB': '1', 'degC': 'K', 'degF': 'K', 'degR': 'K', 'um': 'm', 'mm': 'm', 'cm': 'm', 'km': 'm', 'kPa': 'Pa',
         'bar': 'Pa', 'hp': 'W', 'kW': 'W', 'tonne': 'kg', 'lb': 'kg', 'nm': 'm', 'micron': 'm', 'microns': 'm', 'L': 'm^3', 'gal': 'm^3', 'kJ': 'J', 'cP': 'Pa*s'}


def unit_of(u):
    """(readable, dimensions with the scale of non-SI units)."""
    t = re.sub(r'^10\^-?\d+\s*', '', u.strip())
    used = []

    def sub(m):
        if m.group(0) in EXTRA:
            used.append(m.group(0))
            x = EXTRA[m.group(0)]
            return '(' + x + ')' if x != '1' else '-'
        return m.group(0)
    t = re.sub(r'[A-Za-z]+', sub, t)
    t = re.sub(r'^-/', '1/', t).replace('*-', '').replace('-*', '')
    try:
        d = unit_dims(t)
    except (UnitError, ValueError, KeyError, IndexError, TypeError):
        return False, None
    return True, None if d is None else ' '.join([f'{k}{v}' for k, v in sorted(d.items())] + sorted(used)) or '-'


def plain(m, e, prog):
    """Value of a default expression: a literal, or a name bound to one."""
    v = literal(e)
    if v is Ellipsis and isinstance(e, ast.Name):
        r = prog.resolve(m, e.id)
        if r and r[0] == 'var':
            for n in r[1].tree.body if hasattr(r[1], 'tree') else ():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in n.targets):
                    v = literal(n.value)
    return v if isinstance(v, (int, float, str, bool, type(None))) else Ellipsis


def inner_defaults(f, name):
    """Literals which the body assigns to a parameter that was left out."""
    out = []
    for n in ast.walk(f.node):
        e = None
        if isinstance(n, ast.If) and is_none_test(n.test, name):
            for s in n.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    e = s.value
        elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and isinstance(n.value, ast.IfExp):
            if is_none_test(n.value.test, name):
                e = n.value.body
            elif is_none_test(n.value.test, name, ast.IsNot):
                e = n.value.orelse
        if e is not None and literal(e) not in (Ellipsis, None):
            out.append(literal(e))
    return out


def is_none_test(t, name, op=ast.Is):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == name and isinstance(t.ops[0], op) and literal(t.comparators[0]) is None


def findings(f, d):
    """[(kind, what, message)]"""
    out = []
    docs = d.get('Parameters', []) + d.get('Other Parameters', [])
    names = [e.name.lstrip('*') for e in docs]
    ps = params_of(f)
    var = [x for x in (f.vararg, f.kwarg) if x]
    for n in names:
        if n not in ps and n not in var:
            out.append(('not-a-parameter', n, f'{n} is documented, but is no parameter'))
    for p in ps:
        if p not in names:
            out.append(('undocumented', p, f'parameter {p} is not documented'))
    units = {e.name.lstrip('*'): unit_of(e.unit)[1] if e.unit is not None else None for e in docs}
    for p, n in zip(ps, names):
        if n != p and p in units and units[p] != units[n]:
            out.append(('order', p, f'positional argument {p} is documented in the place of {n}: its unit is taken to be {units[n]}'))
    if len(set(names)) != len(names):
        out.append(('twice', '', 'a parameter is documented twice'))
    for e in docs:
        n = e.name
        if n not in ps:
            continue
        opt = bool(re.search(r'\boptional\b', e.type, re.I))
        has = n in f.defaults
        if opt and not has:
            out.append(('optional-required', n, f'{n} is documented as optional, but has no default'))
        if has and not opt:
            out.append(('required-optional', n, f'{n} has a default, but is not documented as optional'))
        if has:
            want = documented_default(e)
            v = literal(f.defaults[n])
            if want and v is None and not any(w is None for w in want):
                inner = inner_defaults(f, n)
                if inner and not any(same(a, w) for a in inner for w in want):
                    out.append(('default', n, f'{n} is set to {", ".join(map(repr, inner))} if not given, documented {", ".join(map(repr, want))}'))
            elif want and v is not Ellipsis and not any(same(v, w) for w in want):
                out.append(('default', n, f'{n} defaults to {v!r}, documented {", ".join(map(repr, want))}'))
        if e.unit is not None:
            if not unit_of(e.unit)[0]:
                out.append(('unit', n, f'the unit [{e.unit}] of {n} cannot be read'))
        elif re.match(r'(float|int)\b', e.type.strip()) :
            out.append(('no-unit', n, f'{n} is a number without a unit'))
    rets = d.get('Returns', [])
    arity = returns_of(f)
    if rets:
        for k in arity:
            if isinstance(k, int) and k != len(rets) and len(rets) > 1:
                out.append(('returns', '', f'{len(rets)} results are documented, {k} are returned'))
        if len(rets) > 1 and 'scalar' in arity:
            out.append(('returns', '', f'{len(rets)} results are documented, one is returned'))
        for e in rets:
            if e.unit is not None:
                if not unit_of(e.unit)[0]:
                    out.append(('unit', 'return ' + e.name, f'the unit [{e.unit}] of the result {e.name} cannot be read'))
            elif re.match(r'(float|int)\b', e.type.strip()):
                out.append(('no-unit', 'return ' + e.name, f'the result {e.name} is a number without a unit'))
    return out


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or type(a) is type(b) and a == b
    try:
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    except TypeError:
        return False


def dict_keys(f):
    """Constant keys stored into the dictionaries which a function returns."""
    names, keys = set(), set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return):
            if isinstance(n.value, ast.Dict):
                keys |= {literal(k) for k in n.value.keys if k is not None}
            elif isinstance(n.value, ast.Name):
                names.add(n.value.id)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name) and t.id in names and isinstance(n.value, ast.Dict):
                    keys |= {literal(k) for k in n.value.keys if k is not None}
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names:
                    keys.add(literal(t.slice))
    return {k for k in keys if isinstance(k, str)}


def attributes(prog, ci):
    """(documented attributes, attributes stored by the class, other members), inherited ones included."""
    docs, stored, members = [], {}, set()
    for c in ci.mro(prog):
        d = parse(c.doc) if c.doc else {}
        docs += d.get('Attributes', [])
        for n in ast.walk(c.node):
            if isinstance(n, ast.FunctionDef) and n.args.args:
                me = n.args.args[0].arg
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me:
                        stored.setdefault(x.attr, x)
        members |= set(c.methods) | set(c.class_vars)
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                members.add(n.target.id)
    return docs, stored, members


def class_findings(prog, ci):
    out = []
    docs, stored, members = attributes(prog, ci)
    names = [x for e in docs for x in e.name.replace(' ', '').split(',')]
    for n in names:
        if n not in stored and n not in members:
            out.append(('no-attribute', n, f'{n} is documented as an attribute, but never set'))
    known = set(names)
    for c in ci.mro(prog):
        d = parse(c.doc) if c.doc else {}
        known |= {e.name for e in d.get('Parameters', [])}
    for n, x in stored.items():
        if not n.startswith('_') and n not in known and n not in members:
            out.append(('undocumented-attribute', n, f'attribute {n} has no documented unit: the unit-aware interface cannot return it'))
    for e in docs:
        if e.unit is not None and not unit_of(e.unit)[0]:
            out.append(('unit', 'attribute ' + e.name, f'the unit [{e.unit}] of attribute {e.name} cannot be read'))
        elif e.unit is None and re.match(r'(float|int)\b', e.type.strip()):
            out.append(('no-unit', 'attribute ' + e.name, f'the attribute {e.name} is a number without a unit'))
    return out


def units_of(d, sections=('Parameters', 'Other Parameters', 'Returns', 'Attributes')):
    out = {}
    for s in sections:
        for e in d.get(s, []):
            if e.unit is not None:
                ok, u = unit_of(e.unit)
                if ok:
                    out[('return ' if s == 'Returns' else 'attribute ' if s == 'Attributes' else '') + e.name.lstrip('*')] = u
    return out


def scan(prog):
    """([(kind, construct, location, message)], {construct: unit}, {construct: default}, counts)"""
    out, units, defaults, n = [], {}, {}, dict(documented_signatures=0, documented_parameters=0, documented_units=0, documented_results=0, documented_classes=0, dictionaries=0, documented_attributes=0, textual_defaults=0, literal_defaults=0)
    for f, d in targets(prog):
        n['documented_signatures'] += 1
        n['documented_parameters'] += len(d.get('Parameters', []))
        n['documented_results'] += len(d.get('Returns', []))
        for kind, what, msg in findings(f, d):
            out.append((kind, f'{f.fq}|{what}', f.loc, msg))
        for e in d.get('Parameters', []):
            n['textual_defaults'] += e.name in f.defaults and bool(documented_default(e))
        for k, e in f.defaults.items():
            v = plain(f.module, e, prog)
            if v is not Ellipsis:
                n['literal_defaults'] += 1
                defaults[f'{f.fq}|{k}'] = ([v] + [v2 for v2 in inner_defaults(f, k)], f.loc)
        for k, u in units_of(d).items():
            units[f'{f.fq}|{k}'] = (u, f.loc)
        keys = dict_keys(f)
        if keys and d.get('Returns'):
            n['dictionaries'] += 1
            have = {x for e in d['Returns'] for x in e.name.replace(' ', '').split(',')}
            for k in sorted(keys - have):
                out.append(('result-key', f'{f.fq}|{k}', f.loc, f'the entry {k!r} of the returned dictionary is not documented: the unit-aware interface fails on it'))
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for ci in m.classes.values():
            if not ci.doc or ci.name.startswith('_') or not parse(ci.doc).get('Parameters'):
                continue
            n['documented_classes'] += 1
            n['documented_attributes'] += len(parse(ci.doc).get('Attributes', []))
            for kind, what, msg in class_findings(prog, ci):
                out.append((kind, f'{ci.fq}|{what}', ci.loc, msg))
            for k, u in units_of(parse(ci.doc), ('Attributes',)).items():
                units[f'{ci.fq}|{k}'] = (u, ci.loc)
    n['documented_units'] = len(units)
    return out, units, defaults, n


def variable_outputs(prog):
    """function name -> (table node, number of arguments) of the functions whose result unit depends on the argument left out."""
    m = prog.modules.get('fluids.units')
    out, tables = {}, {}
    if m is None:
        return out
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2 and isinstance(n.value.elts[0], ast.Dict):
                tables[n.targets[0].id] = n.value
            elif isinstance(n.value, ast.Dict):
                for k, v in zip(n.value.keys, n.value.values):
                    if isinstance(v, ast.Tuple) and len(v.elts) == 2 and isinstance(v.elts[0], ast.Dict) and isinstance(literal(k), str):
                        out[literal(k)] = v
        elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(literal(n.iter), list):
            for s in n.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.value, ast.Name) and s.value.id in tables:
                    out.update({k: tables[s.value.id] for k in literal(n.iter)})
    return out


def variable_findings(prog, count=lambda k: None):
    out = []
    units = prog.modules.get('fluids.units')
    for name, node in variable_outputs(prog).items():
        f = next((m.functions[name] for m in prog.modules.values() if name in m.functions and not m.name.startswith(SKIP)), None)
        if f is None:
            out.append(('variable-output', f'{name}|', units.loc(node), f'the unit table names {name}, which does not exist'))
            continue
        d = parse(ast.get_docstring(f.node))
        docs = d.get('Parameters', []) + d.get('Other Parameters', [])
        for k, v in zip(node.elts[0].keys, node.elts[0].values):
            flags = literal(k)
            if not isinstance(flags, tuple) or not isinstance(v, ast.List):
                continue
            count('variable_outputs')
            if len(flags) != literal(node.elts[1]) or len(flags) > len(docs):
                out.append(('variable-output', f'{f.fq}|{flags}', units.loc(k), f'{name} has {len(docs)} documented arguments, the unit table distinguishes {len(flags)}'))
                continue
            missing = [docs[i] for i, x in enumerate(flags) if not x]
            got = []
            for e in v.elts:
                got.append(unit_of(ast.unparse(e).replace('u.', '').replace('**', '^').replace(' ', ''))[1])
            if name in CONVERTERS:
                want = [unit_of(CONVERTERS[name][e.name])[1] for e in missing]
            else:
                want = [unit_of(e.unit)[1] if e.unit else None for e in missing]
            for e, w, g in zip(missing, want, got):
                if w is not None and g is not None and w != g:
                    out.append(('variable-output', f'{f.fq}|{e.name}', units.loc(v), f'{name} without {e.name} returns {e.name} in {w}, the unit-aware interface attaches {g}'))
    return out


CONVERTERS = {'nu_mu_converter': {'mu': 'Pa*s', 'nu': 'm^2/s'}}


def check(c, prog):
    out, units, defaults, n = scan(prog)
    if os.environ.get('FSA_WRITE_TABLES'):
        keep = {}
        for kind, key, loc, msg in out:
            keep.setdefault(kind, []).append(key)
        with open(TABLE, 'w') as fh:
            json.dump({'accepted': {k: sorted(v) for k, v in sorted(keep.items())}, 'units': {k: u for k, (u, _) in sorted(units.items())},
                       'defaults': {k: repr(v[0]) for k, (v, _) in sorted(defaults.items())}}, fh, indent=0, sort_keys=True)
    with open(TABLE) as fh:
        table = json.load(fh)
    for k, v in n.items():
        c.count(k, v)
    out += variable_findings(prog, c.count)
    accepted = 0
    for kind, key, loc, msg in out:
        if key in table['accepted'].get(kind, ()):
            accepted += 1
            continue
        c.violation(kind, key, loc, f'{key.split("|")[0]}: {msg}')
    c.count('accepted_oddities', accepted)
    for key, was in table['units'].items():
        now = units.get(key)
        if now is not None and now[0] != was:
            fq, _, what = key.partition('|')
            c.violation('unit-changed', key, now[1], f'{fq}: {what} is documented in {now[0]}, its confirmed unit is {was}')
    for key, was in table['defaults'].items():
        now = defaults.get(key)
        v = ast.literal_eval(was)
        if now is not None and not any(same(x, v) for x in now[0]):
            fq, _, what = key.partition('|')
            c.violation('default-changed', key, now[1], f'{fq}: {what} defaults to {now[0][0]!r}, its confirmed default is {was}')
    for k, least in FLOORS.items():
        c.floor(k, least)
    self_tests(c)
    c.rules = ['not-a-parameter / undocumented: documented names are those of the signature', 'order: positional arguments are documented in places of equal unit',
               'default-changed: defaults are the confirmed ones', 'default: documented literal defaults are those of the signature, or those the body assigns to an argument left out', 'optional-required / required-optional: optional markers agree with the signature',
               'unit / no-unit: quantities state readable units', 'unit-changed: units are the confirmed ones', 'returns: the number of documented results is the number returned',
               'variable-output: the unit attached to the argument solved for is its documented unit', 'result-key: entries of returned dictionaries are documented', 'no-attribute / undocumented-attribute: documented attributes are those of the class']
    c.explanation = 'Every numpydoc section of the public functions, methods and classes is parsed and compared with the signature, return statements and attribute stores of the same definition; the unit-aware interface converts by these sections.'
    c.assumptions = ['fluids/units.py converts positional arguments by documented order, keyword arguments and attributes by documented name and results by the documented units, as on the base tree',
                     'the oddities accepted are listed in data/a01.json']


FLOORS = {'variable_outputs': 30, 'documented_signatures': 500, 'documented_parameters': 2000, 'documented_units': 2000, 'documented_results': 450, 'documented_classes': 9, 'documented_attributes': 100, 'textual_defaults': 2, 'literal_defaults': 600}


def self_tests(c):
    from ..program import Program
    import tempfile
    src = '''
def fine(a, b=2.0, c=None):
    """Do it.

    Parameters
    ----------
    a : float
        Length, [m]
    b : float, optional
        Ratio, defaults to 2, [-]
    c : float, optional
        Pressure; default is 101325.0, [Pa]

    Returns
    -------
    d : float
        Length, [m]
    """
    if c is None:
        c = 101325.0
    return a*b

def odd(b, a, e=3.0, c=None):
    """Do it.

    Parameters
    ----------
    a : float
        Length, [m]
    b : float, optional
        Ratio, [-]
    e : float
        Ratio, defaults to 2, [-]
    c : float, optional
        Pressure; default is 101325.0, [Pa]
    f : float
        Ratio

    Returns
    -------
    d : float
        Length, [m]
    g : float
        Length, [blubb]
    """
    if c is None:
        c = 100000.0
    return a/b
'''
    with tempfile.TemporaryDirectory() as t:
        os.mkdir(os.path.join(t, 'fluids'))
        with open(os.path.join(t, 'fluids', '__init__.py'), 'w') as fh:
            fh.write('')
        with open(os.path.join(t, 'fluids', 'x.py'), 'w') as fh:
            fh.write(src)
        got = {}
        for kind, key, _, _ in scan(Program(t))[0]:
            got.setdefault(key.split('|')[0].rsplit('.', 1)[-1], set()).add(kind)
    c.self_test('fine' not in got, f'quiet on a consistent definition: {got}')
    c.self_test(got.get('odd') == {'order', 'optional-required', 'required-optional', 'default', 'not-a-parameter', 'unit', 'returns'} | {'no-unit'} - {'no-unit'}, f'finds planted inconsistencies: {got}')
