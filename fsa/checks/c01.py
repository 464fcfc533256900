"""C01: every attribute a method reads is assigned on every path of construction."""
from __future__ import annotations
import ast
import json
import os
import tempfile

from ..program import Program, walk_scope
from ..report import Check
from ..typestate import ALL, analyse, class_level, opaque_bases

TABLE = os.path.join(os.path.dirname(__file__), '..', '..', 'data', 'c01.json')
# classes which are not constructed themselves: their subclasses supply what their methods read
ABSTRACT = {'ParticleSizeDistributionContinuous': 'its five subclasses, which are analysed with its methods', 'UnitAwareClass': 'the classes made by fluids.units.wraps_class, with type()'}
SKIP = ('fluids.optional',)


def classes(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for ci in m.classes.values():
            yield ci


def may_store(prog, cls):
    out = set()
    for c in cls.mro(prog):
        for f in c.methods.values():
            for k in ast.walk(f.node):
                if isinstance(k, ast.Attribute) and not isinstance(k.ctx, ast.Load):
                    out.add(k.attr)
                elif isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == 'setattr':
                    out.add(ALL)
                elif isinstance(k, ast.Attribute) and k.attr == '__dict__':
                    out.add(ALL)
    return out


def instances(prog, c, info):
    """Attributes read from objects which the function itself constructs."""
    for f in prog.all_functions():
        if f.module.name.startswith(SKIP) or f.is_lambda:
            continue
        stores, made = {}, {}
        for n in walk_scope(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                r = prog.resolve_expr_in(f, n.value.func)
                if r and r[0] == 'class' and r[1] in info:
                    made[n.targets[0].id] = r[1]
        outside = {n.value.id for n in walk_scope(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        for n in walk_scope(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            ci = None
            if isinstance(n.value, ast.Name) and n.value.id in made and stores.get(n.value.id) == 1 and n.value.id not in f.all_params and n.value.id not in outside:
                ci = made[n.value.id]
            elif isinstance(n.value, ast.Call):
                r = prog.resolve_expr_in(f, n.value.func)
                if r and r[0] == 'class' and r[1] in info:
                    ci = r[1]
            if ci is None or n.attr.startswith('__') or opaque_bases(prog, ci) or ci.find_method(prog, '__getattr__'):
                continue
            have = info[ci]
            if ALL in have or ALL in may_store(prog, ci):
                continue
            c.count('reads_of_constructed_objects')
            if n.attr not in have:
                c.violation('no-attribute', f'{f.fq}|{ci.name}.{n.attr}', f'{f.module.rel}:{n.lineno}', f'{f.name} reads {n.attr} of a {ci.name}, which has no such attribute')


def scan(prog, c, always):
    info, must = {}, {}
    for ci in classes(prog):
        c.count('classes')
        if opaque_bases(prog, ci):
            c.count('classes_with_unknown_bases')
            continue
        missing, states, n, reads = analyse(prog, ci)
        c.count('entries_walked', n)
        c.count('attribute_reads', reads)
        c.count('constructor_states', len(states))
        have = None
        for s in states:
            have = s.have if have is None else s.have if ALL in have else have if ALL in s.have else have & s.have
        have = have or frozenset()
        provided = class_level(prog, ci)
        info[ci] = provided | may_store(prog, ci)
        if ALL not in have:
            must[ci.name] = sorted(a for a in (have | {p for p in provided if p not in ci.methods}) if not a.startswith('_'))
        if ci.name not in ABSTRACT:
            seen = set()
            for (a, entry), (loc, chain) in missing.items():
                if a in seen:
                    continue
                seen.add(a)
                c.violation('unassigned', f'{ci.fq}|{a}', loc, f'{ci.name}: {entry} reads {a} ({chain}), which some path of construction leaves unassigned')
        want = always.get(ci.fq)
        if want and ALL not in have and states:
            names = have | set(provided)
            for a in want:
                c.count('attributes_always_present')
                if a not in names:
                    if a in may_store(prog, ci):
                        c.violation('not-always', f'{ci.fq}|{a}', ci.loc, f'{ci.name}: attribute {a}, which every object had, is unassigned on some path of construction')
    instances(prog, c, info)
    return {ci.fq: must[ci.name] for ci in info if ci.name in must and must[ci.name]}


def check(c, prog):
    with open(TABLE) as fh:
        always = json.load(fh)
    must = scan(prog, c, always)
    if os.environ.get('FSA_WRITE_TABLES'):
        with open(TABLE, 'w') as fh:
            json.dump(must, fh, indent=0, sort_keys=True)
    for k, least in FLOORS.items():
        c.floor(k, least)
    self_tests(c)
    c.rules = ['unassigned: no method, called on a new object or after one other method, reads an attribute which a path of construction (or of the earlier call) leaves unassigned and no class supplies',
               'not-always: attributes which every object has on the base tree are assigned on every path of construction', 'no-attribute: functions read only attributes their objects have']
    c.explanation = 'Definite assignment of instance attributes over the paths of __init__ and of every public method, one and two calls deep, with methods called on self walked in place; two tests of one unchanged operand agree.'
    c.assumptions = ['loops may run no time, except over non-empty literals', 'stores through names which are not literal, or through an alias of the object, count as storing everything',
                     'an attribute removed altogether is left to A01 (documented attributes) and O01']


FLOORS = {'classes': 25, 'entries_walked': 250, 'attribute_reads': 8000, 'constructor_states': 80, 'attributes_always_present': 200}

PLANT = '''
class A:
    flag = False
    y: float
    def __init__(self, x, y=None):
        self.x = x
        if y is not None:
            self.y = y
        self._rest(x)
    def _rest(self, x):
        if x > 1:
            self.z = 1
        else:
            self.w = 2
    def ok(self, y=None):
        if not self.flag:
            self.prepare()
        return self.got + self.x
    def prepare(self):
        self.flag = True
        self.got = 3
    def bad(self):
        return self.y
    def bad2(self):
        return self.z
    def half(self):
        self.flag = True
def use():
    a = A(1)
    return a.x, a.nope
'''


def self_tests(c):
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'fluids'))
        with open(os.path.join(d, 'fluids', '__init__.py'), 'w') as fh:
            fh.write(PLANT)
        k = Check('C01')
        scan(Program(d), k, {'fluids.A': ['x', 'w']})
        got = {f['construct'].split('|')[1] + ':' + f['rule'] for f in k.findings}
        want = {'y:unassigned', 'z:unassigned', 'got:unassigned', 'w:not-always', 'A.nope:no-attribute'}
        c.self_test(got == want, f'planted class: {sorted(got)}')
