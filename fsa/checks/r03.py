"""R03: inputs known to be rejected are rejected, and those known to be accepted accepted."""
from __future__ import annotations
import gzip
import json
import os
import tempfile

from .. import formulas as fm
from .. import regions as rg
from ..pool import pmap
from ..report import VERIF
from .t04 import SRC

TABLE = os.path.join(VERIF, 'data', 'r03.json.gz')
MAX = 60
CASES = [   # (body, other body, rule)
    ('if x > 3: raise ValueError("x")\n    return a*x', 'return a*x', 'accepts-rejected'),
    ('if x > 3: raise ValueError("x")\n    return a*x', 'if x > 3.5: raise ValueError("x")\n    return a*x', 'accepts-rejected'),
    ('if x > 3: raise ValueError("x")\n    return a*x', 'if x <= 3:\n        return x*a\n    raise TypeError("x")', None),
    ('if x > 3 or a < 1: raise ValueError("x")\n    return a*x', 'if x > 3 and a < 1: raise ValueError("x")\n    return a*x', 'accepts-rejected'),
    ('if x > 3 or a < 1: raise ValueError("x")\n    return a*x', 'if not (x <= 3 and a >= 1): raise ValueError("x")\n    return a*x', None),
    ('if x > a: raise ValueError("x")\n    return a*x', 'if a > x: raise ValueError("x")\n    return a*x', 'accepts-rejected'),
    ('if x > a: raise ValueError("x")\n    return a*x', 'if a < x: raise ValueError("x")\n    return a*x', None),
    ('if x > a: raise ValueError("x")\n    return a*x', 'if x >= a: raise ValueError("x")\n    return a*x', None),
    ('if x >= a: raise ValueError("x")\n    return a*x', 'if x > a: raise ValueError("x")\n    return a*x', 'accepts-rejected'),
    ('if k is None and x > 3: raise ValueError("x")\n    return a*x', 'if k is not None and x > 3: raise ValueError("x")\n    return a*x', 'accepts-rejected'),
    ('if x/a > 3: raise ValueError("x")\n    return a*x', 'y = x/a\n    if y <= 3: return a*x\n    raise ValueError("x")', None),
    ('if x/a > 3: raise ValueError("x")\n    return a*x', 'if x > 3*a: raise ValueError("x")\n    return a*x', None),
    ('if k is None: return a\n    if x > 2: raise ValueError("x")\n    return a*x', 'if x > 2: raise ValueError("x")\n    if k is None: return a\n    return a*x', None),
    ('if k is None: return a\n    if x > 2: return a*x\n    raise ValueError("x")', 'if k is None: raise ValueError("x")\n    if x > 2: return a*x\n    raise ValueError("x")', 'rejects-accepted'),
]


def small(c, ref):
    return {'p': [list(x) for x in c['p']], 'b': [[ref(x[0]), *x[1:]] for x in c['b']], 't': [[ref(v), t] for v, t in c['t']],
            'r': [[ref(x), ref(y), r] for x, y, r in c['r']], 'u': c['u']}


def large(c, vs):
    return {'p': c['p'], 'b': [(vs[x[0]], *x[1:]) for x in c['b']], 't': [(vs[v], t) for v, t in c['t']], 'r': [(vs[x], vs[y], r) for x, y, r in c['r']], 'u': c['u']}


def distinct(cs):
    out, seen = [], set()
    for c in cs:
        k = repr(sorted((k, repr(sorted(map(repr, v)))) if isinstance(v, list) else (k, v) for k, v in c.items() if k not in ('line', 'exc')))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def pack(ps):
    """Regions which are decided: no path of the other kind is open to them."""
    if ps.run.over or ps.run.coarse:
        return None
    rej, acc = distinct(ps.rejected), distinct(ps.accepted)
    if not rej or len(rej) > 4 * MAX or len(acc) > 8 * MAX:
        return None
    vs, idx = [], {}

    def ref(v):
        k = tuple(v)
        if k not in idx:
            idx[k] = len(vs)
            vs.append(list(v))
        return idx[k]
    r = [c for c in rej if not c['u'] and (c['p'] or c['b'] or c['t'] or c['r']) and all(rg.exclude(c, a) for a in acc)][:MAX]
    a = [c for c in acc if not c['u'] and all(rg.exclude(c, b) for b in rej)][:MAX]
    for c in rej + acc:
        for v in rg.vectors(c):
            ref(v)
    return {'rej': [small(c, ref) for c in r], 'acc': [small(c, ref) for c in a], 'v': vs, 'opaque': len(ps.run.it.opaque_tests),
            'merges': ps.run.it.merges, 'params': ps.fi.params}


def compare(ps, t):
    """[(rule, region, path)]"""
    it, vs = ps.run.it, t['v']
    if len(it.opaque_tests) > t['opaque'] or it.merges != t['merges']:
        return None
    out = []
    rej, acc = distinct(ps.rejected), distinct(ps.accepted)
    for c in t['rej']:
        c = large(c, vs)
        for a in acc:
            if rg.known(a, vs) and not rg.exclude(a, c):
                out.append(('accepts-rejected', c, a))
                break
    for c in t['acc']:
        c = large(c, vs)
        if any(not rg.exclude(a, c) for a in acc):
            continue
        bad = [b for b in rej if not rg.exclude(b, c)]
        if bad and all(rg.known(b, vs) for b in bad):
            out.append(('rejects-accepted', c, bad[0]))
    return out


def text(c, params):
    from .. import randint
    names = [(p, fm.vec(randint.draw(p))) for p in params]
    nm = lambda v: next((p for p, w in names if fm.same(v, w)), 'a derived quantity')
    out = [f'{p} {"=" if k == "is" else "is not" if k == "not" else "is"} {x!r}' for p, k, x in c['p'] if not (k == 'not' and x is None)]
    for v, lo, loo, hi, hio in c['b']:
        out.append(f'{nm(v)} in {"(" if loo or lo == -fm.INF else "["}{lo:g}, {hi:g}{")" if hio or hi == fm.INF else "]"}')
    out += [f'{nm(x)} {"/".join(r)} {nm(y)}' for x, y, r in c['r']] + [f'a condition is {t}' for _, t in c['t']]
    return ', '.join(out)[:300] or 'any arguments'


_tab = None


def load():
    global _tab
    if _tab is None:
        with gzip.open(TABLE, 'rt') as fh:
            _tab = json.load(fh)
    return _tab


def self_test(c):
    from ..program import Program

    def paths(body):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write(SRC + body + '\n')
            p = Program(d)
            return rg.Paths(p, p.func('fluids.m.f'), 5000)
    for a, b, want in CASES:
        got = {r for r, _, _ in compare(paths(b), json.loads(json.dumps(pack(paths(a)))))}
        c.self_test(want in got if want else not got, f'{a!r} to {b!r}: {want}, got {got}')


def check(c, prog):
    budget = 8000 if c.tier == 'quick' else 20000
    fs = list(fm.functions(prog))
    if os.environ.get('FSA_WRITE_TABLES'):
        tab = {f.fq: t for f, t in zip(fs, pmap(lambda f: pack(rg.Paths(prog, f, budget)), fs)) if t and t['rej']}
        with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
            fh.write(json.dumps(tab, sort_keys=True, separators=(',', ':')).encode())
    tab = load()
    fs = [f for f in fs if f.fq in tab]

    def work(f):
        t = tab[f.fq]
        ps = rg.Paths(prog, f, budget)
        if ps.run.over or ps.run.coarse or f.params != t['params']:
            return None
        bad = compare(ps, t)
        if bad is None:
            return None
        return len(t['rej']), len(t['acc']), len(ps.accepted), [(r, text(x, f.params), y['line']) for r, x, y in bad]
    for f, r in zip(fs, pmap(work, fs)):
        if r is None:
            c.count('functions_not_decided')
            c.notes.append(f'not decided (over budget, other arguments, other joins or more tests without a fact): {f.fq}')
            continue
        a, b, n, bad = r
        c.count('functions_analysed')
        c.count('rejected_regions', a)
        c.count('accepted_regions', b)
        c.count('paths_which_return', n)
        for rule, where, line in bad:
            what = 'arguments known to be rejected reach a result' if rule == 'accepts-rejected' else 'arguments known to be accepted all reach an error'
            c.violation(rule, f'{f.fq}|{where}', f'{f.module.rel}:{line}', f'{what}: {where}')
    c.floor('functions_analysed', 75)
    c.floor('rejected_regions', 500)
    self_test(c)
    c.rules = ['accepts-rejected: a path which returns is open (no condition of it excludes any condition of the region) to arguments of a region known to be rejected',
               'rejects-accepted: every path open to a region known to be accepted ends in a deliberate error']
    c.explanation = ('For every public function the conditions of each path ending in an explicit raise, and of each path which returns, are collected by path-sensitive abstract interpretation: settings of options and omitted '
                     'arguments, intervals and order relations of arguments and of quantities computed from them (compared as formulas by random interpretation). The regions known to be rejected (data/r03.json.gz) must be '
                     'excluded by every path which returns. A path with a condition that is not understood is open to nothing.')
    c.assumptions = ['the rejected regions are those of the unchanged tree, where each was shown to be excluded by every returning path']
