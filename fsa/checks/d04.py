"""D04: every quantity enters a result with its known power."""
from __future__ import annotations
import gzip
import json
import os

from .. import degrees as g
from ..pool import pmap
from ..report import VERIF

TABLE = os.path.join(VERIF, 'data', 'd04.json.gz')
CASES = [   # (body, degrees of x in the result)
    ('return a*x**2', [2.0]), ('return a*x + x', [1.0]), ('return a + x', [g.MIX]), ('return a*exp(x)', [g.MIX]), ('return log(x)', [g.UNK]),
    ('if a > 3:\n        return x*a\n    return sqrt(x)', [0.5, 1.0]), ('return h_(a, x)', [3.0]), ('return a if a > x else x', [0.0, 1.0]),
    ('for i in range(3):\n        a = a*1.5\n    return a*x', [1.0]),
]


def self_test(c):
    import tempfile
    from ..program import Program
    for body, want in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write('from math import exp, log, sqrt\n__all__ = ["f"]\ndef h_(p, q):\n    return p*q**3\ndef f(a, x):\n    ' + body + '\n')
            p = Program(d)
            rows, _ = g.run(p, p.func('fluids.m.f'), 1000, {})
            got = sorted({r['0'].get('x', 0.0) for r, _, _ in rows}, key=str)
            c.self_test(got == want, f'{body!r} has degrees {want}, got {got}')


def load():
    with gzip.open(TABLE, 'rt') as fh:
        return json.load(fh)


def write(prog):
    laws, sets = g.build(prog)
    with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
        fh.write(json.dumps({'laws': laws, 'sets': sets}, sort_keys=True, separators=(',', ':')).encode())


def show(v):
    return 'no power law' if v == g.MIX else f'power {v:g}'


def compare(f, rows, sets):
    """(decided pairs, [(result, param, node, got, allowed)])"""
    n, bad = 0, []
    for row, node, none in rows:
        pat = g.given_pattern(f, none)
        for i, degs in row.items():
            for p in f.params:
                if p in none:
                    continue
                al = g.allowed(sets.get(i, {}), pat, p)
                if al is None:
                    continue
                v = degs.get(p, 0.0)
                if v == g.UNK:
                    continue
                n += 1
                if not any(v == a if isinstance(v, str) or isinstance(a, str) else abs(v - a) < 1e-4 for a in al):
                    bad.append((i, p, node, v, al))
    return n, bad


def check(c, prog):
    budget = 20000 if c.tier == 'quick' else 200000
    if os.environ.get('FSA_WRITE_TABLES'):
        write(prog)
    tab = load()
    fs = list(g.functions(prog))

    def work(f):
        rows, it = g.run(prog, f, budget, tab['laws'])
        if rows is None:
            return None
        n, bad = compare(f, rows, tab['sets'].get(f.fq, {}))
        return len(rows), n, [(i, p, getattr(node, 'lineno', f.node.lineno), v, al) for i, p, node, v, al in bad]
    for f, r in zip(fs, pmap(work, fs)):
        if r is None:
            c.count('functions_over_budget')
            c.notes.append(f'over budget, not decided: {f.fq}')
            continue
        paths, n, bad = r
        c.count('functions_analysed')
        c.count('path_classes', paths)
        c.count('decided_argument_powers', n)
        if n:
            c.count('functions_with_a_decided_power')
        for i, p, line, v, al in bad:
            c.violation('other-power', f'{f.fq}|{i}|{p}', f'{f.module.rel}:{line}',
                        f'result {i} has {show(v)} in {p} here; known: {" or ".join(show(a) for a in al)}')
    c.floor('functions_analysed', 300)
    c.floor('functions_with_a_decided_power', 180)
    self_test(c)
    c.rules = ['other-power: on some path a result is proportional to another power of an argument than any power known for it '
               '(or is no power law where one is known, or the reverse)']
    c.explanation = ('Path-sensitive abstract interpretation of every public function over the domain of degrees: the exponent of each argument in each value, '
                     '"no power law", or unknown. Private helpers are inlined; other public functions act by their own known powers. The powers known for each '
                     '(function, result, omitted arguments, argument) are in data/d04.json.gz, only where every path of the unchanged tree decides them. '
                     'An unknown degree never conflicts.')
    c.assumptions = ['the known powers are those of the unchanged tree', 'sums of terms of different degree do not cancel to a power law']
