"""D01: calculations are dimensionally homogeneous in their documented units."""
from __future__ import annotations
import gzip
import json
import os

from .. import dims
from ..pool import pmap
from ..report import VERIF

TABLE = os.path.join(VERIF, 'data', 'd01.json.gz')
CASES = [   # (source of a function body, rules expected)
    ('return a*L + b', {'unlike-terms'}), ('return a*L', set()), ('return b**0.5*a', {'wrong-result'}),
    ('if b > a:\n        return a*L\n    return a*L', {'unlike-compared'}), ('return a*L*exp(b)', {'dimensional-function'}),
    ('x = 0.0\n    for i in range(3):\n        x += a\n    return x*L', set()), ('return a*L*2.0**b', {'dimensional-exponent'}),
    ('return a*L if b < 1e5 else a', {'wrong-result'}),
]


def self_test(c):
    import ast
    from ..program import Program
    import tempfile
    for body, want in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write('from math import exp\n__all__ = ["f"]\ndef f(a, b, L):\n    r"""Doc.\n\n    Parameters\n    ----------\n    a : float\n        A, [m/s]\n'
                         '    b : float\n        B, [Pa]\n    L : float\n        L, [m]\n\n    Returns\n    -------\n    r : float\n        R, [m^2/s]\n    """\n    ' + body + '\n')
            p = Program(d)
            it, res = dims.run(p, p.func('fluids.m.f'), 1000)
            c.self_test({e[2] for e in it.eqs} == want, f'{body!r} gives {want or "no report"}')


def load():
    with gzip.open(TABLE, 'rt') as fh:
        return json.load(fh)


def write(prog, budget):
    fs = list(dims.functions(prog))
    tab = {}
    for f, r in zip(fs, pmap(lambda f: dims.infer(prog, f, budget), fs)):
        if r is None:
            continue
        lits, wild, _ = r
        tab[f.fq] = {'lits': [[v, d] for v, d in sorted(lits.items())], 'wild': [list(k) for k in wild]}
    with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
        fh.write(json.dumps(tab, separators=(',', ':')).encode())


def check(c, prog):
    budget = 20000 if c.tier == 'quick' else 200000
    if os.environ.get('FSA_WRITE_TABLES'):
        write(prog, budget)
    tab = load()
    fs = list(dims.functions(prog))

    def work(f):
        t = tab.get(f.fq, {'lits': (), 'wild': ()})
        it, res = dims.run(prog, f, budget, lits={v: d for v, d in t['lits']}, wild=t['wild'])
        if res is None:
            return None
        out = {}
        for d, loc, rule, text in it.eqs:
            out.setdefault((rule, text.split(':')[0]), (loc, text))
        return it.ops, it.seen_calls, it.result_checks, len(res), [(r, k, loc, t) for (r, k), (loc, t) in out.items()]
    for f, r in zip(fs, pmap(work, fs)):
        if r is None:
            c.count('functions_over_budget')
            c.notes.append(f'over budget, not decided: {f.fq}')
            continue
        ops, calls, results, paths, reps = r
        c.count('functions_analysed' if f.cls is None else 'methods_analysed')
        c.count('path_classes', paths)
        c.count('comparisons_of_two_known_dimensions', ops)
        c.count('documented_calls_checked', calls)
        c.count('results_of_known_dimension', results)
        if results:
            c.count('functions_with_a_decided_result')
        c.count('literals_with_a_recorded_dimension', len(tab.get(f.fq, {'lits': ()})['lits']))
        for rule, key, loc, text in reps:
            c.violation(rule, f'{f.fq}|{key}', loc, text)
    c.floor('functions_analysed', 400)
    c.floor('functions_with_a_decided_result', 250)
    self_test(c)
    c.rules = ['unlike-terms: quantities of different dimension added, subtracted, or ranged over', 'unlike-compared: ... compared',
               'dimensional-function: exponential, logarithm or trigonometric function of a dimensional quantity',
               'dimensional-exponent: exponent with a dimension', 'wrong-argument: argument of a documented calculation differs from its documented unit',
               'wrong-result: result differs from the documented unit', 'wrong-attribute: attribute of a class differs from its documented unit']
    c.explanation = ('Abstract interpretation of every documented function and of the methods of documented classes over the domain of physical dimensions '
                     '(rational powers of the SI base units and of the degree). Documented units give the dimensions of arguments, of results and of the '
                     'calls to other documented calculations; every numeric literal has the dimension which makes the unchanged tree consistent '
                     '(data/d01.json.gz, by function and value), so exponents of empirical formulae are decided as well. An unknown dimension never conflicts.')
    c.assumptions = ['documented units are right except for the doubts recorded in the table (functions written in inconsistent units by nature)',
                     'elements of literal tables and results of interpolation have no known dimension', 'angles in radians are dimensionless']
