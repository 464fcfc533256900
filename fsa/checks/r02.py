"""R02: for every subset of omitted optional arguments a function answers or refuses, and never computes with None."""
from __future__ import annotations
import json
import os

from ..nonepat import given_kind, none_params, options, patterns, run
from ..pool import pmap
from ..scope import is_api
from ..values import Const

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'r02.json')
SKIP = ('fluids.numerics', 'fluids.numba', 'fluids.vectorized', 'fluids.units', 'fluids.nrlmsise00', 'fluids.optional')
HEAVY = {'fluids.jet_pump.liquid_jet_pump': 'solves for an unknown pair chosen at run time (256 patterns, each over the path budget)'}
BUDGET = 6000


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        exp = prog.exports(m) or ()
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda or not none_params(f) or f.fq in HEAVY:
                continue
            if is_api(prog, f) or (f.cls is not None and f.cls.name in exp and (not f.name.startswith('_') or f.name == '__init__')):
                yield f


def settings(prog, f):
    """Option settings under which the patterns are classified: none fixed, then one option at a time."""
    out = [()]
    for p, vals in sorted(options(f, prog).items()):
        if len(none_params(f)) <= 6 and len(vals) <= 12:
            out += [((p, v),) for v in sorted(vals)]
    return out


def classify(prog, f, sets, ps, budget):
    """{setting: {given set: (letter, crashes)}}; R answers, E refuses, ? undecided."""
    out, memo = {}, {}
    for s in sets:
        fixed = {p: Const(v) for p, v in s}
        qs = [p for p in ps if p not in fixed]
        d = {}
        for g in patterns(qs):
            r = run(prog, f, g, budget, fixed, memo, qs)
            if r is None:
                d[g] = ('?', [])
            else:
                d[g] = ('?' if r[3] and r[0] else 'R' if r[0] else 'E', [] if r[3] else r[2])
        out[s] = d
    # a given value of zero is not a missing one
    d = out.get(())
    z = {}
    if d is not None and len(ps) <= 6:
        for g, (x, _) in d.items():
            for q in sorted(g):
                if x == 'R' and d.get(g - {q}, ('',))[0] == 'E' and given_kind(f, q) != 'str':
                    r = run(prog, f, g, budget, {q: Const(0.0)}, memo, ps)
                    z[g, q] = '?' if r is None or (r[3] and r[0]) else 'R' if r[0] else 'E'
    out['zero'] = z
    return out


def encode(prog, fs, res):
    tab = {}
    for f, (sets, ps, cl) in zip(fs, res):
        z = cl.pop('zero')
        tab[f.fq] = {'params': ps, 'zero_ok': sorted([sorted(g), q] for (g, q), x in z.items() if x == 'R'), 'maps': [[list(map(list, s)), ''.join(d[g][0] for g in patterns([p for p in ps if p not in dict(s)]))] for s, d in cl.items()]}
    return tab


def work(prog, tab, f, budget):
    ps = sorted(none_params(f))
    e = tab.get(f.fq)
    sets = [tuple(map(tuple, s)) for s, _ in e['maps']] if e else settings(prog, f)
    if e and not set(e['params']) <= set(f.params):
        e = None
        sets = [()]
    if e:
        ps = [p for p in e['params'] if p in ps] if set(e['params']) - set(ps) else e['params']
    return sets, ps, classify(prog, f, sets, ps, budget)


def check(c, prog):
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
    fs = list(functions(prog))
    res = pmap(lambda f: work(prog, tab, f, BUDGET if c.tier == 'quick' else 10 * BUDGET), fs)
    if os.environ.get('FSA_WRITE_TABLES'):
        with open(TABLE, 'w') as fh:
            json.dump(encode(prog, fs, [(a, b, dict(d)) for a, b, d in res]), fh, indent=0, sort_keys=True)
            fh.write('\n')
    for f, (sets, ps, cl) in zip(fs, res):
        c.count('functions')
        e = tab.get(f.fq)
        base = {}
        if e:
            for s, m in e['maps']:
                s = tuple(map(tuple, s))
                for g, x in zip(patterns([p for p in e['params'] if p not in dict(s)]), m):
                    base[s, g] = x
        loc = f.module.loc(f.node)
        ok = {(frozenset(g), q) for g, q in (e or {}).get('zero_ok', ())}
        for (g, q), x in cl.pop('zero').items():
            c.count('zero_values')
            if x == 'E' and (g, q) in ok:
                c.violation('zero-refused', f'{f.fq}|{sorted(g)}|{q}', loc, f'{f.name}({", ".join(sorted(g))}) treats {q}=0 as not given')
        for s, d in cl.items():
            for g, (x, crashes) in d.items():
                c.count('argument_patterns')
                c.count({'R': 'answered', 'E': 'refused', '?': 'undecided'}[x])
                what = f'{f.name}({", ".join([f"{p}={v!r}" for p, v in s] + sorted(g))})'
                for line, why in crashes:
                    c.violation('none-arith', f'{f.fq}|{why[:60]}', f'{f.module.rel}:{line}', f'{what}: {why}')
                b = base.get((s, g))
                if b == 'E' and x == 'R':
                    c.violation('insufficient-answered', f'{f.fq}|{sorted(g)}|{s}', loc, f'{what} leaves needed inputs out, yet a path returns a result')
                elif b == 'R' and x == 'E':
                    c.violation('sufficient-refused', f'{f.fq}|{sorted(g)}|{s}', loc, f'{what} is sufficient, but every path raises')
    c.floor('functions', 90)
    c.floor('argument_patterns', 2000)
    c.floor('refused', 600)
    c.rules = ['none-arith: a feasible path computes or orders with a missing (None) argument',
               'insufficient-answered: a subset of inputs known to be insufficient reaches a return',
               'sufficient-refused: a subset of inputs known to be sufficient always raises']
    c.rules.append('zero-refused: a sufficient subset is refused when one of its values is zero, although that subset needs nothing else')
    c.explanation = ('Every exported function and constructor with optional (None) arguments is interpreted abstractly for every subset of them given (up to nine; beyond that all '
                     'subsets of at most three given or at most two missing), and again with each string option it compares fixed; delegated calculations which are handed None are looked into.')
    c.assumptions = ['the sufficient/insufficient classification in data/r02.json was derived from the base tree and confirmed by reading'] + [f'{k}: not decided, {v}' for k, v in HEAVY.items()]
