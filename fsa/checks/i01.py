"""I01: every documented input takes part in the result."""
from __future__ import annotations

from .. import flows
from .i02 import survey


def check(c, prog):
    done, fns = set(), set()
    for f, s, base, r in survey(c, prog, lambda s: True):
        live = [x for x in r['rets'] if not x[2]]
        if not live or not base['n']:
            continue
        fns.add(f)
        now = frozenset().union(*[x[0] for x in live])
        ctrl = r['ctrl']
        fixed = {k for k, v in s.items() if v != 'given'}
        mine = [p for p in f.params if p not in fixed and p not in ('self', 'cls')]
        where = f' with {flows.key(s)}' if s else ''
        for p in mine:
            infl = p in base['u'] or p in base['k']
            if not infl:
                continue
            c.count('influences')
            if p in base['u'] and p not in now and not boolean(f, p) or p not in now and p not in ctrl:
                if (f.fq, p) not in done:
                    done.add((f.fq, p))
                    c.violation('input-unused', f'{f.fq}|{p}', f'{f.module.rel}:{live[0][3]}',
                                f'{f.name}: no returned value depends on {p}{where}')
            elif p in base['a']:
                for d, labs, const, line, why in live:
                    if p not in d and (f.fq, p) not in done:
                        done.add((f.fq, p))
                        c.violation('input-dropped', f'{f.fq}|{p}', f'{f.module.rel}:{line}', f'{f.name}: the value returned here does not depend on {p}{where}, as every other one does')
    for f in fns:
        c.sample(f.fq)
    c.count('functions', len(fns))
    c.floor('functions', 480)
    c.floor('influences', 9000)
    c.rules = ['input-unused: under a setting of options and optional arguments no returned value depends on a given argument which is used under that setting',
               'input-dropped: a returned (computed) value does not depend on an argument which all returned values of that setting depend on']
    c.explanation = ('Each exported function, constructor and method is interpreted abstractly under each name of its options, each flag and patterns of omitted arguments; the arguments each returned '
                     'value (or attribute set) is computed from are collected, through helpers, closures handed to solvers, and calls of exported calculations.')
    c.assumptions = ['which arguments are in use under which setting is taken from the base tree (data/flows.json.gz); arguments documented as unused there are exempt']


def boolean(f, p):
    return p in flows.bools(f)
