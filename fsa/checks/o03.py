"""O03: a named method runs its correlation on the caller's arguments."""
from __future__ import annotations

from .. import flows
from .i02 import judge, named, survey


def check(c, prog):
    t = flows.load()
    allset = {}
    for k, rows in t['functions'].items():
        ls = [set(t['summaries'][i]['l']) for s, i in rows if named(s) and t['summaries'][i]['n']]
        allset[k] = (set().union(*ls), set.intersection(*ls)) if ls else (set(), set())
    done, fns = set(), set()
    for f, s, base, r in survey(c, prog, named):
        fns.add(f)
        now = {lab[1]: line for x in r['rets'] for lab in x[1] for line in [x[3]]}
        union, inter = allset[f.fq]
        names = {k: v[1:] for k, v in s.items() if isinstance(v, str) and v[0] == '='}
        opt = ', '.join(f'{k}={v!r}' for k, v in sorted(names.items()))
        rest = {k: v for k, v in s.items() if k not in names}
        wrong = sorted((set(now) - set(base['l'])) & (union - inter))
        if base['l']:
            c.count('dispatches')
        if wrong:
            key = (f.fq, opt, tuple(wrong))
            if key not in done:
                done.add(key)
                c.violation('wrong-correlation', f'{f.fq}|{opt}|{",".join(wrong)}', f'{f.module.rel}:{now[wrong[0]]}',
                            f'{f.name}({opt}) computes its result with {", ".join(w.split(".")[-1] for w in wrong)}, which belongs to another name; '
                            f'{opt} stands for {", ".join(w.split(".")[-1] for w in base["l"]) or "a formula of its own"}')
            continue
        if base['n'] and r['rets'] == [] and not any(k in done for k in [(f.fq, opt, 'none')]):
            done.add((f.fq, opt, 'none'))
            c.violation('name-refused', f'{f.fq}|{opt}', f'{f.module.rel}:{f.node.lineno}', f'{f.name}({opt}{", " + flows.key(rest) if rest else ""}) never returns, though the name is one of its methods')
        for rule, fq, p, b, line, msg in judge(c, f, r, base, f' (with {opt})'):
            if (rule, f.fq, fq, p) not in done:
                done.add((rule, f.fq, fq, p))
                c.violation(rule, f'{f.fq}|{opt}|{fq}|{p}|{b}', f'{f.module.rel}:{line}', f'{f.name}: {msg}')
    for f in fns:
        c.sample(f.fq)
    c.count('functions', len(fns))
    c.floor('functions', 35)
    c.floor('dispatches', 500)
    c.rules = ['wrong-correlation: with the option bound to a name the result comes from a correlation which only other names use',
               'name-refused: with the option bound to a name which has a correlation, no path returns',
               'argument-changed / name-crossed: the correlation receives another argument, a constant or a value lacking an argument in place of the one it is meant for']
    c.explanation = ('Each function with a selectable method is interpreted abstractly once for every name it accepts (found by watching what the option is compared with or looked up in), crossed with the '
                     'patterns of omitted optional arguments; every return value carries the exported correlations it comes from, and every call the identity of the arguments it received.')
    c.assumptions = ['data/flows.json.gz: which correlation and which arguments belong to each name on the base tree, derived mechanically; names equal to function names, and the registries, were confirmed by rule (see DESIGN.md)']
