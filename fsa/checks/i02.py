"""I02: quantities reach the parameter they are meant for."""
from __future__ import annotations

from .. import flows
from ..pool import pmap
from ..program import Program

BUDGET = 6000


def judge(c, f, r, base, where=''):
    """Compare the bindings of one run with the confirmed ones; yields (rule, callee, param, binding, line, message)."""
    for (fq, p), got in sorted(r['calls'].items()):
        callee = fq.split('.')[-1]
        bc = base['c'].get(fq)
        if bc is not None and p in bc:
            c.count('bindings')
            for b, line in sorted(got.items()):
                if b == 'C:None' and fq.endswith('.self'):
                    continue    # an attribute initialised before it is computed
                if flows.explained(b, bc[p]):
                    continue
                if any('self.' in x for x in bc[p] + [b]) and not (b.startswith('P:') and all(x[0] == 'P' for x in bc[p])):
                    continue    # derived attributes may stand for one another
                if b[0] == 'C' and not any(x[0] in 'PX' and flows.bdeps(x) for x in bc[p]):
                    if all(x[0] == 'C' for x in bc[p]) and p in BENIGN:
                        continue
                yield 'argument-changed', fq, p, b, line, f'{callee}({p}=...) receives {say(b)}{where}; it is meant for {" or ".join(map(say, bc[p]))}'
        elif bc is None:
            c.count('new_bindings')
            for b, line in sorted(got.items()):
                q = b[2:]
                if b[0] == 'P' and q != p and p in f.params and '.self' not in fq:
                    yield 'name-crossed', fq, p, b, line, f'{callee}({p}=...) receives {q}{where}, while {f.name} has an argument {p} of its own'


BENIGN = {'xtol', 'ytol', 'maxiter', 'rtol', 'disp', 'damping', 'high', 'low', 'n', 'x0', 'x1', 'a', 'b', 'guess', 'require_eval', 'kind', 'gap_detection'}


def say(b):
    return {'P': f'argument {b[2:]}', 'C': f'constant {b[2:]}', 'X': f'a value made of {b[2:] or "no argument"}', 'F': 'a function'}[b[0]]


def work(prog, f, rows, budget, summaries, keep):
    out = []
    for s, i in rows:
        if not keep(s) or not set(s) <= set(f.params):
            continue
        r = flows.run(prog, f, s, budget)
        out.append((s, i, r))
    return out


def named(s):
    return any(isinstance(v, str) and v[0] == '=' for v in s.values())


def survey(c, prog, keep):
    t = flows.load()
    fs = {f.fq: f for f in flows.functions(prog)}
    todo = [(fs[k], rows) for k, rows in sorted(t['functions'].items()) if k in fs]
    b = BUDGET if c.tier == 'quick' else 10 * BUDGET
    res = pmap(lambda x: work(prog, x[0], x[1], b, t['summaries'], keep), todo)
    for (f, rows), out in zip(todo, res):
        for s, i, r in out:
            c.count('settings')
            if r is None:
                c.count('over_budget')
                continue
            yield f, s, t['summaries'][i], r


def check(c, prog):
    done = set()
    n = set()
    for f, s, base, r in survey(c, prog, lambda s: not named(s)):
        n.add(f)
        for (solver, g, line), msg in sorted(r['arity'].items()):
            if ('arity', f.fq, g) not in done:
                done.add(('arity', f.fq, g))
                c.violation('solver-arguments', f'{f.fq}|{g}', f'{f.module.rel}:{line}', f'{f.name}: {msg}')
        for rule, fq, p, b, line, msg in judge(c, f, r, base, f' (setting {flows.key(s)})' if s else ''):
            if (rule, f.fq, fq, p) not in done:
                done.add((rule, f.fq, fq, p))
                c.violation(rule, f'{f.fq}|{fq}|{p}|{b}', f'{f.module.rel}:{line}', f'{f.name}: {msg}')
    for f in n:
        c.sample(f.fq)
    c.count('functions', len(n))
    c.floor('functions', 500)
    c.floor('bindings', 4500)
    c.rules = ['argument-changed: a call from F to G hands parameter p an argument, a constant, or a value lacking an argument, which no confirmed call of G by F gives p',
               'name-crossed: a call not in the table hands parameter p the caller\'s argument q though the caller has an argument p',
               'solver-arguments: the number of extra arguments handed to a solver does not fit the objective function']
    c.explanation = ('Each exported function, constructor and public method is interpreted abstractly; at every call site reached, to exported calculations, private helpers, attributes of the '
                     'object under construction and, through solvers, objective functions, each parameter is bound to: one of the caller\'s own arguments (by value identity), a constant, or a value '
                     'with a set of arguments it is computed from. Helpers and closures are looked into, so the bindings do not depend on how the code is divided.')
    c.assumptions = ['data/flows.json.gz holds the bindings of the base tree; they were derived mechanically and those where a like-named argument exists but another is passed were read']
