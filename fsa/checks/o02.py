"""O02: an option outside the accepted set is refused on every path."""
from __future__ import annotations
import json
import os

from ..nonepat import none_params, options, patterns
from ..optscan import FRESH, candidates, run
from ..pool import pmap
from ..scope import is_api
from ..values import Const, NONE

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'o02.json')
SKIP = ('fluids.numba', 'fluids.vectorized', 'fluids.units', 'fluids.nrlmsise00', 'fluids.optional')
BUDGET = 6000


def functions(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        exp = prog.exports(m) or ()
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda or not candidates(f, prog):
                continue
            if is_api(prog, f) or (f.cls is not None and f.cls.name in exp and (not f.name.startswith('_') or f.name == '__init__')):
                yield f


def settings(prog, f, p):
    """Settings of the other arguments, as {name: encoded value}."""
    out = [{}]
    ns = [q for q in none_params(f) if q != p]
    if ns and len(ns) <= 4:
        out += [{q: 'given' if q in g else None for q in ns} for g in patterns(ns)]
    elif ns:
        out += [{q: 'given' for q in ns}, {q: None for q in ns}]
    for q, vals in sorted(options(f, prog).items()):
        if q != p and len(vals) <= 15:
            out += [{q: '=' + v} for v in sorted(vals)]
    os_ = [(q, v) for q, vals in sorted(options(f, prog).items()) if q != p and len(vals) <= 15 for v in sorted(vals)]
    if len(os_) <= 25:
        out += [{q: '=' + v, q2: '=' + v2} for q, v in os_ for q2, v2 in os_ if q < q2]
    for q in f.params:
        k = kinds(f, q)
        if k == 'bool':
            out += [{q: True}, {q: False}]
        elif k == 'num' and q != p:
            out += [{q: 1e-9}, {q: 1e9}]
    return out


def kinds(f, q):
    import ast
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if a.arg == q:
            t = ast.unparse(a.annotation) if a.annotation is not None else ''
            d = f.defaults.get(q)
            if t == 'bool' or (isinstance(d, ast.Constant) and isinstance(d.value, bool)):
                return 'bool'
            if t in ('float', 'int') or (isinstance(d, ast.Constant) and isinstance(d.value, (int, float))):
                return 'num'
    return None


def decode(s):
    return {q: NONE if v is None else 'given' if v == 'given' else Const(v[1:] if isinstance(v, str) else v) for q, v in s.items()}


def work(prog, tab, f, budget):
    e = tab.get(f.fq)
    out = {}
    memo = {}
    for p, fresh in (candidates(f, prog) if e is None else {p: v for p, v in ((p, x['fresh']) for p, x in e.items()) if p in f.params}).items():
        sets = settings(prog, f, p) if e is None else e[p]['refused']
        out[p] = (fresh, [(s, *outcome(prog, f, p, fresh, budget, s, memo)) for s in sets if set(s) <= set(f.params)])
    return out


def outcome(prog, f, p, fresh, budget, s, memo):
    x, outs = run(prog, f, p, fresh, budget, decode(s), memo)
    if x == 'R':
        o = outs[0]
        return x, getattr(o.node, 'lineno', 0), ' -> '.join(f'{a}:{"T" if b else "F"}' for a, b in o.st.trace[-6:]) or 'straight line'
    return x, 0, ''


def check(c, prog):
    write = bool(os.environ.get('FSA_WRITE_TABLES'))
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) and not write else {}
    fs = [f for f in functions(prog) if write or f.fq in tab]
    res = pmap(lambda f: work(prog, tab, f, BUDGET if c.tier == 'quick' else 10 * BUDGET), fs)
    if write:
        t = {}
        for f, r in zip(fs, res):
            d = {}
            for p, (fresh, sets) in r.items():
                ref = [s for s, x, _, _ in sets if x == 'E']
                ref = [s for s in ref if not any(t != s and t.items() <= s.items() for t in ref)]
                if ref:
                    d[p] = {'fresh': fresh, 'refused': ref}
            if d:
                t[f.fq] = d
        with open(TABLE, 'w') as fh:
            json.dump(t, fh, indent=0, sort_keys=True)
            fh.write('\n')
    for f, r in zip(fs, res):
        for p, (fresh, sets) in r.items():
            c.count('option_arguments')
            c.sample(f'{f.fq}({p})')
            for s, x, line, path in sets:
                c.count('settings')
                c.count({'R': 'accepted', 'E': 'refused', '?': 'undecided'}[x])
                if x == 'R' and not write:
                    c.violation('unknown-option-accepted', f'{f.fq}|{p}', f'{f.module.rel}:{line}',
                                f'{f.name} with {p} outside its set of names{" and " + str(s) if s else ""} returns; branch path (line:taken) {path}')
    c.floor('option_arguments', 45)
    c.floor('refused', 60)
    c.rules = ['unknown-option-accepted: with the option bound to a constant that occurs nowhere in the program, a path reaches a normal return']
    c.explanation = ('Each option argument of each exported function, constructor and method is bound to a fresh constant and the function interpreted abstractly: unconditionally '
                     'where it refuses unconditionally, otherwise under each setting of other options, flags, omitted arguments and extreme numbers under which it is known to refuse. '
                     'Calls which hand the option on are followed.')
    c.assumptions = ['which options refuse under which settings (data/o02.json) was derived from the base tree and confirmed by reading; the remaining ones are deliberate catch-alls or free text']
