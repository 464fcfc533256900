"""T03: the equations and coefficients of the documentation are the ones computed with."""
from __future__ import annotations
import ast
import gzip
import itertools
import json
import os
import re
from collections import Counter

from .. import docrand, formulas as fm
from ..interp import is_num
from ..pool import pmap
from ..report import VERIF
from . import t04, t05

TABLE = os.path.join(VERIF, 'data', 't03.json.gz')
NUMBER = re.compile(r'(?<![\w.])(\d+\.?\d*|\.\d+)(?:[eE]([-+]?\d+)|\\times\s*10\^\{?([-+]?\d+)\}?|\\cdot\s*10\^\{?([-+]?\d+)\}?)?')
SMALL = (0, 1, -1)


# ---- literals
def literals_in(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and is_num(n.value) and not isinstance(n.value, (bool, complex)):
            out.append(float(n.value))
    return out


def closure(prog, fi):
    """Literals of a function, of its private helpers and of the scalars of its module."""
    seen, todo, out = set(), [fi], []
    names = set()
    while todo:
        f = todo.pop()
        if f.fq in seen:
            continue
        seen.add(f.fq)
        out += literals_in(f.node)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                g = f.module.functions.get(n.id)
                if g is not None and (g.name.startswith('_') or not (prog.exports(f.module) and g.name in prog.exports(f.module))):
                    todo.append(g)
                elif g is None and (f.module.name, n.id) not in names:
                    names.add((f.module.name, n.id))
                    v = scalar(f.module, n.id)
                    if v is not None:
                        out += v
            elif isinstance(n, ast.Attribute) and f.cls is not None and isinstance(n.value, ast.Name) and n.value.id == 'self':
                for g in f.module.functions.values():
                    if g.cls is f.cls and g.name == n.attr and g.name.startswith('_') and not g.name.startswith('__'):
                        todo.append(g)
    return Counter(out)


def scalar(m, name):
    key = '_t03'
    if not hasattr(m, key):
        d = {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                vs = literals_in(s.value)
                if 0 < len(vs) <= 200:
                    for t in s.targets:
                        d[t.id] = vs
        setattr(m, key, d)
    return getattr(m, key).get(name)


def documented(fi):
    """Numbers of the documentation, outside of examples and references."""
    doc = ast.get_docstring(fi.node) or ''
    keep, on = [], True
    lines = doc.split('\n')
    for i, s in enumerate(lines):
        if i + 1 < len(lines) and re.match(r'^-{3,}\s*$', lines[i + 1]):
            on = s.strip() not in ('Examples', 'References', 'Example', 'See Also')
        if on:
            keep.append(s)
    text = '\n'.join(keep).replace('{,}', '')
    out = set()
    for m in NUMBER.finditer(text):
        e = next((x for x in m.groups()[1:] if x), None)
        try:
            out.add(float(m.group(1) + ('e' + e if e else '')))
            out.add(float(m.group(1)))
        except ValueError:
            pass
    return out


def near(a, b):
    return abs(a - b) <= 2e-9 * max(abs(a), abs(b))


def derivable(x, gone):
    """Is a new literal a combination of literals which are gone (and of one and two)?"""
    vs = sorted(set(gone))[:40]
    for a in vs:
        if any(near(abs(x), abs(v)) for v in (a, 1 / a if a else 0, a * a, a * 2, a / 2, 1 - a, abs(a)**0.5) + ((a + 1, a - 1) if abs(a) < 3 else ())):
            return True
    for a, b in itertools.combinations(vs, 2):
        if any(near(abs(x), abs(v)) for v in (a + b, a - b, a * b, a / b if b else 0, b / a if a else 0)):
            return True
    return False


def replaced(now, base, docs):
    """(documented literals which are fewer, literals which are more and not derived from those gone)."""
    gone = [v for v, n in base.items() if now.get(v, 0) < n]
    dropped = [v for v in gone if v in docs and v not in SMALL]
    new = [v for v, n in now.items() if n > base.get(v, 0) and v not in SMALL and not derivable(v, [g for g in gone if g != v])]
    return dropped, new


# ---- equations
def equation_list(run):
    doc = docrand.Doc(run.fi)
    return doc, docrand.search(run, doc) if doc.eqs else {}


def symbol_set(sides):
    return {s for e in sides for s in docrand.symbols(e)}


def recheck(run, entries, undecided):
    """[(text, kind)] of known equations which no value of any path satisfies."""
    doc = docrand.Doc(run.fi)
    index = {t: i for i, (t, s) in reversed(list(enumerate(doc.eqs)))}
    tabs = docrand.tables(run)
    known = {e[0] for e in entries}
    bad, n = [], 0
    for text, nums, ln, a, b, env, syms in entries:
        if text in index:
            todo, kind = [index[text]], 'equation'
        else:
            todo = [i for i, (t, s) in enumerate(doc.eqs) if t not in known and len(s) > max(a, b) and sorted(symbol_set(s)) == syms]
            kind = 'documentation'
            if not todo:
                continue
        n += 1
        ok = False
        for i in todo:
            for nn, tab in tabs:
                for q in ([nums] if nn == nums else []) + ([nn] if nn != nums else []):
                    f = docrand.Find(doc, q, tab, ln)
                    try:
                        ok = ok or f.test(i, a, b, env)
                    except docrand.No:
                        ok = True
                    if not ok:      # another reading of the document
                        f.names = {}
                        f.steps = 0
            if not ok:
                names = docrand.local_names(run)
                for nn, tab in tabs:
                    for l2 in (False, True):
                        ok = ok or bool(docrand.Find(doc, nn, tab, l2, names).holds(i))
        if not ok:
            bad.append((text, kind))
    return n, bad


def build(prog, budget):
    fs = list(fm.functions(prog))

    def one(f):
        d = documented(f)
        lit = closure(prog, f)
        docd = sorted(v for v in lit if v in d and v not in SMALL)
        eqs, und = [], 0
        if docrand.Doc(f).eqs:
            r = fm.Run(prog, f, budget)
            if not r.over:
                und = sum(q.why is not None for q in r.rows)
                doc, found = equation_list(r)
                by = {t: s for t, s in reversed(doc.eqs)}
                eqs = [[t, nums, ln, a, b, {k: [fm.sig(x) for x in v] for k, v in env.items()}, sorted(symbol_set(by[t]))] for t, (nums, ln, a, b, env) in sorted(found.items())]
        return [eqs, und, docd, sorted(lit.items())] if eqs or docd else None
    return {f.fq: r for f, r in zip(fs, pmap(one, fs)) if r}


def check(c, prog):
    budget = 8000
    if os.environ.get('FSA_WRITE_TABLES'):
        with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
            fh.write(json.dumps(build(prog, budget), sort_keys=True, separators=(',', ':')).encode())
    with gzip.open(TABLE, 'rt') as fh:
        tab = json.load(fh)
    known = t04.load()
    fs = [f for f in fm.functions(prog) if f.fq in tab]

    def work(f):
        eqs, und, docd, lit = tab[f.fq]
        out, n = [], 0
        base = Counter(dict((float(a), b) for a, b in lit))
        dropped, new = replaced(closure(prog, f), base, set(docd))
        run = None
        if eqs or dropped:
            run = fm.Run(prog, f, budget)
        same = None     # does the function compute what is known? None: not decided

        def verdict():
            t = known.get(f.fq)
            if t is None or run.over or run.fi.params != t['params'] or run.coarse != t['coarse']:
                return None
            b = t04.unpack(t)
            m, bad = t04.compare(run.rows, b)
            v = t05.verdicts(run, t)
            if (run.joins or t['joins']) and t04.shape(run.rows, run.joins) != t04.shape(b, t['joins']):
                bad, v = [], [x for x in v if x[0] not in ('regime-lost', 'other-regime')]
            if bad or v:
                return False
            return True if not any(r.why for r in run.rows) else None
        if eqs and not run.over:
            n, bad = recheck(run, eqs, und)
            if bad:
                same = verdict()
                more = sum(q.why is not None for q in run.rows) > und
                for text, kind in bad:
                    if kind == 'documentation' or same is False or same is None and not more and dropped:
                        out.append((kind, text))
        if dropped and not any(k == 'equation' for k, _ in out):
            same = verdict()
            if same is False or same is None and new:
                out.append(('coefficient', ', '.join(f'{v:g}' for v in dropped[:3]) + ' -> ' + (', '.join(f'{v:g}' for v in new[:3]) or 'other numbers')))
        return n, len(docd), out
    for f, (n, d, out) in zip(fs, pmap(work, fs)):
        c.count('functions_analysed')
        c.count('documented_equations', n)
        c.count('documented_coefficients', d)
        for kind, what in out:
            loc = f'{f.module.rel}:{f.node.lineno}'
            if kind == 'coefficient':
                c.violation('coefficient', f'{f.fq}', loc, f'a documented number is no longer used and another is: {what}')
            elif kind == 'equation':
                c.violation('equation', f'{f.fq}|{what[:80]}', loc, f'no value computed on any path is that of the documented equation {what[:160]}')
            else:
                c.violation('documentation', f'{f.fq}|{what[:80]}', loc, f'the documentation of this equation was changed to one which nothing computed satisfies; it was {what[:160]}')
    c.floor('documented_equations', 400)
    c.floor('documented_coefficients', 1000)
    c.self_test(documented_number('.. math::\n    a = 1.5\\times 10^{-3} + 24/Re') >= {1.5e-3, 24.0}, 'numbers of a document')
    c.self_test(replaced(Counter([0.25, 24.0]), Counter([0.2, 24.0]), {0.2, 24.0}) == ([0.2], [0.25]), 'a replaced number')
    c.self_test(replaced(Counter([0.2, 24.0]), Counter([0.2, 0.2, 24.0]), {0.2, 24.0})[1] == [], 'a shared number')
    c.self_test(replaced(Counter([4.8]), Counter([0.2, 24.0]), {0.2, 24.0})[1] == [], 'a folded number')
    c.rules = ['equation: a documented equation, satisfied by the values of a path on the unchanged tree, is satisfied by no value any path computes, and the results differ from the known ones (or the number is gone)',
               'documentation: the same for an equation whose documentation was changed',
               'coefficient: a number given in the documentation is used less often in the function (with its helpers and scalars), and the results differ from the known formulae (or cannot be compared, and a number appears which is not derived from the others)']
    c.explanation = ('The equations of the docstrings are parsed from LaTeX and evaluated over the random interpretation of the parameters; they are compared with the vectors of all values on the way to the '
                     'results (value numbering by path-sensitive abstract interpretation). Numbers of the documentation are matched with the literals of functions, helpers and scalars.')
    c.assumptions = ['which equations and numbers are claimed, and the meaning of the symbols no parameter is named after, is recorded from the unchanged tree in data/t03.json.gz']


def documented_number(doc):
    class N:
        pass
    f = N()
    f.node = ast.parse('def f():\n    """x\n    ' + doc.replace('\\', '\\\\').replace('\n', '\n    ') + '\n    """').body[0]
    return documented(f)
