"""T05: formulas change over at their known limits."""
from __future__ import annotations
import itertools
import json
import os
import tempfile

from .. import formulas as fm
from .. import randint
from ..pool import pmap
from .t04 import SRC, load, pack, shape, unpack

CASES = [   # (body, other body, rule expected)
    ('if x < 3: return a\n    return a*x', 'if x < 3.2: return a\n    return a*x', 'limit-moved'),
    ('if x < 3: return a\n    return a*x', 'if x <= 3: return a\n    return a*x', 'boundary'),
    ('if x < 3: return a\n    return a*x', 'if not x < 3: return a*x\n    return a', None),
    ('if x < 3: return a\n    return a*x', 'if 3 > x: return a\n    y = a*x\n    return y', None),
    ('if x*a < 3: return a\n    elif x*a < 5: return a*x\n    return x', 'y = a*x\n    if y >= 5: return x\n    return a*x if y >= 3 else a', None),
    ('if x*a < 3: return a\n    elif x*a < 5: return a*x\n    return x', 'y = a*x\n    if y >= 6: return x\n    return a*x if y >= 3 else a', 'limit-moved'),
    ('if x < a: return a\n    return a*x', 'if x < 2*a: return a\n    return a*x', 'limit-moved'),
    ('if x < a: return a\n    return a*x', 'if a <= x: return a*x\n    return a', None),
    ('if k is None:\n        if x < 3: raise ValueError("x")\n    elif x < 3: return a*x\n    return a', 'if k is None:\n        if x < 4: raise ValueError("x")\n    elif x < 3: return a*x\n    return a', 'limit-moved'),
    ('if a == 5:\n        if x < 3: return a\n    elif x < 3: return a*x\n    return x', 'if a == 5:\n        if x < 4: return a\n    elif x < 3: return a*x\n    return x', 'limit-moved'),
    ('if k:\n        if x < 3: return a\n    elif x < 3: return a*x\n    return x', 'if k:\n        if x < 3: return a\n    elif x <= 3: return a*x\n    return x', 'boundary'),
    ('if x < 3: return a\n    elif x < 5: return a*x\n    return a*x**2', 'if x < 3: return a\n    return a*x**2', 'regime-lost'),
    ('if x < 3: return a\n    elif x < 5: return a*x\n    return a', 'if x < 3: return a*x\n    elif x < 5: return a\n    return a', 'other-regime'),
    ('if x < 3: return "p"\n    if a < 2: return "q"\n    return "r"', 'if a < 2: return "q" if x >= 3 else "p"\n    return "r" if not x < 3 else "p"', None),
    ('if x < 3: return "p"\n    if a < 2: return "q"\n    return "r"', 'if a < 2: return "q"\n    return "r" if not x < 3 else "p"', 'other-regime'),
    ('if x < 3: return a\n    elif x < 5: return a*x\n    return a', 'if 3 <= x < 5: return a*x\n    return a', None),
]


INF = float('inf')


def known_cuts(t):
    out = []
    for x, y, side, ctx in t['cuts']:
        out.append((t['v'][x], t['v'][y[0]] if isinstance(y, list) else y, side, [tuple(map(tuple, c)) for c in ctx]))
    return out


def clash(x, y):
    """Two facts on one argument which exclude each other; x 'is', or both 'in'."""
    if x[0] == 'is' and y[0] == 'is':
        return x[1] != y[1]
    if x[0] == 'truth' and y[0] in ('truth', 'is'):
        return x[1] != bool(y[1])
    if x[0] == 'is' and y[0] == 'not':
        return x[1] == y[1]
    if x[0] == 'is' and y[0] == 'in':
        return x[1] is None or not isinstance(x[1], str) and not y[1] <= x[1] <= y[2]
    if x[0] == 'in' and y[0] == 'not':
        return x[1] == x[2] == y[1]
    if x[0] == 'in' and y[0] == 'in':
        lo, hi = max(x[1], y[1]), min(x[2], y[2])
        return lo > hi or lo == hi and x[1] < x[2] and y[1] < y[2]
    return False


def agree(a, b):
    """Could two contexts be those of one call?"""
    return not any(p == q and (clash(x, y) or clash(y, x)) for p, *x in a for q, *y in b)


def meet(cs, ds):
    return any(agree(a, b) for a in cs for b in ds)


def equal(x, y):
    if isinstance(x, list) != isinstance(y, list):
        return False
    if isinstance(x, list):
        return fm.same(x, y)
    return abs(x - y) <= 1e-9 * max(abs(x), abs(y))


def both(cuts):
    """Comparisons of two formulas, from either side."""
    for x, y, side, *more in cuts:
        yield (x, y, side, *more)
        if isinstance(y, list):
            yield (y, x, '>' if side == '>=' else '>=', *more)


def compare(cuts, base):
    """[(rule, cut, known cut)]"""
    out = []
    cuts, base = list(both(cuts)), list(both(base))
    for x, y, side, ctx, line in cuts:
        if any(equal(x, b[0]) and equal(y, b[1]) and b[2] == side and all(meet([c], b[3]) for c in ctx) for b in base):
            continue
        for bx, by, bside, bctx in base:
            left, right = equal(x, bx), equal(y, by)
            if left and right and side != bside:
                rule = 'boundary'
            elif left and not right and isinstance(y, list) == isinstance(by, list):
                rule = 'limit-moved'
            else:
                continue
            # contexts in which the known limit is gone and another has come
            here = [c for c in ctx if not any(equal(x, b[0]) and equal(y, b[1]) and b[2] == side and meet([c], b[3]) for b in base)]
            gone = [c for c in bctx if not any(equal(n[0], bx) and equal(n[1], by) and n[2] == bside and meet([c], n[3]) for n in cuts)]
            if meet(here, gone):
                out.append((rule, (y, side, line), (by, bside)))
                break
    return out


def constant(v):
    d = [x for x in v if x is not None]
    return all(x == d[0] for x in d)


def lost(rows, base):
    """Known formulae no path computes any more."""
    out = []
    for b in base:
        if b.why or b.nums or b.ext or not b.box:
            continue
        here = [r for r in rows if r.idx == b.idx]
        if not here or any(r.why or r.ext for r in here):
            continue
        if not any(not o.why and o is not b and o.idx == b.idx for o in base):
            continue
        for v in b.vecs:
            if constant(v) or any(fm.same(v, w) for r in here for w in r.vecs):
                continue
            if sum(x is not None for x in v) < 6:
                continue
            out.append(b)
            break
    return out


MAX_CELLS = 600


def axes_of(rows):
    out = []
    for r in rows:
        for b in r.box:
            if not any(fm.same(b[0], a) for a in out):
                out.append(b[0])
    return out


def pieces(points, lo, hi):
    """Open intervals between breakpoints inside (lo, hi), each by an inner point."""
    ps = [lo] + sorted({p for p in points if lo < p < hi}) + [hi]
    for a, b in zip(ps, ps[1:]):
        yield (a + b) / 2 if a > -INF and b < INF else b - 1 - abs(b) if a == -INF and b < INF else a + 1 + abs(a) if a > -INF else 0.0


def covers(r, cell, axes, params):
    for p, c in r.nums.items():
        return False
    for v, lo, loo, hi, hio in r.box:
        for a, x in zip(axes, cell):
            if fm.same(v, a):
                if not lo <= x <= hi:
                    return False
                break
    return True


def regions(rows, base, params):
    """Rows which compute something else than what is known for a cell of their range."""
    out, n = [], 0
    ps = [randint.draw(p) for p in params]
    for r in rows:
        if r.why or r.ext or r.nums or not r.free or not r.box:
            continue
        known = [b for b in base if b.idx == r.idx and fm.compatible(r, b)]
        axes = axes_of([r] + known)
        derived = [a for a in axes if not any(fm.same(a, p) for p in ps)]
        if len(derived) > 1 or len(axes) > 4:
            continue
        cuts = [[x for b in [r] + known for x in (b.box and [y for v, lo, _, hi, _ in b.box if fm.same(v, a) for y in (lo, hi)]) if abs(x) != INF] for a in axes]
        lims = []
        for a in axes:
            lo, hi = -INF, INF
            for v, l, _, h, _ in r.box:
                if fm.same(v, a):
                    lo, hi = max(lo, l), min(hi, h)
            lims.append((lo, hi))
        if any(lo >= hi for lo, hi in lims):
            continue
        grid = [list(pieces(c, lo, hi)) for c, (lo, hi) in zip(cuts, lims)]
        size = 1
        for g in grid:
            size *= len(g)
        if size > MAX_CELLS:
            continue
        for cell in itertools.product(*grid):
            n += 1
            here = [b for b in known if covers(b, cell, axes, ps)]
            if here and not any(b.why or b.ext for b in here) and not any(fm.same(v, w) or not fm.comparable(v, w) for b in here for v in r.vecs for w in b.vecs):
                out.append((r, cell))
                break
    return n, out


def verdicts(run, t):
    out = [(rule, line, f'known limit {show(by)} (boundary {bs}) is now {show(y)} (boundary {s})') for rule, (y, s, line), (by, bs) in compare(run.cuts, known_cuts(t))]
    if run.outs:
        base = unpack(t)
        run.cells, bad = regions(run.rows, base, run.fi.params)
        for r, cell in bad:
            out.append(('other-regime', r.line, f'result {r.idx} is computed by another formula than the one known for this range of the arguments ({", ".join(f"{x:.6g}" for x in cell)})'))
        for b in lost(run.rows, base):
            out.append(('regime-lost', run.fi.node.lineno, f'a formula known for result {b.idx} is computed on no path'))
    return out


def show(y):
    return 'a formula' if isinstance(y, list) else repr(y)


def self_test(c):
    from ..program import Program

    def run(body):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write(SRC + body + '\n')
            p = Program(d)
            return fm.Run(p, p.func('fluids.m.f'))
    for a, b, want in CASES:
        x, y = run(a), run(b)
        got = {r for r, _, _ in verdicts(y, json.loads(json.dumps(pack(x))))}
        c.self_test(want in got if want else not got, f'{a!r} to {b!r}: {want}, got {got}')


def check(c, prog):
    budget = 8000 if c.tier == 'quick' else 20000
    tab = load()
    fs = [f for f in fm.functions(prog) if f.fq in tab]

    def work(f):
        r = fm.Run(prog, f, budget)
        t = tab[f.fq]
        if r.over or r.fi.params != t['params'] or r.coarse != t['coarse']:
            return None
        v = verdicts(r, t)
        if (r.joins or t['joins']) and shape(r.rows, r.joins) != shape(unpack(t), t['joins']):
            v = [x for x in v if x[0] not in ('regime-lost', 'other-regime')]
        return len(r.cuts), r.cells, v
    for f, r in zip(fs, pmap(work, fs)):
        if r is None:
            c.count('functions_not_decided')
            c.notes.append(f'not decided (over budget or other arguments): {f.fq}')
            continue
        n, m, v = r
        c.count('functions_analysed')
        c.count('limits', n)
        c.count('cells_of_regimes', m)
        if n:
            c.count('functions_with_limits')
        for rule, line, msg in sorted(set(v)):
            c.violation(rule, f'{f.fq}|{msg}', f'{f.module.rel}:{line}', msg)
    c.floor('functions_with_limits', 95)
    c.floor('limits', 500)
    self_test(c)
    c.rules = ['limit-moved: a comparison which parts two paths (as quantity and limit, however written) is gone in some setting of the options, and the same quantity is compared to another limit there',
               'boundary: the boundary of a range belongs to the other side than known',
               'other-regime: in a cell of the arguments (between known limits of independent quantities) another formula is computed than the known one',
               'regime-lost: a formula known for a range of the arguments is computed on no path']
    c.explanation = ('Every undecided order comparison met on any path of a public function, in it or in a helper it calls, is a limit: a quantity, a bound and the side the boundary belongs to, with the setting of options and '
                     'omitted arguments it is met in. Quantities are compared as formulas by random interpretation, so the way a test is written does not matter. The limits are compared with the known ones in data/t04.json.gz.')
    c.assumptions = ['the known limits are those of the unchanged tree', 'a limit which is dropped without another in its place is reported only if a formula is lost with it']
