"""T04: every calculation computes its known formulae."""
from __future__ import annotations
import gzip
import json
import os

from .. import formulas as fm
from ..pool import pmap
from ..report import VERIF

TABLE = os.path.join(VERIF, 'data', 't04.json.gz')
SRC = 'from math import exp, log, sqrt, pi\n__all__ = ["f", "o"]\ndef o(a): return a*a\ndef h_(p, q):\n    return p*q**3\ndef f(a, x, k=None):\n    '
CASES = [   # (body, other body, same formula)
    ('return a*x**2', 'y = x*a\n    return y*x', True), ('return a*x**2', 'return a*x*x*1.0001', False),
    ('return (a + x)**2', 'return a*a + 2*a*x + x*x', True), ('return sqrt(a/x)', 'return a**0.5*x**-0.5', True),
    ('return log(a*x)', 'return log(a) + log(x)', True), ('return log(a*x)', 'return log(a) - log(x)', False),
    ('return h_(a, x)', 'return x*x*x*a', True), ('return o(a)*x', 'b = a\n    return x*o(a=b)', True), ('return o(a)*x', 'return a*o(x)', False),
    ('if k is None: return a\n    return k*x', 'if k is not None:\n        return x*k\n    return a', True),
    ('if k is None: return a\n    return k*x', 'if k is None:\n        return x\n    return k*x', False),
    ('return max(a, x)', 'return a if a > x else x', True), ('return abs(a - x)', 'return abs(x - a)', True),
    ('if x > 3: return a\n    return a*x', 'if x <= 3: return a*x\n    return a', True),
    ('if x > 3: return a\n    return a*x', 'if x < 3: return a\n    return a*x', False),
    ('if x > 3*a: return a\n    return a*x', 'if x < 3*a: return a\n    return a*x', False), ('if x > 3*a: return a\n    return a*x', 'if not 3*a < x: return a*x\n    return a', True),
    ('for i in range(3):\n        a *= 1.5\n    return a', 'return a*3.375', True),
]


def pack(run):
    vs, idx = [], {}

    def ref(v):
        k = tuple(v)
        if k not in idx:
            idx[k] = len(vs)
            vs.append(list(v))
        return idx[k]
    rows = []
    for r in run.rows:
        rows.append([r.idx, [ref(v) for v in r.vecs], r.ext, r.why is not None, r.tags, r.none, r.given, r.nums, [[ref(b[0])] + list(b[1:]) for b in r.box], [[ref(b[0])] + list(b[1:]) for b in r.rels]])
    uniq = []
    for r in rows:
        if r not in uniq:
            uniq.append(r)
    cuts = []
    for x, y, side, ctx, _ in run.cuts:
        cuts.append([ref(x), [ref(y)] if isinstance(y, list) else y, side, [list(map(list, t)) for t in ctx]])
    return {'v': vs, 'rows': uniq, 'cuts': cuts, 'params': run.fi.params, 'joins': run.joins, 'coarse': run.coarse}


def unpack(t):
    rows = []
    for i, vecs, ext, und, tags, none, given, nums, box, rels in t['rows']:
        r = fm.Row()
        r.idx, r.vecs, r.ext, r.why, r.tags, r.none, r.given, r.nums = i, [t['v'][k] for k in vecs], ext, und or None, tags, none, given, nums
        r.box = [(t['v'][b[0]], *b[1:]) for b in box]
        r.rels = [(t['v'][b[0]], *b[1:]) for b in rels]
        rows.append(r)
    return rows


def all_functions(prog):
    return list(fm.functions(prog)) + list(fm.sized(prog))


def write(prog, budget):
    fs = all_functions(prog)

    def one(f):
        r = fm.Run(prog, f, budget)
        return None if r.over else pack(r)
    tab = {f.fq: p for f, p in zip(fs, pmap(one, fs)) if p and (p['rows'] or p['cuts'])}
    with open(TABLE, 'wb') as raw, gzip.GzipFile(fileobj=raw, mode='wb', mtime=0, filename='') as fh:
        fh.write(json.dumps(tab, sort_keys=True, separators=(',', ':')).encode())


_tab = None


def load():
    global _tab
    if _tab is None:
        with gzip.open(TABLE, 'rt') as fh:
            _tab = json.load(fh)
    return _tab


def compare(rows, base):
    """(results compared, [(row, kind)]) of rows against the known rows."""
    n, bad = 0, []
    for r in rows:
        if r.why:
            continue
        known = [b for b in base if b.idx == r.idx and fm.compatible(r, b)]
        if not known:
            continue
        und = any(b.why for b in known)
        kv = [(b, v) for b in known if not b.why for v in b.vecs]
        if not kv:
            continue
        n += 1
        for v in r.vecs:
            hits = [b for b, w in kv if fm.same(v, w)]
            if not hits:
                if not any(fm.comparable(v, w) for b, w in kv):
                    continue
                # special points of the arguments: the general formula may cover them
                if r.nums and not any(b.nums == r.nums for b in known):
                    continue
                lost = any(not any(fm.same(w, x) for q in rows if q.idx == r.idx and not q.why for x in q.vecs) for b, w in kv)
                if lost and any(q.why and q.idx == r.idx and fm.compatible(q, r) for q in rows) and not und:
                    lost = False
                if lost or not und:
                    bad.append((r, 'other-formula'))
                    break
            elif all(fm.disjoint(r.box, b.box) or fm.disjoint(r.rels, b.rels) for b in hits) and not und:
                bad.append((r, 'other-range'))
                break
    return n, bad


def shape(rows, joins):
    return joins, len({(r.idx, tuple(map(tuple, r.vecs)), r.why is None, str(r.tags), str(r.none), str(r.given), str(r.nums)) for r in rows})


def self_test(c):
    import tempfile
    from ..program import Program

    def run(body):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write(SRC + body + '\n')
            p = Program(d)
            return fm.Run(p, p.func('fluids.m.f'))
    for a, b, want in CASES:
        x, y = run(a), run(b)
        got = not compare(y.rows, unpack(json.loads(json.dumps(pack(x)))))[1]
        c.self_test(got == want, f'{a!r} and {b!r} are {"the same" if want else "different"}')


def check(c, prog):
    budget = 8000 if c.tier == 'quick' else 20000
    if os.environ.get('FSA_WRITE_TABLES'):
        write(prog, budget)
    tab = load()
    fs = [f for f in all_functions(prog) if f.fq in tab]

    def work(f):
        r = fm.Run(prog, f, budget)
        if r.over or r.fi.params != tab[f.fq]['params'] or r.coarse != tab[f.fq]['coarse']:
            return None
        base = unpack(tab[f.fq])
        n, bad = compare(r.rows, base)
        if bad and (r.joins or tab[f.fq]['joins']) and shape(r.rows, r.joins) != shape(base, tab[f.fq]['joins']):
            bad = []    # paths were joined in other places: other combinations of alternatives
        return n, len(r.rows), sorted({x for q in r.rows for x in q.calls}), [(q.idx, q.line, q.none, q.tags, k) for q, k in bad]
    calls = set()
    for f, r in zip(fs, pmap(work, fs)):
        if r is None:
            c.count('functions_not_decided')
            c.notes.append(f'not decided (over budget or other arguments): {f.fq}')
            continue
        n, rows, cs, bad = r
        calls |= set(cs)
        c.count('functions_analysed')
        c.count('results_of_paths', rows)
        c.count('results_decided', n)
        if n:
            c.count('functions_with_a_decided_result')
        for i, line, none, tags, k in bad:
            where = ', '.join([f'{p} omitted' for p in none] + [f'{p}={v!r}' for p, v in tags.items()]) or 'any arguments'
            what = 'differs from every known formula of this result' if k == 'other-formula' else 'is the known formula of another range of arguments'
            c.violation(k, f'{f.fq}|{i}|{where}', f'{f.module.rel}:{line}', f'result {i} ({where}) {what}')
    c.count('functions_kept_as_symbols', len(calls))
    c.floor('functions_analysed', 380)
    c.floor('functions_with_a_decided_result', 340)
    self_test(c)
    c.rules = ['other-formula: the value returned on some path is not identical, as a formula in the arguments, to any formula known for that result and those omitted arguments',
               'other-range: the formula is a known one, but the conditions of this path exclude every range it is known for']
    c.explanation = ('Global value numbering of every public function by path-sensitive abstract interpretation; the value number of each result is compared, as a formula, with '
                     'the known ones in data/t04.json.gz by random interpretation (identities between value numbers are decided by their vectors over random reals; '
                     'calls of other public functions and tables are uninterpreted functions). The alternatives of min, max, abs and joins are compared as sets. Anything without '
                     'a formula (results of loops, unknown containers) is undecided and never reported.')
    c.assumptions = ['the known formulae are those of the unchanged tree; agreement with the documented equations is reported by the thorough run']
