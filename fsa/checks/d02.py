"""D02: branches which solve one relation for different variables, and inverse conversions, are inverse to each other."""
from __future__ import annotations
import json
import os
import tempfile

from .. import formulas as fm
from .. import randint
from ..nf import Undecided
from ..pool import pmap
from ..report import VERIF
from ..scope import is_api
from ..symbolic import SymInterp, key_of
from ..values import Fn, Sym, vnum
from .t04 import SRC

TABLE = os.path.join(VERIF, 'data', 'd02.json')
# f, g, y, x: g with its y := f(...) is x
INVERSE = [
    ('compressible.P_isothermal_critical_flow', 'compressible.P_upstream_isothermal_critical_flow', 'P', 'P'),
    ('compressible.P_upstream_isothermal_critical_flow', 'compressible.P_isothermal_critical_flow', 'P', 'P'),
    ('compressible.P_stagnation', 'compressible.T_stagnation', 'Pst', 'Tst'), ('compressible.T_stagnation', 'compressible.P_stagnation', 'Tst', 'Pst'),
    ('core.K_from_f', 'core.L_from_K', 'K', 'L'), ('core.K_from_f', 'core.f_from_K', 'K', 'fd'), ('core.f_from_K', 'core.K_from_f', 'fd', 'K'),
    ('core.f_from_K', 'core.L_from_K', 'fd', 'L'), ('core.L_from_K', 'core.K_from_f', 'L', 'K'), ('core.L_from_K', 'core.f_from_K', 'L', 'fd'),
    ('core.K_from_L_equiv', 'core.L_equiv_from_K', 'K', 'L_D'), ('core.L_equiv_from_K', 'core.K_from_L_equiv', 'L_D', 'K'),
    ('core.head_from_P', 'core.P_from_head', 'head', 'P'), ('core.P_from_head', 'core.head_from_P', 'P', 'head'),
    ('core.head_from_K', 'core.P_from_head', 'head', None), ('core.dP_from_K', 'core.head_from_P', 'P', None),
    ('core.C2K', 'core.K2C', 'K', 'C'), ('core.K2C', 'core.C2K', 'C', 'K'), ('core.F2C', 'core.C2F', 'C', 'F'), ('core.C2F', 'core.F2C', 'F', 'C'),
    ('core.F2K', 'core.K2F', 'K', 'F'), ('core.K2F', 'core.F2K', 'F', 'K'), ('core.C2R', 'core.R2C', 'Ra', 'C'), ('core.K2R', 'core.R2K', 'Ra', 'K'),
    ('core.F2R', 'core.R2F', 'Ra', 'F'), ('core.R2C', 'core.C2R', 'C', 'Ra'), ('core.R2K', 'core.K2R', 'K', 'Ra'), ('core.R2F', 'core.F2R', 'F', 'Ra'),
    ('fittings.Kv_to_Cv', 'fittings.Cv_to_Kv', 'Cv', 'Kv'), ('fittings.Cv_to_Kv', 'fittings.Kv_to_Cv', 'Kv', 'Cv'),
    ('fittings.Kv_to_K', 'fittings.K_to_Kv', 'K', 'Kv'), ('fittings.K_to_Kv', 'fittings.Kv_to_K', 'Kv', 'K'),
    ('fittings.K_to_Cv', 'fittings.Cv_to_K', 'Cv', 'K'), ('fittings.Cv_to_K', 'fittings.K_to_Cv', 'K', 'Cv'),
    ('flow_meter.discharge_coefficient_to_K', 'flow_meter.K_to_discharge_coefficient', 'K', 'C'),
    ('flow_meter.K_to_discharge_coefficient', 'flow_meter.discharge_coefficient_to_K', 'C', 'K'),
    ('open_flow.n_Manning_to_C_Chezy', 'open_flow.C_Chezy_to_n_Manning', 'C', 'n'), ('open_flow.C_Chezy_to_n_Manning', 'open_flow.n_Manning_to_C_Chezy', 'n', 'C'),
    ('two_phase_voidage.density_two_phase', 'two_phase_voidage.two_phase_voidage_experimental', 'rho_lg', 'alpha'),
    ('two_phase_voidage.two_phase_voidage_experimental', 'two_phase_voidage.density_two_phase', 'alpha', 'rho_lg'),
]
INVERSE = [q for q in INVERSE if q[3]]
# f, [(g, argument)]: f is g after g, the result going into the named argument
CHAINS = [
    ('core.C2F', 'core.C2K', 'core.K2F', 'K'), ('core.F2K', 'core.F2C', 'core.C2K', 'C'), ('core.C2R', 'core.C2K', 'core.K2R', 'K'), ('core.F2R', 'core.F2K', 'core.K2R', 'K'),
    ('core.R2F', 'core.R2K', 'core.K2F', 'K'), ('core.R2C', 'core.R2K', 'core.K2C', 'K'), ('core.K2F', 'core.K2C', 'core.C2F', 'C'),
    ('fittings.K_to_Cv', 'fittings.K_to_Kv', 'fittings.Kv_to_Cv', 'Kv'), ('fittings.Cv_to_K', 'fittings.Cv_to_Kv', 'fittings.Kv_to_K', 'Kv'),
    ('core.head_from_K', 'core.dP_from_K', 'core.head_from_P', 'P'), ('core.dP_from_K', 'core.head_from_K', 'core.P_from_head', 'head'),
]
CASES = [   # body, number of contradictions
    ('if a is None: return x*k\n    elif x is None: return a/k\n    elif k is None: return a/x', 0),
    ('if a is None: return 2.2*x*k\n    elif x is None: return a/k/2.2\n    elif k is None: return a/(2.2*x)', 0),
    ('if a is None: return 2.2*x*k**2\n    elif x is None: return a/k**2/2.2\n    elif k is None: return sqrt(a/(2.2*x))', 0),
    ('if a is None: return 2.2*x*k\n    elif x is None: return a/k/2.2\n    elif k is None: return a/(2.201*x)', 2),
    ('if a is None: return x*k\n    elif x is None: return a/k\n    elif k is None: return x/a', 2),
    ('if a is None: return x*k + x*x\n    elif k is None: return a/x - x\n    elif x is None: return secant(lambda q, p, r: p - f(None, q, r), 1.0, args=(a, k))', 0),
    ('if a is None: return x*k + x*x\n    elif k is None: return a/x - x\n    elif x is None: return secant(lambda q, p, r: p - f(None, r, q), 1.0, args=(a, k))', 2),
]


SOLVERS = {'secant', 'newton', 'brenth', 'brent', 'ridder', 'bisect', 'halley', 'py_newton', 'fixed_point'}


class RootInterp(SymInterp):
    """Results of root finders are symbols with the residual they are the root of."""

    def __init__(self, prog, budget, inline=(), opaque=()):
        super().__init__(prog, budget, inline, opaque)
        self.roots = {}
        self.inside = False

    def policy(self, fn, bound, st, node):
        if self.inside and fn.fi is self.target:
            return 'inline'
        return super().policy(fn, bound, st, node)

    def entry(self, fi, *a, **k):
        self.target = fi
        return super().entry(fi, *a, **k)

    def opaque_call(self, fn, bound, args, kwargs, st, node):
        fi = fn.fi
        if fi.name in SOLVERS and fi.module.name.startswith('fluids.numerics') and bound and not self.inside:
            f = self.deref(bound[fi.params[0]], st)
            more = self.iter_items(bound['args'], st) if 'args' in bound else []
            if isinstance(f, Fn) and more is not None:
                n = vnum('root', len(self.roots))
                self.roots[n] = None
                raised, stack, self.raised, self.stack, self.inside = self.raised, self.stack, [], [], True
                try:
                    self.roots[n] = [v for _, v in self.call_fn(f, [Sym(n, kind='num')] + list(more), {}, st.copy(), node)]
                finally:
                    self.raised, self.stack, self.inside = raised, stack, False
                return [(st, Sym(n, kind='num'))]
        return super().opaque_call(fn, bound, args, kwargs, st, node)


class RootRun(fm.Run):
    interp = RootInterp

    def row(self, idx, x, st, line):
        r = super().row(idx, x, st, line)
        r.root = (x.vn, self.it.roots[x.vn]) if isinstance(x, Sym) and x.vn in self.it.roots else None
        return r


class Root:
    """What a result found iteratively is the root of, as if it were a row."""

    def __init__(self, val, nums):
        self.val, self.nums = val, nums


def values(row, sub):
    try:
        return randint.vectors(row.val, lambda k: sub.get(k[-1] if k[0] != 'root' else k, row.nums.get(k[-1])))[0]
    except Undecided:
        return []


def rows_of(prog, f, budget):
    run = RootRun(prog, f, budget)
    return [] if run.over or run.coarse else [r for r in run.rows if r.idx == '0' and not r.nums]


def is_root_of(r, x, s, y):
    """The result r, found iteratively for x, is the root of a residual which the formula s for y makes zero. None: undecided."""
    n, res = r.root
    us = values(s, {})
    if not res or not us:
        return None
    out = None
    for v in res:
        q = Root(v, r.nums)
        k = key_of(n)
        w0 = values(q, {k: randint.draw(x)})
        for u in us:
            for w in values(q, {k: randint.draw(x), y: u}):
                for z in w0:
                    d = [(a, b) for a, b in zip(w, z) if a is not None and b is not None and b != 0]
                    if len(d) < 3 or any(abs(b) < 1e-8 for a, b in d) and not any(abs(b) >= 1e-8 for a, b in d):
                        continue
                    if sum(abs(a) > 1e-6 * abs(b) for a, b in d) <= len(d) // 4:
                        return True
                    out = False
    return out


def trivial(v, params):
    return any(fm.same(v, randint.draw(p)) for p in params)


def pairs(f, rows):
    """{(x, y): [(row solved for x, verdict of each row solved for y)]}"""
    out = {}
    nullable = {p for r in rows for p in r.none}
    for r in rows:
        for s in rows:
            a, b = set(r.none) - set(s.none), set(s.none) - set(r.none)
            if r is s or len(a) != 1 or len(b) != 1 or any(p in s.tags and s.tags[p] != t for p, t in r.tags.items()):
                continue
            (x,), (y,) = a, b
            if r.root is not None:
                v = None if s.why or s.root is not None else is_root_of(r, x, s, y)
            elif r.why or s.why or s.root is not None:
                v = None
            else:
                v = False
                us = values(r, {})
                if any(trivial(u, nullable) for u in us) or not us:
                    v = None
                for u in us:
                    for w in values(s, {x: u}):
                        if randint.defined(w) >= 5 and fm.same(w, randint.draw(y), 1e9):
                            v = True
                        elif randint.defined(w) < 3 and v is False:
                            v = None
            out.setdefault((x, y), {}).setdefault(id(r), (r, []))[1].append(v)
    return {k: list(d.values()) for k, d in out.items()}


def holds(rs):
    """All rows solved for x are put back right; None if undecided."""
    if any(True not in vs and None in vs for _, vs in rs):
        return None
    return all(True in vs for _, vs in rs)


def compose(fr, gr, y, want):
    """For each decided row of f: does some row of g with y := f give want (a function of the row)? Yields (row, verdict)."""
    for r in fr:
        if r.why:
            continue
        us = values(r, {})
        if not us or max(map(randint.defined, us)) < 3:
            continue
        v, dec = False, True
        for s in gr:
            if s.why:
                dec = False
                continue
            for u in us:
                ws = values(s, {y: u})
                if not ws or all(randint.defined(w) < 3 for w in ws):
                    dec = False
                for w in ws:
                    if any(fm.same(w, t, 1e9) for t in want):
                        v = True
        yield r, True if v else False if dec and gr else None


def self_test(c):
    from ..program import Program
    for body, n in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            with open(d + '/fluids/__init__.py', 'w') as fh:
                fh.write('')
            with open(d + '/fluids/m.py', 'w') as fh:
                fh.write('from fluids.numerics import secant\n' + SRC.replace('def f(a, x', 'def f(a=None, x=None') + body + '\n')
            os.makedirs(d + '/fluids/numerics')
            with open(d + '/fluids/numerics/__init__.py', 'w') as fh:
                fh.write('def secant(func, x0, args=()):\n    while func(x0, *args) > 1:\n        x0 = x0 - 1\n    return x0\n')
            p = Program(d)
            f = p.func('fluids.m.f')
            q = pairs(f, rows_of(p, f, 4000))
            bad = {frozenset(k) for k, rs in q.items() if holds(rs) is False}
            c.self_test(len(q) == 6 and len(bad) == n, f'{body!r}: {len(q)} pairs, contradictions {sorted(map(sorted, bad))}')


def check(c, prog):
    budget = 8000 if c.tier == 'quick' else 20000
    if os.environ.get('FSA_WRITE_TABLES'):
        fs = [f for f in fm.functions(prog) if f.cls is None and is_api(prog, f) and not f.module.name.startswith('fluids.numerics')]
        res = pmap(lambda f: sorted(k for k, rs in pairs(f, rows_of(prog, f, budget)).items() if holds(rs)), fs)
        with open(TABLE, 'w') as fh:
            json.dump({f.fq: r for f, r in zip(fs, res) if r}, fh, indent=0, sort_keys=True)
            fh.write('\n')
    with open(TABLE) as fh:
        tab = json.load(fh)
    fs = [prog.func(q) for q in tab if prog.func(q) is not None]
    names = sorted({'fluids.' + n for q in INVERSE for n in q[:2]} | {'fluids.' + n for q in CHAINS for n in q[:3]})
    both = [('m', f) for f in fs] + [('r', prog.func(n)) for n in names if prog.func(n) is not None]

    def work(job):
        kind, f = job
        if kind == 'm':
            q = pairs(f, rows_of(prog, f, budget))
            return [(x, y, holds(q[x, y]) if (x, y) in q else None, [r.line for r, vs in q.get((x, y), ()) if True not in vs][:1]) for x, y in tab[f.fq]]
        return None
    for (kind, f), r in zip(both, pmap(work, both)):
        if kind == 'm':
            c.count('functions_solving_for_a_missing_variable')
            for x, y, v, line in r:
                c.count('pairs_of_branches_undecided' if v is None else 'pairs_of_branches')
                if v is False:
                    c.violation('branches', f'{f.fq}|{x}|{y}', f'{f.module.rel}:{line[0] if line else f.node.lineno}',
                                f'{f.name}: {x} solved for from {y} and put back does not give {y} again')
    rows = {n: rows_of(prog, prog.func(n), budget) for n in names if prog.func(n) is not None}
    for f, g, y, x in INVERSE:
        f, g = 'fluids.' + f, 'fluids.' + g
        if f not in rows or g not in rows or y not in prog.func(g).params or x not in prog.func(f).params:
            c.notes.append(f'not decided: {f}, {g}')
            continue
        fi = prog.func(f)
        for r, v in compose(rows[f], rows[g], y, [randint.draw(x)]):
            c.count('inverse_conversions_undecided' if v is None else 'inverse_conversions')
            if v is False:
                c.violation('inverse', f'{f}|{g}', f'{fi.module.rel}:{r.line}', f'{g}({y}={f}(...)) is not {x}')
    for f, g, h, y in CHAINS:
        f, g, h = 'fluids.' + f, 'fluids.' + g, 'fluids.' + h
        if any(n not in rows for n in (f, g, h)) or y not in prog.func(h).params:
            c.notes.append(f'not decided: {f} as {h} of {g}')
            continue
        want = [v for r in rows[f] if not r.why for v in values(r, {})]
        if not want or any(r.why for r in rows[f]):
            continue
        fi = prog.func(f)
        for r, v in compose(rows[g], rows[h], y, want):
            c.count('chains_undecided' if v is None else 'chains')
            if v is False:
                c.violation('chain', f'{f}|{g}|{h}', f'{fi.module.rel}:{fi.node.lineno}', f'{f} is not {h} of {g}')
    c.floor('pairs_of_branches', 130)
    c.floor('inverse_conversions', 30)
    c.floor('chains', 7)
    self_test(c)
    c.rules = ['branches: with the formula of one branch in place of the variable it solves for, the formula of another branch is not identically the variable that one solves for',
               'inverse: a conversion applied to the result of its inverse is not identically the starting value',
               'chain: a conversion differs from the two it is documented to combine']
    c.explanation = ('Formulae of each branch by path-sensitive global value numbering; one is substituted into the other and the result compared with the variable itself by random interpretation. '
                     'No table of values: the branches are each other\'s oracle, only the list of pairs (data/d02.json) is taken from the unchanged tree.')
    c.assumptions = ['pairs with a branch that iterates, or whose documented constants are rounded differently in the source literature (Spitzglass diameters), are not claimed']
