"""R01: every path of a public calculation ends in a value or an explicit raise."""
from __future__ import annotations
import ast
import itertools

from ..interp import Budget
from ..pool import pmap
from ..program import walk_scope
from ..scope import Calc
from ..values import NONE, INF, Sym, vnum

BAD = ('UnboundLocalError', 'NameError')
SKIP = ('fluids.numba', 'fluids.vectorized', 'fluids.units', 'fluids.nrlmsise00', 'fluids.optional')

# One reason per line, confirmed by reading; they cover variables assigned only inside a loop of that function.
EXCEPT = {
    'fluids.piping.gauge_from_t': 'the first table entry is not below t: larger inputs raise above',
    'fluids.numerics.interp2d_linear': 'y <= ys[-1] holds on that branch, so the search always breaks',
    'fluids.particle_size_distribution.ParticleSizeDistributionContinuous.plot_pdf': 'only for an empty tuple of orders',
    'fluids.particle_size_distribution.ParticleSizeDistributionContinuous.plot_cdf': 'only for an empty tuple of orders',
}


def entries(prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        exp = prog.exports(m) or ()
        for f in m.functions.values():
            if f.parent is not None or f.is_lambda:
                continue
            if f.cls is None and (f.name in exp or not f.name.startswith('_')) and not f.name.startswith('assert_'):
                yield f
            elif f.cls is not None and (not f.name.startswith('_') or f.name == '__init__'):
                yield f


def returns_value(fi):
    return any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)
               for n in walk_scope(fi.node))


class R01Interp(Calc):
    def policy(self, fn, bound, st, node):
        fi = fn.fi
        if fi.parent is None and not fi.is_lambda and not fi.name.startswith('_') and fi.cls is None:
            return 'opaque'        # analysed as an entry of its own
        return super().policy(fn, bound, st, node)

    def param_value(self, fi, p):
        v = super().param_value(fi, p)
        if p in ('maxiter', 'max_iter', 'maxfun'):
            v.iv = (1.0, INF)      # an iteration limit below one asks for nothing
            v.kind = 'num'
        return v


def only_in_loop(fi, var):
    """Some store of var, in the function or in a private helper of its module, lies in a loop."""
    for f in [fi] + [g for g in fi.module.functions.values() if g.name.startswith('_') or g.parent is fi]:
        inside = {id(x) for n in walk_scope(f.node) if isinstance(n, (ast.For, ast.While)) for x in ast.walk(n)}
        if any(isinstance(n, ast.Name) and n.id == var and isinstance(n.ctx, ast.Store) and id(n) in inside for n in walk_scope(f.node)):
            return True
    return False


def reports(fi, res):
    out = []
    for o in res:
        where = f'{fi.module.rel}:{getattr(o.node, "lineno", 0)}'
        path = ' -> '.join(f'{a}:{"T" if b else "F"}' for a, b in o.st.trace[-6:]) or 'straight line'
        if o.kind == 'raise' and o.exc in BAD:
            var = str(o.why).split("'")[1] if "'" in str(o.why) else str(o.why)
            if fi.fq in EXCEPT and only_in_loop(fi, var):
                continue
            out.append(('unassigned', f'{fi.fq}|{var}', where, f'{o.exc}: {o.why}; branch path (line:taken) {path}'))
        elif o.kind == 'return' and o.why and returns_value(fi):
            out.append(('no-result', fi.fq, where, f'control falls off the end of {fi.name} without a result; branch path (line:taken) {path}'))
    return out


def none_params(fi):
    out = []
    for p, d in fi.defaults.items():
        if isinstance(d, ast.Constant) and d.value is None:
            out.append(p)
    return out


def analyse(prog, fi, budget):
    it = R01Interp(prog, budget=budget)
    try:
        res = it.entry(fi)
        status, n, out = 'ok', len(res), reports(fi, res)
    except Budget:
        status, n, out = 'budget', 0, None
    if not out:
        return status, n, out or []
    ps = none_params(fi)
    if not ps or len(ps) > 7:
        return status, n, out
    # refine: every pattern of omitted optional arguments on its own
    keep = {}
    status = 'ok-split'
    for pat in itertools.product((False, True), repeat=len(ps)):
        args = {p: NONE if none else Sym(vn=vnum('param', fi.fq, p), deps=frozenset([p]), kind=given_kind(it, fi, p)) for p, none in zip(ps, pat)}
        it = R01Interp(prog, budget=budget // 4)
        try:
            r = it.entry(fi, args=args)
        except Budget:
            status = 'budget'
            continue
        n += len(r)
        given = [p for p, none in zip(ps, pat) if not none]
        for rep in reports(fi, r):
            keep.setdefault(rep[:2], rep[:3] + (rep[3] + f'; with {given or "no"} optional arguments given',))
    return status, n, list(keep.values())


def given_kind(it, fi, p):
    for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs:
        if x.arg == p and x.annotation is not None:
            t = ast.unparse(x.annotation).strip("'\"").replace(' ', '')
            parts = [q for q in t.split('|') if q != 'None']
            if parts and all(q in ('float', 'int') for q in parts):
                return 'num'
            if parts == ['str']:
                return 'str'
            if parts == ['bool']:
                return 'bool'
    return 'obj'


SLOW = ('liquid_jet_pump', 'newton_system', 'month_average', 'noise_g_2011', 'nelder_mead', 'one_sided_secant', 'newton', 'from_two_specs')


def check(c, prog):
    fns = sorted(entries(prog), key=lambda f: next((i for i, s in enumerate(SLOW) if s in f.name), 99))
    budget = 150000 if c.tier == 'quick' else 2000000
    res = pmap(lambda f: analyse(prog, f, budget), fns)
    for f, (status, n, out) in zip(fns, res):
        c.count({'ok': 'functions_analysed', 'ok-split': 'functions_analysed_per_argument_pattern', 'budget': 'functions_over_budget'}[status])
        c.count('path_classes', n)
        if status == 'budget':
            c.notes.append(f'over budget, not decided: {f.fq}')
        for rule, cons, loc, msg in out:
            c.violation(rule, cons, loc, msg)
    c.floor('functions_analysed', 700)
    c.rules = ['unassigned: a read of a local or closure variable on a feasible path which never assigned it',
               'no-result: a function which returns values elsewhere reaches its end on a feasible path']
    c.explanation = ('Abstract interpretation of every public function and method from an unconstrained entry (and, where needed, from every '
                     'None/given pattern of its optional arguments); branch feasibility is decided with intervals, equalities, None-ness, '
                     'prefix facts and order relations.')
    c.assumptions = ['iteration limits (maxiter) are at least one', 'NaN is outside the documented input types']
