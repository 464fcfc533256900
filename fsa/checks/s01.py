"""S01: every return of an iterative solver is guarded by its convergence test."""
from __future__ import annotations
import ast

from ..program import walk_scope

TOLS = {'xtol', 'ytol', 'rtol', 'tol', 'ftol', 'atol', 'epsabs', 'epsrel', 'terminal_xtol', 'terminal_ytol'}
SKIP = ('fluids.numba', 'fluids.units', 'fluids.vectorized', 'fluids.nrlmsise00', 'fluids.optional')
LEAVE = (ast.Return, ast.Raise, ast.Break, ast.Continue)
# One reason each.
EXEMPT = {
    'fluids.numerics.nelder_mead': 'simplex minimiser: reports the number of iterations with the best point (documented behaviour of the method)',
    'fluids.numerics.quad_adaptive': 'integrator: returns its error estimate with the result',
}
OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not'}
NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is'}


def form(e, neg=False, lax=False):
    """Negation normal form; comparisons keep whether they were negated (not NaN-proof)."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return form(e.operand, not neg, lax)
    if isinstance(e, ast.BoolOp):
        return ('and' if isinstance(e.op, ast.And) != neg else 'or', [form(v, neg, lax) for v in e.values])
    if isinstance(e, ast.Compare):
        parts, left = [], e.left
        for o, r in zip(e.ops, e.comparators):
            op = OPS.get(type(o), '?')
            parts.append(('cmp', left, NEG.get(op, '?') if neg else op, r, lax or not neg))
            left = r
        return parts[0] if len(parts) == 1 else ('or' if neg else 'and', parts)
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return ('true',) if e.value != neg else ('false',)
    return ('atom', e, neg)


class Solver:
    def __init__(self, fi, tols=None):
        self.fi = fi
        self.tols = {p for p in fi.params if p in TOLS} if tols is None else tols
        # names derived from tolerances (delta = 0.5*(xtol + rtol*abs(x)))
        self.names = {t: {t} for t in self.tols}
        self.defs = {}
        for n in walk_scope(fi.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                t = n.targets[0]
                if isinstance(t, ast.Name):
                    self.defs.setdefault(t.id, []).append(n.value)
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    for a, b in zip(t.elts, n.value.elts):
                        if isinstance(a, ast.Name):
                            self.defs.setdefault(a.id, []).append(b)
                elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.IfExp):
                    for a in t.elts:
                        if isinstance(a, ast.Name):
                            self.defs.setdefault(a.id, []).append(n.value)
        ch = True
        while ch:
            ch = False
            for v, es in self.defs.items():
                for e in es:
                    if isinstance(e, (ast.Compare, ast.BoolOp)):
                        continue
                    d = set()
                    for x in ast.walk(e):
                        if isinstance(x, ast.Name):
                            d |= self.names.get(x.id, set())
                    if d - self.names.get(v, set()):
                        self.names.setdefault(v, set()).update(d)
                        ch = True

    def tol_of(self, e):
        out = set()
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                out |= self.names.get(x.id, set())
        return out

    def small(self, e):
        """A literal convergence threshold."""
        return isinstance(e, ast.Constant) and isinstance(e.value, float) and 0.0 < e.value <= 1e-3

    def conv(self, c, t=None, vac=False, depth=0):
        """Formula c implies that a quantity is below a tolerance (below t when given).
        vac: 'tolerance is None' disjuncts are vacuous (guards of a raise)."""
        k = c[0]
        if k == 'and':
            return any(self.conv(x, t, vac, depth) for x in c[1])
        if k == 'or':
            hard = [x for x in c[1] if not (vac and self.none_tol(x))]
            return bool(hard) and all(self.conv(x, t, vac, depth) or (t is not None and self.excused(x, t)) for x in hard)
        if k == 'false':
            return True
        if k == 'cmp':
            l, o, r, exact = c[1:]
            if o == '==' and exact and any(isinstance(x, ast.Constant) and x.value == 0 for x in (l, r)):
                return True
            if o in ('>', '>='):
                l, r, o = r, l, {'>': '<', '>=': '<='}[o]
            if o in ('<', '<=') and exact:
                if self.small(r):
                    return True
                tt = self.tol_of(r)
                return bool(tt) if t is None else t in tt
            return False
        if k == 'atom' and not c[2] and isinstance(c[1], ast.Name) and depth < 4:
            ds = self.defs.get(c[1].id, [])
            return bool(ds) and all(self.conv(form(d), t, vac, depth + 1) for d in ds)
        if k == 'atom' and not c[2] and isinstance(c[1], ast.Call) and depth < 4:
            return self.helper(c[1], t, vac, depth)
        return False

    def helper(self, call, t, vac, depth):
        """A predicate of this module which is handed the tolerance: each true answer must come from a convergence test."""
        fs = getattr(self.fi.module, 'functions', {})
        h = fs.get(call.func.id) if isinstance(call.func, ast.Name) else None
        if h is None:
            return False
        bind = dict(zip(h.params, call.args))
        bind.update({k.arg: k.value for k in call.keywords if k.arg})
        m = {p: self.tol_of(a) for p, a in bind.items()}
        m = {p: d for p, d in m.items() if d and (t is None or t in d)}
        if not m:
            return False
        S = Solver(h, set(m))
        seen = False
        for r in walk_scope(h.node):
            if not isinstance(r, ast.Return) or r.value is None:
                continue
            g = form(r.value)
            if g[0] == 'false':
                continue
            seen = True
            cs = [c for c, _ in path_conditions(h, r)] + [g]
            if not any(S.conv(x, None, vac, depth + 1) for x in cs):
                return False
        return seen

    def compared(self, c):
        if c[0] in ('and', 'or'):
            return set().union(*[self.compared(x) for x in c[1]])
        if c[0] == 'cmp' and c[2] in ('<', '<=', '>', '>='):
            return self.tol_of(c[1]) | self.tol_of(c[3])
        return set()

    def none_tol(self, c):
        if c[0] == 'and':
            return any(self.none_tol(x) for x in c[1])
        return c[0] == 'cmp' and c[2] == 'is' and isinstance(c[1], ast.Name) and c[1].id in self.tols

    def excused(self, c, t):
        """not require_xtol"""
        if c[0] == 'and':
            return any(self.excused(x, t) for x in c[1])
        return c[0] == 'atom' and c[2] and isinstance(c[1], ast.Name) and c[1].id == 'require_' + t

    def given(self, conds):
        """Tolerances known to be given on the path."""
        out = set()

        def rec(c):
            if c[0] == 'and':
                for x in c[1]:
                    rec(x)
            elif c[0] == 'cmp' and c[2] == 'is not' and isinstance(c[1], ast.Name) and c[1].id in self.tols:
                out.add(c[1].id)
        for c, _ in conds:
            rec(c)
        return out


def leaves(stmts):
    """Control never runs off the end of the block."""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, LEAVE):
        return True
    if isinstance(s, ast.If):
        return leaves(s.body) and leaves(s.orelse)
    return False


def path_conditions(fi, ret):
    """[(formula, from_raise_guard)] which hold when ret is reached (last visit)."""
    m = fi.module
    out = []
    n = ret
    while n is not fi.node:
        up = m.parent[n]
        for field in ('body', 'orelse', 'finalbody'):
            blk = getattr(up, field, None)
            if isinstance(blk, list) and any(x is n for x in blk):
                i = next(j for j, x in enumerate(blk) if x is n)
                killed = set()
                for s in reversed(blk[:i]):
                    if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and not (names(s.test) & killed):
                        g = isinstance(s.body[-1], ast.Raise)
                        out.append((form(s.test, True, not g), g))
                    elif isinstance(s, ast.If) and isinstance_only(s):
                        # if tol is not None: <compute>; if not err <= tol: raise
                        inner = s.body[-1]
                        out.append((('or', [form(s.test, True), form(inner.test, True)]), True))
                    elif isinstance(s, ast.While) and not has_break(s):
                        out.append((form(s.test, True), 'while'))
                    killed |= stored(s)
        if isinstance(up, ast.If):
            if any(x is n for x in up.body):
                out.append((form(up.test), False))
            elif any(x is n for x in up.orelse):
                out.append((form(up.test, True, True), False))
        n = up
    return out


def isinstance_only(s):
    return (isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse
            and s.body[-1].body and isinstance(s.body[-1].body[-1], ast.Raise))


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def stored(s):
    return {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def has_break(loop):
    return any(isinstance(x, ast.Break) for x in walk_scope(loop))


def iterative(fi):
    """Loops bounded by an iteration limit parameter."""
    lim = {p for p in fi.params if p in ('maxiter', 'max_iter', 'maxfun', 'iterations_max', 'max_iterations')}
    if not lim:
        return []
    d = set(lim)
    for n in walk_scope(fi.node):
        if isinstance(n, ast.Assign) and names(n.value) & d:
            d |= {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
    out = []
    for n in walk_scope(fi.node):
        if isinstance(n, ast.While) or (isinstance(n, ast.For) and names(n.iter) & d):
            out.append(n)
    return out


def solver(fi):
    """A root finder, fixed-point or minimising routine: iteration limit, tolerances and a loop of its own."""
    return bool({p for p in fi.params if p in TOLS}) and bool(iterative(fi))


def analyse(fi):
    """[(return node, reason)] of unguarded returns; number of returns."""
    S = Solver(fi)
    bad, n = [], 0
    rets = [x for x in walk_scope(fi.node) if isinstance(x, ast.Return)]
    for r in rets:
        n += 1
        conds = path_conditions(fi, r)
        if isinstance(r.value, ast.Call) and delegates(fi, r.value):
            continue
        ok = any(S.conv(c, None, g is True) for c, g in conds) or any(g == 'while' and wconv(S, c) for c, g in conds)
        if not ok:
            bad.append((r, 'no convergence test is known to have succeeded on this path'))
            continue
        for t in sorted(S.given([c for c in conds if c[1] is False])):
            if not any(S.conv(c, t, g is True) for c, g in conds):
                bad.append((r, f'{t} is given on this path, but the result is returned without a test against it'))
        named = set()
        for c, g in conds:
            if g is True:
                named |= S.compared(c)
        for t in sorted(named & S.tols):
            if not any(S.conv(c, t, g is True) for c, g in conds):
                bad.append((r, f'the final test against {t} does not cover every path to this return'))
    # running off the end
    last = fi.body[-1]
    if isinstance(last, (ast.For, ast.While)) and not has_break(last):
        bad.append((last, 'the iteration limit is reached without an error'))
    return bad, n


def wconv(S, c):
    """Exit condition of a while loop without breaks."""
    if c[0] == 'or':
        return all(wconv(S, x) for x in c[1])
    if c[0] == 'and':
        return any(wconv(S, x) for x in c[1])
    if c[0] == 'cmp' and c[2] in ('<', '<='):
        return S.small(c[3]) or bool(S.tol_of(c[3]))
    return False


def delegates(fi, call):
    """return other_solver(...): decided there."""
    return isinstance(call.func, ast.Name) and call.func.id not in fi.params and any(isinstance(a, ast.Name) and a.id in ('f', 'func', 'fun') for a in call.args)


def check(c, prog):
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for f in m.functions.values():
            if f.is_lambda or not solver(f):
                continue
            if f.fq in EXEMPT:
                c.count('exempt')
                continue
            c.count('solvers')
            bad, n = analyse(f)
            c.count('returns', n)
            c.sample(f.fq)
            for r, why in bad:
                c.violation('unconverged', f'{f.fq}|{ast.unparse(r)[:40] if isinstance(r, ast.Return) else "end"}', m.loc(r), f'{f.name}: {why}')
    c.floor('solvers', 11)
    c.floor('returns', 45)
    selftest(c)
    c.rules = ['unconverged: a return of a routine with tolerances and an iteration limit is reachable without a comparison below a tolerance (or an exact zero) having '
               'succeeded on the path, or without the test against a tolerance known to be given; a comparison known only as the negation of "error > tolerance" does not '
               'count, because it lets NaN pass; the end of the iteration loop must not fall through to a return or to the end']
    c.explanation = ('For each return statement of each solver the conditions which hold there are collected from enclosing branches and from earlier guards which leave, '
                     'put in negation normal form, and must entail a convergence test; boolean temporaries and derived tolerances are expanded.')
    c.assumptions = [f'{k}: {v}' for k, v in EXEMPT.items() if v]


def selftest(c):
    from types import SimpleNamespace

    def mk(src):
        t = ast.parse(src)
        fn = t.body[0]
        par = {}
        for p in ast.walk(t):
            for x in ast.iter_child_nodes(p):
                par[x] = p
        a = fn.args
        return SimpleNamespace(node=fn, params=[x.arg for x in a.args], module=SimpleNamespace(parent=par), body=fn.body)
    good = mk('def s(f, x, xtol, maxiter):\n    for i in range(maxiter):\n        d = f(x)\n        if abs(d) < xtol: return x\n    raise E')
    c.self_test(not analyse(good)[0], 'plain solver accepted')
    bad = mk('def s(f, x, xtol, maxiter):\n    for i in range(maxiter):\n        d = f(x)\n        if abs(d) < xtol: break\n    return x')
    c.self_test(len(analyse(bad)[0]) == 1, 'fall-through found')
    nan = mk('def s(f, x, xtol, maxiter):\n    for i in range(maxiter):\n        d = f(x)\n        if abs(d) < xtol: break\n    if abs(d) > xtol: raise E\n    return x')
    c.self_test(len(analyse(nan)[0]) == 1, 'NaN passes the negated test')
