"""S03: every loop and every recursion carries a progress argument."""
from __future__ import annotations
import ast

from ..effects import callers, argument
from ..interp import Budget
from ..program import walk_scope
from ..scope import Calc
from ..values import Const

# Loops whose measure is not a counter; confirmed by reading.
LOOPS = {
    'fluids.numerics.init_w': 'l1 takes the values l2 = l1 + 1 up to the last knot',
    'fluids.numba.init_w': 'compiled copy of the same',
    'fluids.numerics.homotopy_solver': 'lambda grows to 1; at most five failed steps are taken back',
    'fluids.optional.pychebfun.build_solve_pychebfun': 'the number of points doubles up to N_max',
    'fluids.numba.combinations': 'lexicographic successor of an index tuple',
}
# Recursive calls: the parameters which make progress, confirmed by reading.
RECURSION = {
    'fluids.friction.material_roughness': ({'ID'}, 'the name found is a key of the table'),
    'fluids.geometry._SA_partial_horiz_ellipsoidal_head_to_int_dbl': ({'y'}, 'y is moved off the singular point'),
    'fluids.geometry.SA_partial_horiz_torispherical_head': ({'h'}, 'D - h is in the lower half'),
    'fluids.design_climate.get_closest_station': ({'match_max'}, 'the number of candidates grows tenfold to all stations'),
    'fluids.compressible.isothermal_gas': ({'P1', 'P2'}, 'the flow is given at the choking pressure with m omitted'),
    'fluids.numerics.special.py_catanh': ({'z'}, 'reflection to the right half plane'),
    'fluids.numerics.func_35_splev': ({'l', 'l1'}, 'knot index counts down'),
    'fluids.numerics.func_40_splev': ({'l', 'l1'}, 'knot index counts up'),
    'fluids.safety_valve.API520_A_l': ({'Kv'}, 'Kv is given in the inner call'),
    'fluids.drag.integrate_drag_sphere': ({'Method', 't'}, 'the inner call uses the analytical solution'),
    'fluids.geometry.TANK.h_from_V': ({'method'}, 'the inner call uses the fallback method'),
    'fluids.particle_size_distribution.pdf_lognormal_basis_integral': ({'d'}, 'd is positive in the inner call'),
    'fluids.particle_size_distribution.pdf_Rosin_Rammler_basis_integral': ({'d'}, 'd is positive in the inner call'),
}
EXIT = (ast.Break, ast.Return, ast.Raise)


def const(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = const(e.operand)
        return None if v is None else -v
    return None


def step(s):
    """(variable, kind) for a statement which moves a variable one way: 'up', 'down', 'shrink'; kind None: other assignment."""
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
        return s.target.id, move(s.op, const(s.value))
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp):
        t, b = s.targets[0].id, s.value
        if isinstance(b.left, ast.Name) and b.left.id == t:
            return t, move(b.op, const(b.right))
        if isinstance(b.right, ast.Name) and b.right.id == t and isinstance(b.op, ast.Add):
            return t, move(b.op, const(b.left))
    return None


def move(op, c):
    if c is None or c == 0:
        return None
    if isinstance(op, ast.Add):
        return 'up' if c > 0 else 'down'
    if isinstance(op, ast.Sub):
        return 'down' if c > 0 else 'up'
    if isinstance(op, ast.FloorDiv) and c >= 2 or isinstance(op, ast.RShift) and c >= 1:
        return 'shrink'
    return None


def stores(n):
    out = {}
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.setdefault(x.id, 0)
            out[x.id] += 1
    return out


def nnf(e, neg=False):
    """Negation normal form as ('and'|'or', [..]) or ('cmp', left, op, right) or ('atom', e, neg)."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return nnf(e.operand, not neg)
    if isinstance(e, ast.BoolOp):
        isand = isinstance(e.op, ast.And) != neg
        return ('and' if isand else 'or', [nnf(v, neg) for v in e.values])
    if isinstance(e, ast.Compare):
        parts, left = [], e.left
        for o, r in zip(e.ops, e.comparators):
            parts.append(('cmp', left, NEG.get(type(o)) if neg else NAME.get(type(o)), r))
            left = r
        return parts[0] if len(parts) == 1 else ('or' if neg else 'and', parts)
    return ('atom', e, neg)


NAME = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
NEG = {ast.Lt: '>=', ast.LtE: '>', ast.Gt: '<=', ast.GtE: '<', ast.Eq: '!=', ast.NotEq: '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}


def flatten(c, kind):
    if c[0] == kind:
        out = []
        for x in c[1]:
            out += flatten(x, kind)
        return out
    return [c]


def stays_bounded(c, v, kind, moved):
    """Condition c (needed to go on) bounds v against its direction of movement."""
    if c[0] == 'atom':
        return kind == 'shrink' and not c[2] and isinstance(c[1], ast.Name) and c[1].id == v
    if c[0] != 'cmp' or c[2] is None:
        return False
    l, o, r = c[1], c[2], c[3]
    if not (isinstance(l, ast.Name) and l.id == v):
        if isinstance(r, ast.Name) and r.id == v:
            l, o, r = r, FLIP[o], l
        else:
            return False
    if {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} & moved:
        return False
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'abs', 'int', 'min', 'max')) for x in ast.walk(r)):
        return False
    return (kind == 'up' and o in ('<', '<=', '!=')) or (kind == 'down' and o in ('>', '>=', '!=')) or (kind == 'shrink' and o in ('>', '>=', '!='))


class Paths:
    """Flags (progress, check) on every path through a loop body to the next iteration."""

    def __init__(self, v, kind, moved):
        self.v, self.kind, self.moved = v, kind, moved
        self.next = set()

    def block(self, stmts, flags):
        for s in stmts:
            flags = self.stmt(s, flags)
            if not flags:
                break
        return flags

    def stmt(self, s, flags):
        if isinstance(s, ast.Continue):
            self.next |= flags
            return set()
        if isinstance(s, EXIT):
            return set()
        st = step(s)
        if st and st[0] == self.v and st[1] == self.kind:
            return {(True, c) for _, c in flags}
        if isinstance(s, ast.If):
            test = nnf(s.test)
            a = self.block(s.body, flags)
            b = flags
            if s.body and isinstance(s.body[-1], EXIT) and not a:
                # not leaving means the negation holds
                conds = flatten(nnf(s.test, True), 'and')
                if any(stays_bounded(c, self.v, self.kind, self.moved) for c in conds):
                    b = {(p, True) for p, _ in flags}
            b = self.block(s.orelse, b)
            if s.orelse and isinstance(s.orelse[-1], EXIT):
                conds = flatten(test, 'and')
                if any(stays_bounded(c, self.v, self.kind, self.moved) for c in conds):
                    a = {(p, True) for p, _ in a}
            return a | b
        if isinstance(s, ast.Try):
            body = self.block(s.body, flags)
            start = flags | body
            out = self.block(s.orelse, body) if s.orelse else set(body)
            for h in s.handlers:
                out |= self.block(h.body, start)
            if s.finalbody:
                out = self.block(s.finalbody, out | (set() if out else start))
            return out
        if isinstance(s, ast.With):
            return self.block(s.body, flags)
        if isinstance(s, (ast.For, ast.While)):
            sub = Paths(self.v, self.kind, self.moved)
            sub.block(s.body, set(flags))
            out = set(flags)
            if s.orelse:
                out |= self.block(s.orelse, set(flags))
            return out
        return flags


def counter(loop):
    """A counter which proves termination: (variable, direction), or None."""
    body = ast.Module(body=loop.body, type_ignores=[])
    total = stores(body)
    moves = {}
    for n in ast.walk(body):
        if isinstance(n, ast.stmt):
            st = step(n)
            if st:
                moves.setdefault(st[0], []).append(st[1])
    cond = flatten(nnf(loop.test), 'and')
    for v, ks in moves.items():
        if len(ks) != total.get(v) or None in ks or len(set(ks)) != 1:
            continue
        kind = ks[0]
        moved = set(total)
        p = Paths(v, kind, moved)
        start = {(False, any(stays_bounded(c, v, kind, moved - {v}) for c in cond))}
        end = p.block(loop.body, start) | p.next
        if all(a and b for a, b in end):
            return v, kind
    return None


def bisection(loop):
    """Interval [lo, hi] cut at a point in between on every path."""
    cond = flatten(nnf(loop.test), 'and')
    for c in cond:
        if c[0] != 'cmp':
            continue
        lo = hi = None
        strict = False
        l, o, r = c[1], c[2], c[3]
        if isinstance(l, ast.Name) and isinstance(r, ast.Name) and o in ('<', '>'):
            lo, hi = (l.id, r.id) if o == '<' else (r.id, l.id)
            strict = True
        elif isinstance(l, ast.BinOp) and isinstance(l.op, ast.Sub) and isinstance(l.left, ast.Name) and isinstance(l.right, ast.Name) and o == '>' and (const(r) or 0) >= 1:
            hi, lo = l.left.id, l.right.id
        if lo is None:
            continue
        mids = {s.targets[0].id for s in ast.walk(loop) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                and {lo, hi} <= {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}}

        def ok(stmts):
            """Every path assigns an endpoint properly or leaves."""
            for s in stmts:
                if isinstance(s, EXIT):
                    return True
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    t = s.targets[0].id
                    names = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
                    if t in (lo, hi) and names & mids:
                        if strict and t == lo and isinstance(s.value, ast.Name):
                            return False      # lo = mid does not shrink [lo, lo + 1)
                        return True
                if isinstance(s, ast.If) and ok(s.body) and ok(s.orelse):
                    return True
            return False
        if mids and ok(loop.body):
            return lo, hi
    return None


def worklist(loop):
    """while work: ... work.pop()"""
    t = loop.test
    v = t.id if isinstance(t, ast.Name) else None
    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Call) and isinstance(t.left.func, ast.Name) and t.left.func.id == 'len' and isinstance(t.left.args[0], ast.Name):
        v = t.left.args[0].id
    if v is None:
        return None
    for n in ast.walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'popleft', 'popitem') and isinstance(n.func.value, ast.Name) and n.func.value.id == v:
            return v
    return None


def stuck(fi, loop):
    """Nothing the loop's exits look at changes inside it."""
    names = {x.id for x in ast.walk(loop.test) if isinstance(x, ast.Name)}
    moved = set(stores(ast.Module(body=loop.body, type_ignores=[])))
    for n in ast.walk(loop):
        if isinstance(n, EXIT):
            return False
        if isinstance(n, ast.Call):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    moved.add(x.id)
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
            moved |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
    return not (names & moved)


INFINITE = {'itertools.count', 'itertools.cycle', 'itertools.repeat'}


def check(c, prog):
    from ..refs import resolver
    for m in prog.modules.values():
        for f in m.functions.values():
            res = None
            for n in walk_scope(f.node):
                if isinstance(n, ast.While):
                    c.count('while_loops')
                    r = counter(n) or bisection(n) or worklist(n)
                    if r:
                        c.count('loops_with_measure')
                        c.sample(f'{f.fq}: {r}')
                    elif f.fq in LOOPS and not stuck(f, n):
                        c.count('loops_confirmed')
                    else:
                        c.violation('loop', f'{f.fq}|while', m.loc(n), f'no counter or shrinking interval bounds "while {ast.unparse(n.test)[:50]}" on every path')
                elif isinstance(n, (ast.For, ast.comprehension)):
                    c.count('for_loops')
                    it = n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, (ast.Name, ast.Attribute)):
                        res = res or resolver(prog, f)
                        r = res(it.func)
                        nm = r[1] if r and r[0] == 'ext' else None
                        if nm in INFINITE and not (nm == 'itertools.repeat' and len(it.args) > 1):
                            if not (isinstance(n, ast.For) and counter_exit(n)):
                                c.violation('infinite', f'{f.fq}|{nm}', m.loc(it), f'iteration over {nm} without a bound')
                        if r and r[0] == 'builtin' and r[1] == 'iter' and len(it.args) == 2:
                            c.violation('infinite', f'{f.fq}|iter', m.loc(it), 'iteration until a sentinel without a bound')
                    if isinstance(n, ast.For) and isinstance(it, ast.Name):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert') \
                                    and isinstance(x.func.value, ast.Name) and x.func.value.id == it.id:
                                c.violation('grows', f'{f.fq}|{it.id}', m.loc(x), f'{it.id} grows while it is iterated over')
    recursion(c, prog)
    c.floor('while_loops', 15)
    c.floor('for_loops', 450)
    c.floor('recursive_calls', 12)
    t = ast.parse('while i < n:\n    if x:\n        continue\n    i += 1').body[0]
    c.self_test(counter(t) is None, 'a path which skips the counter is found')
    t.body[0].body.insert(0, ast.parse('i += 1').body[0])
    c.self_test(counter(t) == ('i', 'up'), 'counter on both paths')
    c.self_test(counter(ast.parse('while True:\n    k = k - 1\n    if k < 0 or y:\n        return 3').body[0]) == ('k', 'down'), 'exit test in the body')
    c.self_test(bisection(ast.parse('while a < b:\n    m = (a+b)//2\n    if z: a = m\n    else: b = m').body[0]) is None, 'non-shrinking bisection')
    c.rules = ['loop: a while loop needs a counter moved one way by a constant on every path to the next iteration (exceptional ones too) and compared with a '
               'loop-invariant bound, a bisected interval, or a consumed worklist', 'infinite: iteration over an endless iterator', 'grows: appending to the list being iterated',
               'recursion: a recursive call changes a parameter, by a bounded step, structurally, to a value which does not recurse again, or in the confirmed parameter']
    c.explanation = 'All while loops, for loops, comprehensions and recursive calls (call-graph cycles) of the package.'
    c.assumptions = ['user-supplied callables terminate', 'bounds such as maxiter are finite']


def counter_exit(n):
    w = ast.While(test=ast.Constant(value=True), body=[ast.parse('__i += 1').body[0]] + n.body, orelse=[])
    names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    for s in n.body:
        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], EXIT) and {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} & names:
            return True
    return counter(w) is not None


class Again(Calc):
    """Does a call with the arguments of the recursive site reach that site again?"""
    def e_Call(self, e, st):
        if e is self.site:
            self.hit = True
        return super().e_Call(e, st)


def recurs_again(prog, f, call):
    it = Again(prog, budget=60000)
    it.site, it.hit = call, False
    args = {}
    for p in f.params:
        e = argument(f, call, p)
        if e == '?':
            return True
        if e is None:
            continue
        if isinstance(e, ast.Constant):
            args[p] = Const(e.value)
    for p in f.params:
        if p not in args and argument(f, call, p) is None and p in f.defaults:
            d = f.defaults[p]
            if isinstance(d, ast.Constant):
                args[p] = Const(d.value)
    try:
        it.entry(f, args=args)
    except Budget:
        return True
    return it.hit


def recursion(c, prog):
    g = {}
    for t, cs in callers(prog).items():
        for f, n in cs:
            g.setdefault(f, {}).setdefault(t, []).append(n)

    def reach(a):
        seen, st = set(), [a]
        while st:
            for y in g.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    for f in list(g):
        if f.module.name.startswith(('fluids.numba', 'fluids.units')) or f not in reach(f):
            continue
        for t, ns in g[f].items():
            if t is not f:
                if f in reach(t):
                    c.count('mutually_recursive_calls')
                continue
            for n in ns:
                c.count('recursive_calls')
                changed = changed_params(f, n)
                if changed == '?':
                    continue
                if f.fq in RECURSION:
                    need = RECURSION[f.fq][0]
                    if not (need & explicit(f, n)) and recurs_again(prog, f, n):
                        c.violation('recursion', f'{f.fq}|{"/".join(sorted(need))}', f.module.loc(n), f'the recursive call no longer changes {" or ".join(sorted(need))}: {ast.unparse(n)[:70]}')
                    continue
                ms = [p for p in changed if measured(f, n, p)]
                if ms:
                    continue
                if any(structural(f, n, p) for p in changed):
                    continue
                if not recurs_again(prog, f, n):
                    continue
                if not changed or had_measure(f):
                    c.violation('recursion', f.fq, f.module.loc(n), f'the recursive call {ast.unparse(n)[:70]} makes no bounded progress')


def had_measure(f):
    """A parameter is compared with a constant but no longer moves: the depth limit is lost."""
    return any(p in ('depth', 'level', 'recursion', 'n', 'order') for p in f.params)


def changed_params(f, call):
    out = set()
    for p in f.params:
        e = argument(f, call, p)
        if e == '?':
            return '?'
        if e is None:
            d = f.defaults.get(p)
            if d is not None and not (f.cls is not None and p == f.params[0]):
                out.add(p)           # falls back to the default
            continue
        if not (isinstance(e, ast.Name) and e.id == p) or reassigned(f, p):
            out.add(p)
    return out


def explicit(f, call):
    """Parameters given a value other than the parameter itself."""
    out = set()
    for p in f.params:
        e = argument(f, call, p)
        if e is not None and e != '?' and (not (isinstance(e, ast.Name) and e.id == p) or assigned_before(f, call, p)):
            out.add(p)
    return out


def assigned_before(f, call, p):
    """An assignment of p in a block enclosing the call comes before it."""
    m = f.module
    n = call
    while n is not f.node:
        up = m.parent[n]
        for b in ('body', 'orelse', 'finalbody'):
            blk = getattr(up, b, None)
            if isinstance(blk, list) and any(x is n for x in blk):
                for x in blk:
                    if x is n:
                        break
                    if isinstance(x, (ast.Assign, ast.AugAssign)) and p in stores(x):
                        return True
        n = up
    return False


def reassigned(f, p):
    return any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in walk_scope(f.node))


def measured(f, call, p):
    """p moves by a constant and a comparison with p decides an exit."""
    e = argument(f, call, p)
    if not (isinstance(e, ast.BinOp) and isinstance(e.left, ast.Name) and e.left.id == p):
        return False
    k = move(e.op, const(e.right))
    if k is None:
        return False
    for n in walk_scope(f.node):
        if isinstance(n, ast.If):
            leaves = bool(n.body) and isinstance(n.body[-1], EXIT)
            inside = any(x is call for x in ast.walk(n))
            if inside and not leaves:
                conds = flatten(nnf(n.test), 'and')
            elif inside and leaves and any(x is call for s in n.body for x in ast.walk(s)):
                conds = flatten(nnf(n.test), 'and')
            elif leaves:
                conds = flatten(nnf(n.test, True), 'and')
            else:
                continue
            if any(stays_bounded(x, p, k, set()) for x in conds):
                return True
    return False


def structural(f, call, p):
    e = argument(f, call, p)
    return isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == p
