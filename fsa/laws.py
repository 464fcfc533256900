"""Laws stated as small programs over the public interface, analysed (never run) in place of a caller.

A driver is the source of a function; it is analysed in the namespace of a module of the program with the
interpreter of the kernels, so that the classes and functions it uses are inlined, and its results are
formulas in its arguments."""
from __future__ import annotations
import ast

from . import formulas as fm
from . import kernels as kn
from . import randint
from .nf import Undecided
from .randint import K
from .symbolic import key_of
from .values import Const, ListV, Sym, TupV


class LawInterp(kn.KernelInterp):
    modules = ()

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.soft, self.hard = 2000, 4000

    def policy(self, fn, bound, st, node):
        if fn.fi.module.name in self.modules and self.stack.count(fn.fi) < 3 and not fn.fi.name.startswith('plot'):
            return 'inline'
        return super().policy(fn, bound, st, node)

    def call(self, f, args, kwargs, st, node, star=False):
        if name_of(f) == 'isclose' and len(args) == 2:      # arguments drawn at random are not
            a, b = (getattr(x, 'vn', None) for x in args)
            if a is not None or b is not None:
                return [(st, Const(a == b))]
        return super().call(f, args, kwargs, st, node, star)

    def cmp_in(self, l, r, st, node):
        h = self.deref(r, st)
        its = self.seq_items(h) if isinstance(h, (TupV, ListV)) else None
        if isinstance(l, Sym) and its and any(isinstance(x, Sym) for x in its) and all(isinstance(x, (Sym, Const)) for x in its):
            res, live = [], [st]
            for x in its:                                    # one comparison after the other, so that their outcomes are known
                live = [(a, t) for s in live for a, t in self.cmp_eq(l, x, s, node)]
                res += [(a, True) for a, t in live if t]
                live = [a for a, t in live if not t]
            return res + [(a, False) for a in live]
        return super().cmp_in(l, r, st, node)


def name_of(f):
    if hasattr(f, 'fi'):
        return f.fi.name
    k = key_of(f.vn) if isinstance(f, Sym) else None
    n = k[-1] if k and isinstance(k[-1], str) else getattr(f, 'name', None)
    return n.rsplit('.', 1)[-1] if isinstance(n, str) else None


class LawRun(kn.KernelRun):
    interp = LawInterp


def drive(prog, modname, src, shapes, budget=40000, modules=()):
    """LawRun of a driver, or None when the module is missing."""
    m = prog.modules.get(modname)
    if m is None:
        return None
    node = ast.parse(src).body[0]
    node.name = q = f'__driver_{abs(hash((src, str(shapes)))) % 10 ** 9}'
    if q not in m.functions:
        m._collect_funcs(ast.Module(body=[node], type_ignores=[]), '', None, None)
    cls = type('R', (LawRun,), {'interp': type('I', (LawInterp,), {'modules': (modname, *modules)})})
    f = m.functions[q]
    f.sizes = shapes
    r = cls(prog, f, budget)
    if not hasattr(r, 'paths'):
        r.paths = []
    return r


def values(run, o, out):
    """(results, arguments) at every point of a path: lists of nested results and of argument dictionaries; None where undefined."""
    nums, other = kn.numbers(run, o)
    if other or any(r == {'='} for r in o.st.rel.values()):
        raise Undecided('equation between the arguments')
    vals = {tuple(int(i) for i in k.split('.')[1:]): kn.vector(x, nums) for k, x in out.items() if k.split('.')[0] == 'result'}
    if not vals:
        raise Undecided('no results')
    res = []
    for j in range(K):
        if any(v[j] is None for v in vals.values()):
            res.append(None)
            continue
        res.append((nest({k: v[j] for k, v in vals.items()}), lambda p, j=j: nums.get(p, randint.draw(p)[j])))
    return res


def number(n):
    """The value with a value number."""
    return Sym(n)


def nest(d):
    """{(1, 0): x} to nested lists."""
    if () in d:
        return d[()]
    n = 1 + max(k[0] for k in d)
    return [nest({k[1:]: x for k, x in d.items() if k[0] == i}) for i in range(n) if any(k[0] == i for k in d)]


def close(a, b, tol=1e-6):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(abs(x - y) <= tol * max(abs(x), abs(y), 1e-3) for x, y in zip(a, b))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def verdict(run, o, out, law):
    """True, False or None for one path; law(results, argument) gives pairs of things to be equal."""
    try:
        pts = values(run, o, out)
    except (Undecided, IndexError, TypeError, KeyError):
        return None
    n = bad = 0
    for pt in pts:
        if pt is None:
            continue
        try:
            pairs = law(*pt)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        except (IndexError, TypeError):
            return None
        n += 1
        bad += not all(close(a, b) for a, b in pairs)
    return None if n < 3 else bad <= n // 4
