"""Results of numerical kernels as formulae in every element of lists and matrices of fixed sizes, and their derivatives."""
from __future__ import annotations
import copy
import math

from . import formulas as fm
from . import randint
from .interp import is_num
from .nf import Undecided
from .randint import K
from .symbolic import MATHS, SymInterp, key_of
from .values import Const, ListV, Ref, Slice, Sym

SOLVERS = {'secant', 'newton', 'brenth', 'ridder', 'bisect', 'halley', 'fixed_point', 'newton_system', 'quad', 'quad_adaptive', 'gammaincc', 'lambertw', 'py_lambertw',
           'ellipe', 'ellipkinc', 'ellipeinc', 'i0', 'i1', 'k0', 'k1', 'iv', 'hyp2f1', 'solve', 'splev', 'bisplev'} | set(MATHS)


class KernelInterp(SymInterp):
    """Kernels are inlined in each other."""

    def policy(self, fn, bound, st, node):
        fi = fn.fi
        if fi.module.name.startswith('fluids.numerics') and fi.cls is None and not fi.is_lambda and fi.name not in SOLVERS and self.stack.count(fi) < 3:
            return 'inline'
        return super().policy(fn, bound, st, node)

    def call(self, f, args, kwargs, st, node, star=False):
        if isinstance(f, Sym) and (key_of(f.vn) or ('',))[0] == 'modvar' and key_of(f.vn)[-1] == 'comb' and len(args) == 2 and all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            return [(st, Const(math.comb(args[0].v, args[1].v)))]
        return super().call(f, args, kwargs, st, node, star)


    def set_item(self, o, i, v, st, node):
        h, new = self.deref(o, st), self.iter_items(v, st) if isinstance(i, Slice) else None
        if new is not None and isinstance(o, Ref) and isinstance(h, ListV) and h.items is not None and all(isinstance(p, Const) for p in i.parts):
            its = list(h.items)
            its[slice(*[p.v for p in i.parts])] = new
            st.heap[o.id] = ListV(its, None, h.xdeps)
            return
        super().set_item(o, i, v, st, node)


class KernelRun(fm.Run):
    interp = KernelInterp

    def take(self, o):
        self.paths = getattr(self, 'paths', [])
        st, out = o.st, {}
        v = self.it.deref(o.val, st) if isinstance(o.val, Ref) else o.val
        for i, x in self.parts(v, st, 'result'):
            out[i] = x
        for p, (ref, items) in self.lists.items():
            self.changed(p, ref, st, out)
        self.paths.append((o, out))

    def changed(self, p, ref, st, out):
        h = st.heap.get(ref.id)
        if isinstance(h, ListV) and h.items is not None:
            for i, x in enumerate(h.items):
                if isinstance(x, Ref):
                    self.changed(f'{p}.{i}', x, st, out)
                else:
                    out[f'{p}.{i}'] = x

    def find_cuts(self):
        pass

    def symbols(self, p, shape, st):
        return Const(shape) if isinstance(shape, (int, float)) else super().symbols(p, shape, st)


def run(prog, f, shapes=None, budget=20000):
    """KernelRun of f with lists of the given shapes for some parameters."""
    if shapes:
        f = copy.copy(f)
        f.sizes = shapes
        f.qualname = f'{f.qualname}@{"x".join(map(str, sorted({n for s in shapes.values() for n in (s if isinstance(s, tuple) else (s,))})))}'
    r = KernelRun(prog, f, budget)
    if not hasattr(r, 'paths'):
        r.paths = []
    return r


def numbers(run, o):
    """{parameter: number} and whether the path depends on an equation between other quantities."""
    nums, other = {}, False
    for n, f in o.st.facts.items():
        k = key_of(n)
        x = f.lo if f.eq is fm.MISSING and f.lo == f.hi else f.eq
        if k and k[0] == 'param':
            if is_num(x) and not isinstance(x, (bool, complex)):
                nums[k[-1]] = x
        elif is_num(x) and not isinstance(x, (bool, complex)):
            other = True
    return nums, other


class NumRand(randint.Rand):
    """Absolute values, minima and maxima of numbers; Undecided at functions without a known value."""

    def _vn(self, n):
        k = key_of(n)
        if k is not None and k[0] == 'abs':
            return self.each(self.absolute, self.vn(k[1]))
        if k is not None and k[0] == 'minmax':
            return self.each(lambda *a: (max if k[1] else min)(a, key=self.plain), *[self.key(a) for a in k[2:]])
        return super()._vn(n)

    plain = staticmethod(lambda x: x)
    absolute = staticmethod(abs)

    def fun(self, name, args):
        if name == 'comb' and len(args) == 2 and all(isinstance(a, list) for a in args):
            return self.each(lambda a, b: float(math.comb(int(a), int(b))), *args)
        return super().fun(name, args)

    def uninterpreted(self, tag, args):
        raise Undecided(str(tag))


def vector(x, nums, rand=NumRand):
    """Vector of a result; Undecided when it is not one formula."""
    r = rand(lambda k: nums.get(k[-1]), None, 0)
    v = r.value(x)
    if r.forks:
        raise Undecided('alternatives')
    return v


# ------------------------------------------------------------------ derivatives
class Dual:
    """A number with its derivative."""
    __slots__ = ('v', 'd')

    def __init__(self, v, d=0.0):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __sub__(self, o):
        o = Dual.of(o)
        return Dual(self.v - o.v, self.d - o.d)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.v / o.v, (self.d - self.v / o.v * o.d) / o.v)

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __pow__(self, o):
        o = Dual.of(o)
        p = self.v ** o.v
        if isinstance(p, complex):
            return p
        d = 0.0
        if self.d:
            d += o.v * self.v ** (o.v - 1) * self.d
        if o.d:
            d += math.log(self.v) * p * o.d
        return Dual(p, d)

    def __rpow__(self, o):
        return Dual.of(o) ** self

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __abs__(self):              # for the range check of vectors only
        return abs(self.v) + abs(self.d)

    def __ne__(self, o):
        return not self == o

    def __eq__(self, o):
        o = Dual.of(o)
        return self.v == o.v and self.d == o.d

    __hash__ = None


RULES = {'exp': lambda x: math.exp(x), 'log': lambda x: 1 / x, 'ln': lambda x: 1 / x, 'sqrt': lambda x: 0.5 / math.sqrt(x), 'cbrt': lambda x: 1 / (3 * abs(x) ** (2 / 3)),
         'sin': math.cos, 'cos': lambda x: -math.sin(x), 'tan': lambda x: 1 + math.tan(x) ** 2, 'asin': lambda x: 1 / math.sqrt(1 - x * x),
         'acos': lambda x: -1 / math.sqrt(1 - x * x), 'atan': lambda x: 1 / (1 + x * x), 'log10': lambda x: 1 / (x * math.log(10)), 'log1p': lambda x: 1 / (1 + x),
         'expm1': math.exp, 'sinh': math.cosh, 'cosh': math.sinh, 'tanh': lambda x: 1 - math.tanh(x) ** 2, 'erf': lambda x: 2 / math.sqrt(math.pi) * math.exp(-x * x)}


class DualRand(NumRand):
    """Vectors of numbers with their derivative to one parameter (var)."""
    var = None

    def __init__(self, params=None, arms=None, extend=0):
        base = params or (lambda k: None)

        def get(k):
            x = base(k)
            v = x if isinstance(x, list) else [float(x)] * K if x is not None else randint.draw(k[-1])
            return [Dual(a, 1.0 if k[-1] == self.var else 0.0) for a in v]
        super().__init__(get, arms, 0)

    def value(self, v):
        if isinstance(v, Const):
            return [Dual(x) for x in super().value(v)]
        return super().value(v)

    def key(self, k):
        r = super().key(k)
        return [Dual(x) if not isinstance(x, Dual) and x is not None else x for x in r]

    plain = staticmethod(lambda x: x.v)
    absolute = staticmethod(lambda x: -x if x.v < 0 else x)

    def fun(self, name, args):
        if not all(isinstance(a, list) for a in args):
            raise Undecided(name)
        if name == 'pow' and len(args) == 2:
            return self.each(lambda a, b: a ** b, *args)
        if name == 'gammaincc' and len(args) == 2:       # regularised upper incomplete gamma function
            return self.each(gammaincc, *args)
        f = randint.NUMERIC.get(name) or getattr(math, name, None)
        if name == 'cbrt':
            f = lambda a: math.copysign(abs(a) ** (1 / 3), a)
        if len(args) == 1 and name in RULES and callable(f):
            return self.each(lambda a: Dual(f(a.v), RULES[name](a.v) * a.d), *args)
        if len(args) == 1 and callable(f) and not any(a is not None and a.d for a in args[0]):
            return self.each(lambda a: Dual(f(a.v)), *args)
        raise Undecided('derivative of ' + name)

    def called(self, k):
        base = k[1].rsplit('.', 1)[1]
        if base == 'gammaincc' and len(k[3]) == 2:
            return self.fun(base, [self.key(a) for _, a in k[3]])
        return super().called(k)


def gammaincc(a, x):
    """Regularised upper incomplete gamma function and its derivative to x; its value is not needed."""
    if a.d:
        raise ValueError
    return Dual(math.sin(a.v + 3 * x.v), -math.exp(-x.v) * x.v ** (a.v - 1) / math.gamma(a.v) * x.d)


def dual(x, var, nums):
    """(values, derivatives to var) of a result."""
    cls = type('D', (DualRand,), {'var': var})
    v = vector(x, nums, cls)
    v = [Dual.of(a) if a is not None else None for a in v]
    return [a.v if a is not None else None for a in v], [a.d if a is not None else None for a in v]


def agree(a, b, tol=1e-7):
    """True, False or None (too few points) for a vector and the one it is meant to be identical with, False also where it has no values."""
    n = bad = lost = 0
    for x, y in zip(a, b):
        if x is None or y is None:
            lost += x is None and y is not None
            continue
        n += 1
        bad += abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > 1e-11
    if n < 3:
        return False if lost >= 5 else None
    return bad <= (n >= 5) * (n // 4)
