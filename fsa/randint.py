"""Random interpretation of value numbers: every value number gets a vector of reals, parameters and uninterpreted
functions drawn once and for all. Two formulae which are identities get the same vector, others differ (Schwartz-Zippel)."""
from __future__ import annotations
import hashlib
import itertools
import math

from .interp import is_num
from .nf import NUMERIC, Undecided
from .symbolic import MATHS, key_of
from .values import Const, Sym

K = 12
ARMS = 24
BIG = 1e150


def seed(*x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big') / 2.0**64


def draw(name):
    """K values of a parameter, some below one and some above."""
    out = []
    large = isinstance(name, str) and (name.startswith(('Re', 'Ga', 'Ar', 'We')) or name[0] == 'P' and name[:2] != 'Pr')
    turn = int(2 * seed('turn', name))
    for i in range(K):
        u = seed('p', name, i)
        if i % 6 > 2:   # one value of the upper and one of the lower half of the wide ranges
            u = (u + (i // 6 + turn) % 2) / 2
        out.append((0.07 + 0.85 * u, 0.4 * 6.0**u, 10.0 ** (4 * u - 2), 10.0 ** (3 + 3 * u) if large else 10.0 ** (-3 * u),
                    10.0 ** (2 + 4 * u) if large else 10.0 ** (-6 * u), 10.0 ** (3 * u))[i % 6])
    return out


def squash(x):
    return math.asinh(x * 1e3)


class Rand:
    """params(key of a parameter) gives a number, a vector or None (draw)."""

    def __init__(self, params=None, arms=None, extend=False):
        # extend: 1, functions are extended beyond their domains; 2, of small arguments
        self.params = params or (lambda k: None)
        self.memo, self.extend = {}, extend
        self.arms = arms or {}      # min/max/abs value number -> chosen arm
        self.forks = {}             # min/max/abs value number met -> number of arms
        self.calls = set()
        self.used = set()

    def value(self, v):
        if isinstance(v, Const):
            if isinstance(v.v, (str, bool)):
                return draw(('constant', v.v))
            if not is_num(v.v) or isinstance(v.v, complex):
                raise Undecided('not a number')
            return [float(v.v)] * K
        if isinstance(v, Sym):
            return self.vn(v.vn)
        raise Undecided('not a scalar')

    def key(self, k):
        if k[0] == 's':
            return self.vn(k[1])
        if k[0] == 'c':
            if isinstance(k[1], complex):
                raise Undecided('complex')
            if not is_num(k[1]):
                raise Undecided('not a number')
            return [float(k[1])] * K
        raise Undecided(k[0])

    def vn(self, n):
        r = self.memo.get(n)
        if r is None:
            try:
                r = self._vn(n)
            except Undecided as e:
                r = e
            except RecursionError:
                r = Undecided('too deep')
            self.memo[n] = r
        if isinstance(r, Undecided):
            raise r
        return r

    def each(self, f, *vs):
        out = []
        for a in zip(*vs):
            if None in a:
                out.append(None)
                continue
            try:
                x = f(*a)
                if isinstance(x, complex):
                    x = self.beyond(f, a)
                if x is not None and (x != x or abs(x) > BIG):
                    x = None
            except (ZeroDivisionError, OverflowError, TypeError):
                x = None
            except ValueError:
                x = self.beyond(f, a)
            out.append(x)
        return out

    def beyond(self, f, a):
        """Roots and logarithms of negative numbers: those of the absolute value, where asked for."""
        if not self.extend:
            return None
        for b in (abs(a[0]), 1.0 / a[0] if a[0] else 0.0, 1.0 / abs(a[0]) if a[0] else 0.0):  # inverse sines of ratios above one: of their reciprocal
            try:
                x = f(b, *a[1:])
                if not isinstance(x, complex):
                    return x
            except (ValueError, ZeroDivisionError, OverflowError):
                pass
        return None

    def uninterpreted(self, tag, args):
        """A smooth function of the numeric arguments, fixed by tag and the other arguments."""
        nums = [(i, a) for i, a in enumerate(args) if isinstance(a, list)]
        rest = tuple((i, a) for i, a in enumerate(args) if not isinstance(a, list))
        s = seed('u', tag, rest)
        w = [1.0 + seed('w', tag, rest, i) for i, _ in nums]

        def f(*xs):
            t = 6.283 * s
            for c, x in zip(w, xs):
                t += c * squash(x)
            return 1.3 + math.sin(t)
        if not nums:
            return [f()] * K
        return self.each(f, *[a for _, a in nums])

    def symmetric(self, tag, args):
        s = seed('m', tag)

        def f(*xs):
            return 1.1 + sum(math.sin((1.3 + s) * squash(x)) for x in xs) / len(xs)
        return self.each(f, *args)

    def tag(self, k):
        """Argument of an uninterpreted call: a vector or a hashable tag."""
        if k[0] == 's' or k[0] == 'c' and is_num(k[1]):
            return self.key(k)
        if k[0] == 't':
            its = [self.tag(x) for x in k[1:]]
            if any(isinstance(x, list) for x in its):
                return self.uninterpreted('tuple', its)
            return ('t',) + tuple(its)
        if k[0] == 'fn':
            return self.alternatives(k[1], k[2:])
        if k[0] == 'le':
            return self.uninterpreted('list of', [self.tag(k[1])])
        return k

    def alternatives(self, first, keys):
        """A function value: the set of what its paths return. Its own joins, min and max are alternatives too."""
        outs = []
        todo = [(x, {}) for x in keys]
        steps = 0
        while todo:
            x, arms = todo.pop()
            steps += 1
            if steps > 200:
                raise Undecided('too many alternatives')
            q = Rand(self.params, {**self.arms, **arms}, self.extend)
            v = q.tag(x)
            if not isinstance(v, list):
                raise Undecided('function')
            inner = [n for n in q.forks if n not in q.arms]
            local = [n for n in inner if not isinstance(n, tuple) or n[1] > first]
            if local:
                n = min(local, key=repr)
                todo += [(x, {**arms, n: a}) for a in range(q.forks[n])]
                continue
            self.forks.update((n, c) for n, c in q.forks.items() if n not in arms)
            self.calls |= q.calls
            self.used |= q.used
            if not any(same(v, u, 1e-9) for u in outs):
                outs.append(v)
        return outs[0] if len(outs) == 1 else self.symmetric('fn', outs)

    def arms_of(self, n, vals, sym):
        """One of the alternatives vals (chosen from outside)."""
        uniq = []
        for v in vals:
            if not any(same(v, u, 1e-9) for u in uniq):
                uniq.append(v)
        if len(uniq) == 1:
            return uniq[0]
        self.forks[n] = len(uniq)
        a = self.arms.get(n, 0)
        if a == 'all':
            return self.symmetric(sym, uniq)
        return uniq[min(a, len(uniq) - 1)]

    def _vn(self, n):
        k = key_of(n)
        if k is None:
            raise Undecided('no formula')
        op = k[0]
        if op == 'param':
            self.used.add(k[-1])
            v = self.params(k)
            if v is None:
                return draw(k[-1]) if self.extend != 2 else [x * 1e-3 if x > 0.1 else x for x in draw(k[-1])]
            return v if isinstance(v, list) else [float(v)] * K
        if op == 'root':
            return self.params(k) or draw(k)
        if op == 'arg':
            return draw(k)
        if op == 'b':
            x, y = self.key(k[2]), self.key(k[3])
            f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
                 '**': lambda a, b: a ** b}.get(k[1])
            return self.each(f, x, y) if f else self.uninterpreted('op' + k[1], [x, y])
        if op == 'f':
            return self.fun(k[1], [self.key(a) for a in k[2:]])
        if op == 'u-':
            return self.each(lambda a: -a, self.vn(k[1]))
        if op == 'abs':
            x = self.vn(k[1])
            return self.arms_of(n, [x, self.each(lambda a: -a, x)], 'abs')
        if op == 'float':
            return self.vn(k[1])
        if op == 'minmax':
            return self.arms_of(n, [self.key(a) for a in k[2:]], 'max' if k[1] else 'min')
        if op == 'phi':
            x, y = self.key(k[2]), self.key(k[3])
            if same(x, y, 1e-9):
                return x
            j = ('phi', k[1])
            self.forks[j] = 2
            a = self.arms.get(j, 0)
            return self.symmetric('phi', [x, y]) if a == 'all' else (x, y)[a]
        if op == 'call':
            return self.called(k)
        if op == 'attr' and k[2] == 'real':
            return self.vn(k[1])
        if op in ('attr', 'len', 'selfattr', 'modvar'):
            if op in ('modvar', 'selfattr'):
                return draw(k)
            return self.uninterpreted(k[0], [self.vn(k[1])] + list(k[2:]))
        if op in ('sub', 'item'):
            b = key_of(k[1])
            i = k[2] if op == 'item' else k[2][1] if k[2][0] == 'c' else None
            if b and b[0] == 'call' and b[2] == 0 and is_num(i):
                return self.called(b[:2] + (int(i),) + b[3:])
        if op == 'sub':
            return self.uninterpreted(k[0], [self.vn(k[1]), self.tag(k[2])])
        if op == 'x':
            return self.fun(k[1], [self.tag(a) if not isinstance(a[1], tuple) or a[0] in ('t', 'le', 'fn') else self.uninterpreted(a[0], [self.tag(a[1])]) for a in k[2:]])
        if op == 'elem':
            return self.uninterpreted('elem', [k[1], self.tag(k[2])])
        if op == 'item':
            return self.uninterpreted('sub', [self.vn(k[1]), [float(k[2])] * K])
        raise Undecided(op)

    def called(self, k):
        base = k[1].rsplit('.', 1)[1]
        if k[1].startswith('fluids.numerics.') and base in MATHS and len(k[3]) == 1:
            return self.fun(MATHS[base], [self.key(k[3][0][1])])
        self.calls.add(k[1])
        ps = [p for p, _ in k[3]]
        return self.uninterpreted((k[1].rsplit('.', 1)[-1], k[2], tuple(ps)), [self.tag(a) for _, a in k[3]])

    def fun(self, name, args):
        if not all(isinstance(a, list) for a in args):
            return self.uninterpreted('math.' + name, args)
        if name == 'pow' and len(args) == 2:
            return self.each(lambda a, b: a ** b, *args)
        if name == 'log' and len(args) == 2:
            return self.each(lambda a, b: math.log(a) / math.log(b), *args)
        if name == 'hypot':
            return self.each(math.hypot, *args)
        if name in ('atan2', 'fmod'):
            return self.each(getattr(math, name), *args)
        if name == 'cbrt':
            return self.each(lambda a: math.copysign(abs(a) ** (1 / 3), a), *args)
        if len(args) == 1:
            f = NUMERIC.get(name) or getattr(math, name, None)
            if callable(f) and name not in ('ceil', 'floor', 'trunc', 'isnan', 'isinf', 'lgamma', 'fsum', 'frexp', 'modf', 'factorial', 'comb', 'gcd', 'perm', 'lcm', 'isqrt', 'ldexp', 'isfinite'):
                return self.each(f, *args)
        return self.uninterpreted('math.' + name, args)


def same(x, y, tol=1e-7, need=1):
    """Equal wherever both are defined, and defined together in enough points."""
    n = 0
    for a, b in zip(x, y):
        if a is None or b is None:
            continue
        if abs(a - b) > tol * max(abs(a), abs(b)) and abs(a - b) > 1e-13:
            return False
        n += 1
    return n >= need or (all(a is None for a in x) and all(b is None for b in y))


def defined(x):
    return sum(a is not None for a in x)


def vectors(v, params=None, max_arms=ARMS, extend=False, collect=None):
    """The vectors of a value, one per choice of the arms of min, max and abs; (list, Rand). Raises Undecided."""
    r = Rand(params, None, extend)
    base = r.value(v)
    if collect is not None:
        collect.extend(r.memo.values())
    if not r.forks:
        return [base], r
    # collect every fork reachable under any choice
    seen = dict(r.forks)
    todo = [{}]
    out = []
    done = set()
    while todo:
        arms = todo.pop()
        q = Rand(params, arms, extend)
        x = q.value(v)
        if collect is not None:
            collect.extend(q.memo.values())
        new = [n for n in q.forks if n not in arms]
        if new:
            n = min(new, key=repr)
            done.add(tuple(sorted(arms.items(), key=repr)))
            for a in range(q.forks[n]):
                todo.append({**arms, n: a})
            if len(todo) + len(out) > max_arms or len(done) > 6 * max_arms:
                q = Rand(params, AllArms(), extend)
                return [q.value(v)], q
            continue
        r.used |= q.used
        r.calls |= q.calls
        if not any(same(x, y, 1e-9, 1) for y in out):
            out.append(x)
    return out, r


class AllArms(dict):
    def get(self, n, d=None):
        return 'all'
