"""Equations of the documentation against the values a function computes, by random interpretation."""
from __future__ import annotations
import ast
import bisect
import itertools
import math
import re

from . import latex, randint
from .docmatch import ALIAS, CONSTS, param_for
from .formulas import sig
from .interp import is_num
from .nf import Undecided
from .randint import K

MAXFREE = 400
FN = {'log': math.log, 'log10': math.log10, 'log2': math.log2, 'exp': math.exp, 'sqrt': math.sqrt, 'abs': abs, 'cot': lambda x: 1 / math.tan(x), 'sec': lambda x: 1 / math.cos(x),
      'csc': lambda x: 1 / math.sin(x), 'sgn': lambda x: math.copysign(1.0, x)}


class No(Exception):
    pass


def each(f, *vs):
    out = []
    for a in zip(*vs):
        try:
            x = None if None in a else f(*a)
            if isinstance(x, complex) or x is not None and (x != x or abs(x) > 1e150):
                x = None
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            x = None
        out.append(x)
    return out


def near(x, y, tol=1e-5):
    """Equal where both are defined, in enough places, and not everywhere zero."""
    n = bad = 0
    for a, b in zip(x, y):
        if a is None or b is None:
            continue
        n += 1
        if abs(a - b) > tol * max(abs(a), abs(b)):
            bad += 1
            if bad > 1:
                return False
    return n >= 3 and (not bad or n >= 6)


def numbers(e):
    if e[0] == 'num':
        yield e[1]
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from numbers(x)


def symbols(e):
    if e[0] == 'sym':
        yield e[1]
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from symbols(x)


def ops(e):
    return (e[0] in ('+', '-', '*', '/', '^', 'fn')) + sum(ops(x) for x in e[1:] if isinstance(x, tuple))


class Table:
    """Vectors indexed for lookup up to rounding."""

    def __init__(self, vecs):
        self.vecs, self.by = [], {}
        for v in vecs:
            if randint.defined(v) < 3:
                continue
            if all(x is None or x == v[0] for x in v) and v[0] is not None:
                continue    # constants
            k = tuple(sig(x, 7) for x in v)
            if k in self.by or len(self.vecs) > 3000:
                continue
            self.by[k] = 1
            self.vecs.append(v)
        self.one = [sorted(((v[i], j) for j, v in enumerate(self.vecs) if v[i] is not None), key=lambda t: t[0]) for i in range(K)]
        self.key = [[t[0] for t in x] for x in self.one]

    def at(self, i, x):
        """Vectors with value x at point i."""
        d = abs(x) * 1e-5
        lo, hi = bisect.bisect_left(self.key[i], x - d), bisect.bisect_right(self.key[i], x + d)
        return [self.vecs[j] for _, j in self.one[i][lo:hi]]

    def __contains__(self, w):
        tried = 0
        for i, x in enumerate(w):
            if x is None:
                continue
            if any(near(v, w) for v in self.at(i, x)):
                return True
            tried += 1
            if tried >= 3:
                return False
        return False


class Doc:
    def __init__(self, fi):
        doc = ast.get_docstring(fi.node) or ''
        self.fi, self.eqs, self.bad = fi, [], 0
        for text, sides in latex.equations(doc, latex.NAMES):
            if isinstance(sides, latex.Bad):
                self.bad += 1
            elif sides:
                self.eqs.append((' '.join(text.split()), sides))
        self.defs = {}
        for i, (text, sides) in enumerate(self.eqs):
            for k, s in enumerate(sides):
                if s[0] == 'sym':
                    for j, r in enumerate(sides):
                        if j != k and r != s:
                            self.defs.setdefault(s[1], []).append((i, r))
                elif s[0] == '^' and s[1][0] == 'sym' and s[2][0] == 'num':
                    for j, r in enumerate(sides):
                        if j != k:
                            self.defs.setdefault(s[1][1], []).append((i, ('^', r, ('/', ('num', 1), s[2]))))
                elif s[0] == '/' and s[1] == ('num', 1) and s[2][0] == 'sym':
                    for j, r in enumerate(sides):
                        if j != k:
                            self.defs.setdefault(s[2][1], []).append((i, ('/', ('num', 1), r)))


def plain(s):
    return re.sub(r"[^a-z0-9]", '', s.lower())


class Find:
    """Which equations of a Doc hold among the values of one path; env gives symbols nothing else defines."""

    def __init__(self, doc, nums, table, ln, names=None):
        self.doc, self.nums, self.table, self.ln = doc, nums, table, ln
        self.params = doc.fi.params
        self.names = names or {}    # plain name of a local variable -> vectors
        self.steps = 0

    def param(self, s):
        ps = self.params
        if 'eD' in ps and 'D' not in ps and 'roughness' not in ps:
            d = randint.draw('D')
            if s in ('epsilon', 'varepsilon'):
                return each(lambda a, b: a * b, self.par('eD'), d)
            if s == 'D':
                return d
        p = param_for(s, ps, {})
        return None if p is None else self.par(p)

    def par(self, p):
        return [float(self.nums[p])] * K if p in self.nums else randint.draw(p)

    def eval(self, e, env, ctx):
        """Values of an expression (one per way of reading the symbols)."""
        self.steps += 1
        if self.steps > 200000:
            raise No
        k = e[0]
        if k == 'num':
            return [[float(e[1])] * K]
        if k == 'pi':
            return [[math.pi] * K]
        if k == 'sym':
            return self.sym(e[1], env, ctx)
        if k == 'paren':
            return self.eval(e[1], env, ctx)
        if k == 'neg':
            return [each(lambda a: -a, v) for v in self.eval(e[1], env, ctx)]
        if k == 'fn':
            name = 'log' if e[1] == 'log10' and self.ln else e[1]
            if name in ('min', 'max'):
                f = min if name == 'min' else max
            else:
                f = FN.get(name) or getattr(math, name, None)
            if f is None:
                raise No
            return [each(f, *c) for c in itertools.islice(itertools.product(*[self.eval(a, env, ctx) for a in e[2:]]), 12)]
        f = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '^': lambda a, b: a ** b}.get(k)
        if f is None:
            raise No
        return [each(f, x, y) for x, y in itertools.islice(itertools.product(self.eval(e[1], env, ctx), self.eval(e[2], env, ctx)), 12)]

    def sym(self, s, env, ctx):
        if s in env:
            return [env[s]]
        p = self.param(s)
        out = [] if p is None else [p]
        if p is not None and ('angle' in (param_for(s, self.params, {}) or '') or s in ('alpha', 'theta', 'phi', 'beta')):
            out.append(each(math.radians, p))
        if p is not None and plain(s) == plain(param_for(s, self.params, {}) or ''):
            return out
        if s not in ctx:
            for i, r in self.doc.defs.get(s, ()):
                if ('eq', i) in ctx:
                    continue
                try:
                    out += self.eval(r, env, ctx | {s, ('eq', i)})
                except No:
                    pass
        if out:
            return out[:6]
        out = []
        if s in CONSTS:
            out.append([CONSTS[s]] * K)
        if s in ('R', 'r') and 'D' in self.params:
            out.append(each(lambda a: a / 2, self.par('D')))
        if out:
            return out
        raise No

    def free(self, e, i):
        """Symbols of an expression which nothing gives."""
        out = set()
        for s in symbols(e):
            try:
                self.sym(s, {}, frozenset([('eq', i)]))
            except No:
                out.add(s)
        return out

    def given(self, s):
        """Candidate vectors of a free symbol: local variables of its name."""
        out = list(self.names.get(plain(s), ()))
        for pre in ('delta', 'lambda'):
            if plain(s).startswith(pre):
                out += self.names.get(pre[0] + plain(s)[5:], ())
        return out

    def others(self, sides):
        """Vectors of the parameters which no symbol of the equation names; angles also in radians."""
        used = {param_for(s, self.params, {}) for e in sides for s in symbols(e)}
        out = [self.par(p) for p in self.params if p not in used]
        return out + [each(math.radians, self.par(p)) for p in self.params if 'angle' in p or p in ('theta', 'alpha')]

    def holds(self, i):
        """{symbol: vector} with which equation i holds (on some path), or None."""
        text, sides = self.doc.eqs[i]
        ctx = frozenset([('eq', i)])
        serious = any(n not in (0, 1, 2, 3, 4) for s in sides for n in numbers(s))
        for a in range(len(sides)):
            for b in range(len(sides)):
                if a == b or ops(sides[b]) < 1:
                    continue
                fr = sorted(self.free(sides[b], i) - {'epsilon'} - set(symbols(sides[a])))
                if len(fr) > 6:
                    continue
                opts = [self.given(s) for s in fr]
                envs = [dict(zip(fr, c)) for c in itertools.islice(itertools.product(*opts), 64)]
                if serious and 1 <= len(fr) <= 3:
                    ps = self.others(sides)
                    envs += [dict(zip(fr, c)) for c in itertools.islice(itertools.product(*[o + ps for o in opts]), 600)]
                if len(fr) == 1 and serious:
                    envs += [{fr[0]: c} for c in self.table.vecs[:MAXFREE]]
                for env in envs:
                    try:
                        if self.test(i, a, b, env):
                            return a, b, env
                    except No:
                        break
        return None

    def test(self, i, a, b, env):
        """Does side a equal side b, the unknown of side a being some value of the path?"""
        text, sides = self.doc.eqs[i]
        ctx = frozenset([('eq', i)])
        l, r = sides[a], sides[b]
        if not set(symbols(r)):
            return False
        w = l
        while w[0] == 'paren' or w[0] == '^' and not set(symbols(w[2])):
            w = w[1]
        inr = set(symbols(r))
        if w[0] == 'sym' and w[1] not in inr:
            for v in self.eval(r, env, ctx):
                if any(near(v, c) for c in env.values()):
                    continue
                if w is l or w[1][:2] in ('f_', 'f'):
                    for x in [v, each(lambda q: 4 * q, v)] if w[1] in ('f', 'f_f', 'f_F') else [v]:
                        if x in self.table:
                            return True
                if w is not l:
                    if v in self.table:
                        return True
                    p = self.eval(l[2], env, ctx)[0][0] if l[0] == '^' else None
                    if p and each(lambda q: q ** (1 / p), v) in self.table:
                        return True
            return False
        both = sorted((self.free(l, i) | set(symbols(l)) - {s for s in symbols(l) if self.param(s) is not None} | self.free(r, i)) - set(env))
        both = [s for s in both if s not in CONSTS or s in ('f',)]
        unknown = both if len(both) == 1 else sorted(set(symbols(l))) if not both else []
        for s in unknown if ops(l) + ops(r) >= 3 else ():
            for c in self.table.vecs[:MAXFREE]:
                for e2 in ({**env, s: c}, {**env, s: each(lambda q: q / 4, c)}) if s in ('f_f', 'f_F', 'f') else ({**env, s: c},):
                    x, y = self.eval(l, e2, ctx), self.eval(r, e2, ctx)
                    if any(near(p, q) or near(each(abs, p), each(abs, q)) for p in x for q in y):
                        return True
        return False


def nodes(val, nums, fq):
    """Vectors of every value on the way to a result."""
    got = []
    get = lambda k: nums.get(k[-1]) if k[1] == fq else None
    try:
        randint.vectors(val, get, collect=got)
    except Undecided:
        pass
    return [v for v in got if isinstance(v, list)]


def local_names(run):
    """{plain name: vectors} of the local variables at the returns."""
    out = {}
    for o in run.outs:
        for n, v in (o.env or {}).items():
            if o.kind != 'return' or n in run.fi.params or is_num(getattr(v, 'v', None)):
                continue
            try:
                vs, _ = randint.vectors(v, extend=True)
            except Undecided:
                continue
            for w in vs:
                if randint.defined(w) >= 3 and len(out.get(plain(n), ())) < 6 and not any(near(w, x) for x in out.get(plain(n), ())):
                    out.setdefault(plain(n), []).append(w)
    return out


def tables(run):
    """[(nums, Table)] of the values of the paths, for each choice of arguments which are numbers."""
    groups = {}
    for r in run.rows:
        groups.setdefault(tuple(sorted(r.nums.items())), []).append(r)
    out = []
    for nums, rows in sorted(groups.items(), key=lambda t: len(t[0])):
        vs = []
        for r in rows:
            if not is_num(getattr(r.val, 'v', None)):
                vs += nodes(r.val, dict(nums), run.fi.fq)
        for x, y, side, ctx, line in run.cuts:
            vs.append(x)
            if isinstance(y, list):
                vs.append(y)
        out.append((dict(nums), Table(vs)))
    return out


def search(run, doc):
    """{text: (nums, ln, a, b, env)} of the equations which hold among the values of some path."""
    out = {}
    names = local_names(run)
    for nums, t in tables(run):
        for ln in (False, True):
            f = Find(doc, nums, t, ln, names)
            for i, (text, sides) in enumerate(doc.eqs):
                if text not in out:
                    f.steps = 0
                    h = f.holds(i)
                    if h:
                        out[text] = (nums, ln) + h
    return out
