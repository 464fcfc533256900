"""Conditions of the paths of a function: which arguments it accepts and which it rejects."""
from __future__ import annotations

from . import formulas as fm
from . import randint
from .interp import INF, MISSING, is_num
from .symbolic import key_of
from .values import vnum


class Paths:
    """accepted and rejected: conditions of the paths which return and of those which raise on purpose."""

    def __init__(self, prog, fi, budget):
        self.run = r = fm.Run(prog, fi, budget)
        self.fi = fi
        self.accepted, self.rejected, self.other = [], [], 0
        if r.over or r.coarse:
            return
        seen = set()
        for o in r.outs + r.it.raised:
            if o.kind == 'return':
                self.add(self.accepted, o)
            elif o.kind == 'raise' and o.why == 'explicit' and id(o) not in seen:
                seen.add(id(o))
                self.add(self.rejected, o)

    def add(self, to, o):
        c = self.conditions(o.st)
        c['line'] = o.node.lineno if o.node is not None else self.fi.node.lineno
        c['exc'] = o.exc
        to.append(c)

    def conditions(self, st):
        """{'p': facts of arguments, 'b': intervals, 't': truths, 'r': relations, 'u': conditions without a formula}"""
        c = {'p': [], 'b': [], 't': [], 'r': [], 'u': 0}
        for n, f in st.facts.items():
            k = key_of(n)
            p = k[-1] if k and k[0] == 'param' and k[1] == self.fi.fq else None
            if p is not None:
                if f.eq is not MISSING:
                    c['p'].append((p, 'is', f.eq))
                    continue
                for x in f.ne:
                    if x is None or isinstance(x, (str, int, float)):
                        c['p'].append((p, 'not', x))
                if f.truth is not None and not (f.lo == f.hi == 0):
                    c['p'].append((p, 'truth', f.truth))
            plain = f.lo != -INF or f.hi != INF
            if not plain and (p is not None or f.truth is None and f.eq is MISSING and not f.ne):
                continue
            if k and k[0] == 'startswith':
                c['u'] += 1
                continue
            v = self.run.condition(n)
            if v is None:
                if f.ne == {None} and not plain and f.truth is None and f.eq is MISSING:
                    continue
                c['u'] += 1
                continue
            if plain:
                c['b'].append((v, f.lo, f.loo, f.hi, f.hio))
            elif p is None and f.truth is not None:
                c['t'].append((v, f.truth))
            elif p is None and (f.eq is not MISSING or f.ne - {None}):
                c['u'] += 1
        for (a, b), r in st.rel.items():
            if a < b and len(r) < 3:
                x, y = self.run.condition(a), self.run.condition(b)
                if x is None or y is None:
                    c['u'] += 1
                else:
                    c['r'].append((x, y, ''.join(sorted(r))))
        return c


FLIP = {'<': '>', '>': '<', '=': '='}


def clash(x, y):
    """Facts of one argument: x excludes y."""
    if x[0] == 'is' and y[0] == 'is':
        return x[1] != y[1] or type(x[1]) is not type(y[1]) and not (is_num(x[1]) and is_num(y[1]))
    if x[0] == 'is' and y[0] == 'not':
        return x[1] == y[1] and (x[1] is None) == (y[1] is None)
    if x[0] == 'is' and y[0] == 'truth':
        return bool(x[1]) != y[1]
    if x[0] == 'truth' and y[0] == 'truth':
        return x[1] != y[1]
    return False


def exclude(a, b):
    """One condition of a contradicts one of b."""
    for p, *x in a['p']:
        for q, *y in b['p']:
            if p == q and (clash(x, y) or clash(y, x)):
                return True
    for v, lo, loo, hi, hio in a['b']:
        for w, l2, lo2, h2, ho2 in b['b']:
            if (hi < l2 or h2 < lo or hi == l2 and (hio or lo2) or h2 == lo and (loo or ho2)) and fm.same(v, w):
                return True
    for v, t in a['t']:
        for w, u in b['t']:
            if t != u and fm.same(v, w):
                return True
    for x, y, r in a['r']:
        for z, w, s in b['r']:
            if not set(r) & set(s) and fm.same(x, z) and fm.same(y, w):
                return True
            if not {FLIP[q] for q in r} & set(s) and fm.same(x, w) and fm.same(y, z):
                return True
    # an argument equal to a number and the number excluded, omitted or of another type
    for c, d in ((a, b), (b, a)):
        for p, *x in c['p']:
            if x[0] == 'is' and (x[1] is None or isinstance(x[1], str)):
                if any(fm.same(randint.draw(p), v) for v, *_ in d['b']):
                    return True
            if x[0] == 'not' and is_num(x[1]) and any(lo == hi == x[1] and fm.same(randint.draw(p), v) for v, lo, _, hi, _ in d['b']):
                return True
    return False


def vectors(c):
    for v, *_ in c['b']:
        yield v
    for v, _ in c['t']:
        yield v
    for x, y, _ in c['r']:
        yield x
        yield y


def known(c, vecs):
    return c['u'] == 0 and all(any(fm.same(v, w) for w in vecs) for v in vectors(c))
