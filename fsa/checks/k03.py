"""K03: conversions and their inverses undo each other."""
from __future__ import annotations
import re

from .. import kernels as kn
from .. import randint
from ..kernels import agree
from ..nf import Undecided
from ..pool import pmap
from ..scope import is_api

def names(name):
    """Name of the inverse of a conversion, or None."""
    m = re.match(r'(.+)_to_(.+)$', name)
    if m:
        return f'{m.group(2)}_to_{m.group(1)}'
    m = re.match(r'([A-Z])2([A-Z])$', name)
    if m:
        return f'{m.group(2)}2{m.group(1)}'
    m = re.match(r'(.+)_from_(.+)$', name)
    return f'{m.group(2)}_from_{m.group(1)}' if m else None


class Conversion(kn.KernelInterp):
    """Conversions are inlined in each other."""

    def policy(self, fn, bound, st, node):
        if fn.fi.cls is None and names(fn.fi.name) and self.stack.count(fn.fi) == 0:
            return 'inline'
        return super().policy(fn, bound, st, node)


class ConversionRun(kn.KernelRun):
    interp = Conversion


def pairs(prog):
    """[(function, parameter, inverse, parameter)]"""
    out = []
    for f in sorted(prog.all_functions(), key=lambda f: f.fq):
        if f.cls is not None or not is_api(prog, f):
            continue
        n = names(f.name)
        g = prog.func(f.fq[:-len(f.name)] + n, False) if n else None
        if g is None or not is_api(prog, g):
            continue
        a, b = [p for p in f.params if p not in g.params], [p for p in g.params if p not in f.params]
        if len(a) == len(b) == 1:
            out.append((f.fq, a[0], g.fq, b[0], {}))
    for fq, swap, p in SELF:
        f = prog.func(fq, False)
        if f is not None and all(q in f.params for q in (p, *swap)):
            out.append((fq, p, fq, p, swap))
    return out


SELF = [('fluids.fittings.change_K_basis', {'D1': 'D2', 'D2': 'D1'}, 'K1')]     # its own inverse with arguments exchanged


def values(prog, fq):
    f = prog.func(fq)
    r = ConversionRun(prog, f, 20000)
    if r.over:
        return []
    out = []
    for o, res in getattr(r, 'paths', []):
        nums, other = kn.numbers(r, o)
        if not other and not nums and 'result' in res:
            out.append((o.node.lineno if o.node is not None else f.node.lineno, res['result']))
    return out


def vector(v, get):
    r = kn.NumRand(lambda k: get.get(k[-1]), None, 0)
    x = r.value(v)
    if r.forks:
        raise Undecided('alternatives')
    return x


def pair(prog, job):
    """[(line, verdict)]: does the inverse give the parameter back?"""
    f, p, g, q, swap = job
    out, inv = [], values(prog, g)
    for line, v in values(prog, f):
        got = []
        for _, w in inv:
            try:
                x = vector(v, {})
                y = vector(w, {**{b: randint.draw(a) for a, b in swap.items()}, q: x})
                got.append(agree(y, randint.draw(p)))
            except Undecided:
                got.append(None)
        out.append((line, True if True in got else None if None in got or not got else False))
    return out


CASES = [('def A_to_B(A, k):\n    return A**2*k\ndef B_to_A(B, k):\n    return (B/k)**0.5\n', True), ('def A_to_B(A, k):\n    return A**2*k\ndef B_to_A(B, k):\n    return (B*k)**0.5\n', False),
         ('def A_to_B(A):\n    return A - 273.15\ndef B_to_A(B):\n    return 273.15 + B\n', True), ('def A_to_B(A):\n    return A - 273.15\ndef B_to_A(B):\n    return 273.0 + B\n', False)]


def self_test(c):
    import os
    import tempfile
    from ..program import Program
    for body, want in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            open(d + '/fluids/__init__.py', 'w').close()
            with open(d + '/fluids/core.py', 'w') as fh:
                fh.write('__all__ = ["A_to_B", "B_to_A"]\n' + body)
            prog = Program(d)
            jobs = pairs(prog)
            got = [v for j in jobs for _, v in pair(prog, j)]
            c.self_test(len(jobs) == 2 and (all(got) if want else got == [False, False]), f'{body!r}: {got}')


def check(c, prog):
    jobs = pairs(prog)
    for job, res in zip(jobs, pmap(lambda j: pair(prog, j), jobs)):
        f, p, g, q, _ = job
        fi = prog.func(f)
        c.count('conversions' if any(v is not None for _, v in res) else 'conversions_not_decided')
        for line, v in res:
            if v is False:
                c.violation('inverse', f'{f}|{g}', f'{fi.module.rel}:{line}', f'{g.rsplit(".", 1)[1]} does not give back the {p} that {fi.name} converted')
                break
    c.floor('conversions', 20)
    self_test(c)
    c.rules = ['inverse: the formula of a conversion put into the formula of its inverse is not the argument, on any combination of their paths']
    c.explanation = ('Pairs of public functions found by name (A_to_B and B_to_A, A2B and B2A, A_from_B and B_from_A) whose results are closed formulae: the value graph of one is put in place of '
                     'the argument of the other and compared with the argument as an identity, by random interpretation.')
    c.assumptions = []
