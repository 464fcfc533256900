"""K02: functions given with their derivatives or integrals agree with them."""
from __future__ import annotations
import re

from .. import kernels as kn
from .. import randint
from ..kernels import agree
from ..nf import Undecided
from ..pool import pmap

# function, sizes of list arguments, variables, result, [results which are its derivatives to them]
STATED = [
    ('fluids.packed_tower._Stichlmair_flood_f_and_jac', {'inputs': (2,)}, ('inputs.0', 'inputs.1'), 'result.0.0', ('result.1.0.0', 'result.1.0.1')),
    ('fluids.packed_tower._Stichlmair_flood_f_and_jac', {'inputs': (2,)}, ('inputs.0', 'inputs.1'), 'result.0.1', ('result.1.1.0', 'result.1.1.1')),
    ('fluids.geometry.circle_segment_area_inner', {}, ('h',), 'result.0', ('result.1',)),
]


def line(a, x, which):
    return a[f'T{which}_value'] + a[f'T{which}_slope'] * (x - a[f'T{which}'])


# function, list arguments, variable, {name: derivative}: the derivative on every path is one of these, and each occurs
PIECES = [
    ('fluids.numerics.poly_fit_integral_value', {'int_coeffs': (4,)}, 'T', [
        lambda a: line(a, a['T'], 'min'), lambda a: line(a, a['T'], 'max'), lambda a: sum(c * (3 - i) * a['T'] ** (2 - i) for i, c in enumerate(a['int_coeffs'][:3]))]),
    ('fluids.numerics.poly_fit_integral_over_T_value', {'T_int_T_coeffs': (4,)}, 'T', [
        lambda a: line(a, a['T'], 'min') / a['T'], lambda a: line(a, a['T'], 'max') / a['T'],
        lambda a: sum(c * (3 - i) * a['T'] ** (2 - i) for i, c in enumerate(a['T_int_T_coeffs'][:3])) + a['poly_fit_log_coeff'] / a['T']]),
]


def pieces(prog, job):
    fq, shapes, var, want = job
    f = prog.func(fq, False)
    if f is None or any(p not in f.params for p in shapes):
        return []
    run = kn.run(prog, f, shapes)
    if run.over:
        return []
    args = [{p: [randint.draw(f'{p}.{i}')[j] for i in range(shapes[p][0])] if p in shapes else randint.draw(p)[j] for p in f.params} for j in range(randint.K)]
    try:
        us = [[w(a) for a in args] for w in want]
    except KeyError:
        return []
    vs = []
    for o, out in run.paths:
        nums, other = kn.numbers(run, o)
        if other or nums or 'result' not in out:
            continue
        vs.append((o.node.lineno if o.node is not None else f.node.lineno, derivative(out['result'], var, nums)))
    return matched(vs, us) + matched([(f.node.lineno, u) for u in us], [v for _, v in vs])


class Density(kn.KernelInterp):
    def policy(self, fn, bound, st, node):
        if fn.fi.cls is None and fn.fi.name.startswith(('pdf_', 'cdf_')) and self.stack.count(fn.fi) == 0:
            return 'inline'
        return super().policy(fn, bound, st, node)


class DensityRun(kn.KernelRun):
    interp = Density


def paths(prog, f):
    """[(numbers given, value)] of the paths of a function with one result."""
    r = DensityRun(prog, f, 20000)
    out = []
    for o, res in getattr(r, 'paths', []):
        nums, other = kn.numbers(r, o)
        if other:
            return None
        out.append((nums, res.get('result'), o.node.lineno if o.node is not None else f.node.lineno))
    return None if r.over or not out else out


def derivative(v, var, nums):
    try:
        return kn.dual(v, var, nums)[1]
    except Undecided:
        return None


def plain(v, nums):
    try:
        return kn.vector(v, nums)
    except Undecided:
        return None


def matched(vs, us):
    """True, False or None: is the vector of each of vs one of us? [(line, verdict)]"""
    out = []
    for line, v in vs:
        if v is None:
            out.append((line, None))
            continue
        got = [agree(v, u) if u is not None else None for u in us]
        out.append((line, True if True in got else None if None in got or not got else False))
    return out


def pair(prog, job):
    """Verdicts on a density and a cumulative (or moment) function."""
    kind, d, c = job
    fd, fc = prog.func(d, False), prog.func(c, False)
    if fd is None or fc is None:
        return []
    pd, pc = paths(prog, fd), paths(prog, fc)
    if pd is None or pc is None:
        return []
    if kind == 'cumulative':
        ders = [(ln, derivative(v, 'd', nums)) for nums, v, ln in pc]
        dens = [(ln, plain(v, nums)) for nums, v, ln in pd]
        return matched(ders, [v for _, v in dens]) + matched(dens, [v for _, v in ders])
    res = []
    for nums, v, ln in pc:
        der = derivative(v, 'd', nums)
        if der is None or all(x in (0.0, None) for x in der):
            continue
        n = [float(nums['n'])] * randint.K if 'n' in nums else randint.draw('n')
        ds = randint.draw('d')
        us = []
        for m, u, _ in pd:
            w = plain(u, {**m, **{k: x for k, x in nums.items() if k != 'n'}})
            us.append(None if w is None else [None if x is None else x * a ** b for x, a, b in zip(w, ds, n)])
        res += matched([(ln, der)], us)
    return res


def stated(prog, job):
    fq, shapes, vs, base, ders = job
    f = prog.func(fq, False)
    if f is None or any(p not in f.params for p in shapes):
        return []
    run = kn.run(prog, f, shapes)
    res = []
    if run.over:
        return res
    for o, out in run.paths:
        nums, other = kn.numbers(run, o)
        if other or base not in out:
            continue
        for v, d in zip(vs, ders):
            if d not in out:
                continue
            a, b = derivative(out[base], v, nums), plain(out[d], nums)
            res.append((o.node.lineno if o.node is not None else f.node.lineno, None if a is None or b is None else agree(a, b, 1e-6)))
    return res


def densities(prog):
    """(kind, density, function) of functions and of methods."""
    out = []
    for fq in sorted(f.fq for f in prog.all_functions()):
        m = re.match(r'(fluids\.particle_size_distribution\.(?:\w+\.)?_?)pdf(_\w+)?$', fq)
        if not m:
            continue
        tail = m.group(2) or ''
        if tail.endswith('_basis_integral') or tail.endswith('_definite'):
            continue
        for kind, other in (('cumulative', m.group(1) + 'cdf' + tail), ('moment', m.group(1) + 'pdf' + tail + '_basis_integral')):
            if prog.func(other, False) is not None:
                out.append((kind, fq, other))
    return out


CASES = [
    ('import math\ndef pdf_f(d, k):\n    return k*math.exp(-k*d)\ndef cdf_f(d, k):\n    return 1.0 - math.exp(-k*d)\n', True),
    ('import math\ndef pdf_f(d, k):\n    return k*math.exp(-k*d)\ndef cdf_f(d, k):\n    return 1.0 - k*math.exp(-k*d)\n', False),
    ('def pdf_f(d, k):\n    if d > k:\n        return 0.0\n    return 2.0*d/k**2\ndef cdf_f(d, k):\n    if d > k:\n        return 1.0\n    return (d/k)**2\n', True),
    ('def pdf_f(d, k):\n    if d > k:\n        return 0.0\n    return 2.0*d/k**2\ndef cdf_f(d, k):\n    if d > k:\n        return 1.0\n    return (d/k)**2.5\n', False),
]


def self_test(c):
    import os
    import tempfile
    from ..program import Program
    for body, want in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            open(d + '/fluids/__init__.py', 'w').close()
            with open(d + '/fluids/particle_size_distribution.py', 'w') as fh:
                fh.write(body)
            prog = Program(d)
            jobs = densities(prog)
            got = [v for j in jobs for _, v in pair(prog, j)]
            c.self_test(len(jobs) == 1 and bool(got) and (all(got) if want else False in got), f'{body!r}: {got}')


def check(c, prog):
    jobs = densities(prog)
    for job, res in zip(jobs, pmap(lambda j: pair(prog, j), jobs)):
        kind, d, f = job
        fi = prog.func(f)
        decided = [v for _, v in res if v is not None]
        c.count('pairs' if decided else 'pairs_not_decided')
        for line, v in res:
            c.count('paths_undecided' if v is None else 'paths')
            if v is False:
                what = 'its derivative to d is not the density' if kind == 'cumulative' else 'its derivative to d is not d**n times the density'
                c.violation(kind, f'{f}|{d.rsplit(".", 1)[1]}', f'{fi.module.rel}:{line}', f'{fi.qualname} and {d.split(".", 2)[2]}: {what}')
                break
    for job, res in zip(STATED, pmap(lambda j: stated(prog, j), STATED)):
        fi = prog.func(job[0])
        for line, v in res:
            c.count('derivatives_undecided' if v is None else 'derivatives')
            if v is False:
                c.violation('derivative', f'{job[0]}|{job[3]}', f'{fi.module.rel}:{line}', f'{fi.name}: a derivative it returns is not the derivative of {job[3]}')
    for job, res in zip(PIECES, pmap(lambda j: pieces(prog, j), PIECES)):
        fi = prog.func(job[0], False)
        for ln, v in res:
            c.count('derivatives_undecided' if v is None else 'derivatives')
            if v is False:
                c.violation('piece', job[0], f'{fi.module.rel}:{ln}', f'{fi.name}: the derivative to {job[2]} is not the fitted function there')
                break
    c.floor('pairs', 7)
    c.floor('derivatives', 8)
    self_test(c)
    c.rules = ['cumulative: on some path the derivative of a cumulative distribution to the diameter is none of the densities, or a density none of the derivatives',
               'moment: on some path the derivative of a basis integral is not d**n times the density',
               'piece: the derivative of an integral of a fit with linear extrapolation is, on some path, neither the fit nor one of its extensions, or one of these on none',
              'derivative: an error function returned with its derivative or Jacobian does not have that derivative']
    c.explanation = ('Formulae of all paths by global value numbering, differentiated by forward-mode rules on the value graph itself and compared as identities by random interpretation. '
                     'Densities and their integrals are paired by name, among functions and among methods of the distribution classes.')
    c.assumptions = ['the regularised upper incomplete gamma function is known by its derivative']
