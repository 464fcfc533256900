"""K01: numerical kernels compute what they are defined to compute."""
from __future__ import annotations
import math

from .. import kernels as kn
from .. import randint
from ..nf import Undecided
from ..pool import pmap
from ..randint import K

N = 'fluids.numerics.'
P, A, U = N + 'polynomial_evaluation.', N + 'arrays.', N + 'polynomial_utils.'


def poly(c, x):
    return sum(a * x ** (len(c) - 1 - i) for i, a in enumerate(c))


def der(c, x, m):
    n = len(c) - 1
    return sum(a * math.perm(n - i, m) * x ** (n - i - m) for i, a in enumerate(c) if n - i >= m)


def cheb(c, x):
    return sum(a * math.cos(i * math.acos(x)) if abs(x) <= 1 else a * math.cosh(i * math.acosh(x)) for i, a in enumerate(c))


def clenshaw(c, x):
    """Value of a Chebyshev series at a complex number."""
    a = b = 0.0
    for q in reversed(c[1:]):
        a, b = 2 * x * a - b + q, a
    return x * a - b + c[0] if c else 0.0


def chebdiff(c, x, m):
    """m-th derivative (first or second) of a Chebyshev series."""
    n = len(c)
    t = [[1.0, x], [0.0, 1.0], [0.0, 0.0]]
    for i in range(2, n):
        t[0].append(2 * x * t[0][-1] - t[0][-2])
        t[1].append(2 * t[0][i - 1] + 2 * x * t[1][-1] - t[1][-2])
        t[2].append(4 * t[1][i - 1] + 2 * x * t[2][-1] - t[2][-2])
    return sum(a * b for a, b in zip(c, t[m]))


def mm(a, b):
    return [[sum(x * y for x, y in zip(r, q)) for q in zip(*b)] for r in a]


def mv(a, b):
    return [sum(x * y for x, y in zip(r, b)) for r in a]


def determinant(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * determinant([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)))


def unit(n):
    return [[float(i == j) for j in range(n)] for i in range(n)]


def mean(x):
    return sum(x) / len(x)


def tridiagonal(a, b, c, zero=0.0):
    n = len(b)
    return [[b[i] if i == j else a[j] if j == i - 1 else c[i] if j == i + 1 else zero for j in range(n)] for i in range(n)]


def poly_product(p, q):
    out = [0.0] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            out[i + j] += a * b
    return out


def plus(a, b, s=1):
    return [[x + s * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def difference(a, n):
    for _ in range(int(n)):
        a = [y - x for x, y in zip(a, a[1:])]
    return a


def lup(a, out):
    """Pivots, lower and upper factors."""
    p, l, u = out
    return [(mm(p, a), mm(l, u))]


def off_scale(lo, hi, x):
    return (2 * x - (lo + hi)) / (hi - lo)


def chain(g, u):
    """Derivatives of g(u(x)) from those of g and of u, up to the third."""
    out = [g[0]]
    if len(g) > 1:
        out.append(g[1] * u[1])
    if len(g) > 2:
        out.append(g[2] * u[1] ** 2 + g[1] * u[2])
    if len(g) > 3:
        out.append(g[3] * u[1] ** 3 + 3 * g[2] * u[1] * u[2] + g[1] * u[3])
    if len(g) > 4:
        if any(u[2:]):
            raise ValueError
        out.append(g[4] * u[1] ** 4)
    return out


def family(a, r, kind, order, expo):
    """Value and derivatives of a series of x or log(1 - T/Tc), or of its exponential."""
    if not isinstance(r, list):
        r = [r]
    if not any(r) or abs(r[0]) > 1e300:
        return []
    if 'T' in a:
        t = a['Tc'] - a['T']
        u = [math.log(1 - a['T'] / a['Tc']), -1 / t, -1 / t ** 2, -2 / t ** 3]
    else:
        u = [a['x'], 1.0, 0.0, 0.0, 0.0]
    lin = chain([u[0] * a['scale'] + a['offset'], a['scale'], 0.0, 0.0, 0.0][:5], [0.0, 1.0, 0.0, 0.0, 0.0]) if kind != 'plain' else None
    if kind == 'cheb':      # the coefficients of the derivatives are arguments
        p = [cheb(a[k], lin[0]) for k in ('coeffs', 'der_coeffs', 'der2_coeffs', 'der3_coeffs')[:order + 1]]
    elif kind == 'stable':
        p = [der(a['coeffs'], lin[0], m) * a['scale'] ** m for m in range(order + 1)]
    else:
        p = [der(a['coeffs'], u[0], m) for m in range(order + 1)]
    f = chain(p, u)
    if expo:
        e = math.exp(f[0])
        f = chain([e] * (order + 1), f)
    return list(zip(r, f))


def families():
    for name, kind, orders, expo in FAMILIES:
        for m in orders:
            fq = name if not m else f'{name}_and_der{m if m > 1 else ""}'
            lists = {'coeffs': 1}
            if kind == 'cheb':
                lists.update({k: 1 for k in ('der_coeffs', 'der2_coeffs', 'der3_coeffs')[:m]})
            yield fq, SIZES, lists, lambda a, r, kind=kind, m=m, expo=expo: family(a, r, kind, m, expo)


# function, sizes, {list argument: depth}, relation(arguments, result) -> [(left, right)] which hold on every path
SIZES = (1, 2, 3, 4, 5, 6, 8)
LIN = {'coeffs': 1}
FAMILIES = [(P + 'horner', 'plain', (0, 1, 2, 3, 4), False), (P + 'exp_horner_backwards', 'plain', (0, 1, 2, 3), True), (P + 'horner_backwards_ln_tau', 'plain', (0, 1, 2, 3), False),
            (P + 'exp_horner_backwards_ln_tau', 'plain', (0, 1, 2), True), (P + 'horner_stable', 'stable', (0, 1, 2, 3, 4), False),
            (P + 'horner_stable_ln_tau', 'stable', (0, 1, 2, 3), False), (P + 'exp_horner_stable', 'stable', (0, 1, 2, 3), True), (P + 'exp_horner_stable_ln_tau', 'stable', (0, 1, 2), True),
            (N + 'exp_cheb', 'cheb', (0, 1, 2, 3), True), (N + 'exp_cheb_ln_tau', 'cheb', (0, 1, 2), True), (N + 'chebval_ln_tau', 'cheb', (0, 1, 2, 3), False)]
X, Y = dict(xre='xrr', xce='xcr'), dict(yre='yrr', yce='ycr')
DD = [      # double doubles: function, {small part: main part}, results
    ('add_dd', dict(y0='x0', y1='x1'), lambda a: [a[0] + a[1]]),
    ('mul_dd', dict(y0='x0', y1='x1'), lambda a: [a[0] * a[1]]),
    ('div_dd', dict(y0='x0', y1='x1'), lambda a: [a[0] / a[1]]),
    ('sqrt_dd', dict(y='x'), lambda a: [math.sqrt(a[0])]),
    ('square_dd', dict(y0='x0'), lambda a: [a[0] ** 2]),
    ('cube_dd', dict(y0='x0'), lambda a: [a[0] ** 3]),
    ('cbrt_dd', dict(xe='xr'), lambda a: [a[0] ** (1 / 3)]),
    ('cbrt_explicit_dd', dict(xe='xr'), lambda a: [a[0] ** (1 / 3)]),
    ('mul_imag_dd', {**X, **Y}, lambda a: complexes(complex(a[0], a[1]) * complex(a[2], a[3]))),
    ('add_imag_dd', {**X, **Y}, lambda a: complexes(complex(a[0], a[1]) + complex(a[2], a[3]))),
    ('div_imag_dd', {**X, **Y}, lambda a: complexes(complex(a[0], a[1]) / complex(a[2], a[3]))),
    ('imag_inv_dd', X, lambda a: complexes(1 / complex(a[0], a[1]))),
    ('sqrt_imag_dd', X, lambda a: complexes(complex(a[0], a[1]) ** 0.5)),
]


def complexes(z):
    return [z.real, z.imag]


SPEC = [
    *families(),
    (P + 'horner_backwards', SIZES, LIN, lambda a, r: [(r, poly(a['coeffs'], a['x']))]),
    (P + 'horner_domain', SIZES, LIN, lambda a, r: [(r, poly(a['coeffs'], off_scale(a['xmin'], a['xmax'], a['x'])))]),
    (P + 'horner_log', SIZES, LIN, lambda a, r: [(r, poly(a['coeffs'], a['x']) + a['log_coeff'] * math.log(a['x']))]),
    (P + 'horner_stable_log', SIZES, LIN, lambda a, r: [(r, poly(a['coeffs'], a['x'] * a['scale'] + a['offset']) + a['log_coeff'] * math.log(a['x']))]),
    (N + 'chebval', SIZES, {'c': 1}, lambda a, r: [(r, cheb(a['c'], a['x'] * a['scale'] + a['offset']))]),
    *[(N + 'chebder', (3, 4, 5, 6, 8), {'c': 1, 'm': (m,), **k}, lambda a, r, m=m: [(clenshaw(r, x), chebdiff(a['c'], x, m) * a['scl'] ** m) for x in (0.3, 1.7)] if len(r) == len(a['c']) - m else [(0.0, 1.0)])
      for m in (1, 2) for k in ({}, {'scl': (1.0,)})],
    *[(N + 'chebint', (2, 3, 4, 5, 6, 8), {'c': 1, 'm': (m,)}, lambda a, r, m=m: [(chebdiff(r, x, m), clenshaw(a['c'], x) * a['scl'] ** m) for x in (0.3, 1.7)] + [(clenshaw(r, a['lbnd']), 0.0)]) for m in (1, 2)],
    *[(U + 'polyder', (3, 4, 5, 6, 8), {'c': 1, 'm': (m,)}, lambda a, r, m=m: [(der(r[::-1], x, 0), der(a['c'][::-1], x, m)) for x in (0.7, 1.9)]) for m in (1, 2, 3)],
    *[(N + 'diff', (4, 5, 6, 8), {'a': 1, 'n': (n,)}, lambda a, r, n=n: [(r, difference(a['a'], n))]) for n in (1, 2, 3)],
    (N + 'mean_abs_error', SIZES, {'data': 1, 'calc': 1}, lambda a, r: [(r, mean([abs(x - y) for x, y in zip(a['data'], a['calc'])]))]),
    (U + 'poly_add', SIZES, {'p1': 1, 'p2': 1}, lambda a, r: [(r, [x + y for x, y in zip(a['p1'], a['p2'])])]),
    (U + 'poly_mul', SIZES, {'p1': 1, 'p2': 1}, lambda a, r: [(r, poly_product(a['p1'], a['p2']))]),
    (U + 'polyint', SIZES, LIN, lambda a, r: [(r[-1], 0.0)] + [(der(r, x, 1), poly(a['coeffs'], x)) for x in (0.7, 1.9)]),
    (U + 'polyint_stable', SIZES, LIN, lambda a, r: [(der(r, x, 1) * 2 / (a['xmax'] - a['xmin']), poly(a['coeffs'], x)) for x in (0.7, 1.9)]),
    (U + 'polyint_over_x', SIZES, LIN, lambda a, r: [(der(r[0], x, 1) + r[1] / x, poly(a['coeffs'], x) / x) for x in (0.7, 1.9)]),
    (U + 'polyint_over_x_stable', SIZES, LIN,
     lambda a, r: [(der(r[0], x, 1) + r[1] / x, poly(a['coeffs'], off_scale(a['xmin'], a['xmax'], x)) / x) for x in (0.7, 1.9)]),
    (U + 'polynomial_offset_scale', (0,), {}, lambda a, r: [(r[1] * a['xmin'] + r[0], -1.0), (r[1] * a['xmax'] + r[0], 1.0)]),
    (U + 'stable_poly_to_unstable', SIZES, LIN, lambda a, r: [(poly(r, x), poly(a['coeffs'], off_scale(a['low'], a['high'], x))) for x in (0.7, 1.9)] if len(r) == len(a['coeffs']) and r != a['coeffs'] else []),
    (U + 'poly_convert', SIZES, LIN, lambda a, r: [(sum(q * off_scale(a['Tmin'], a['Tmax'], x) ** i for i, q in enumerate(r)), sum(q * x ** i for i, q in enumerate(a['coeffs']))) for x in (0.7, 1.9)]),
    (U + 'quadratic_from_points', (0,), {}, lambda a, r: [(poly(r, a[f'x{i}']), a[f'f{i}']) for i in range(3)]),
    (U + 'quadratic_from_f_ders', (0,), {}, lambda a, r: [(der(r, a['x'], m), a[k]) for m, k in enumerate(('v', 'd1', 'd2'))]),
    (U + 'exp_poly_ln_tau_coeffs2', (0,), {}, lambda a, r: tau_relations(r, a, 1)),
    (U + 'exp_poly_ln_tau_coeffs3', (0,), {}, lambda a, r: tau_relations(r, a, 2)),
    (U + 'deflate_cubic_real_roots', (0,), {}, lambda a, r: [(r[0] + r[1], -(a['b'] + a['x0'])), (r[0] * r[1], -a['d'] / a['x0'])] if any(r) else []),
    (N + 'polynomial_roots.roots_quadratic', (0,), {}, lambda a, r: [(a['a'] * x * x + a['b'] * x + a['c'], 0.0) for x in r]),
    (A + 'transpose', SIZES, {'matrix': 2}, lambda a, r: [(r, [list(q) for q in zip(*a['matrix'])])]),
    (A + 'det', (1, 2, 3, 4, 5), {'matrix': 2}, lambda a, r: [(r, determinant(a['matrix']))]),
    (A + 'inv', (1, 2, 3), {'matrix': 2}, lambda a, r: [(mm(a['matrix'], r), unit(len(r)))]),
    (A + 'dot_product', SIZES, {'a': 1, 'b': 1}, lambda a, r: [(r, sum(x * y for x, y in zip(a['a'], a['b'])))]),
    (A + 'matrix_vector_dot', SIZES, {'matrix': 2, 'vector': 1}, lambda a, r: [(r, mv(a['matrix'], a['vector']))]),
    (A + 'matrix_multiply', SIZES, {'A': 2, 'B': 2}, lambda a, r: [(r, mm(a['A'], a['B']))]),
    (A + 'sum_matrix_rows', SIZES, {'matrix': 2}, lambda a, r: [(r, [sum(q) for q in a['matrix']])]),
    (A + 'sum_matrix_cols', SIZES, {'matrix': 2}, lambda a, r: [(r, [sum(q) for q in zip(*a['matrix'])])]),
    (A + 'scalar_add_matrices', SIZES, {'A': 2, 'B': 2}, lambda a, r: [(r, plus(a['A'], a['B']))]),
    (A + 'scalar_subtract_matrices', SIZES, {'A': 2, 'B': 2}, lambda a, r: [(r, plus(a['A'], a['B'], -1))]),
    (A + 'scalar_multiply_matrix', SIZES, {'matrix': 2}, lambda a, r: [(r, [[a['scalar'] * x for x in q] for q in a['matrix']])]),
    (A + 'scalar_divide_matrix', SIZES, {'matrix': 2}, lambda a, r: [([[x * a['scalar'] for x in q] for q in r], a['matrix'])]),
    (A + 'stack_vectors', SIZES, {'vectors': 2}, lambda a, r: [(r, a['vectors'])]),
    (A + 'lu', (1, 2, 3), {'A': 2}, lambda a, r: lup(a['A'], r)),
    (A + 'solve', (1, 2, 3), {'matrix': 2, 'b': 1}, lambda a, r: [(mv(a['matrix'], r), a['b'])]),
    (N + 'solve_2_direct', (2,), {'mat': 2, 'vec': 1}, lambda a, r: [(mv(a['mat'], r), a['vec'])]),
    (N + 'solve_3_direct', (3,), {'mat': 2, 'vec': 1}, lambda a, r: [(mv(a['mat'], r), a['vec'])]),
    (N + 'solve_4_direct', (4,), {'mat': 2, 'vec': 1}, lambda a, r: [(mv(a['mat'], r), a['vec'])]),
    (A + 'norm2', SIZES, {'arr': 1}, lambda a, r: [(r, math.sqrt(sum(x * x for x in a['arr'])))]),
    (A + 'array_as_tridiagonals', SIZES, {'arr': 2}, lambda a, r: [(r[1], [a['arr'][i][i] for i in range(len(a['arr']))]),
     (r[0], [a['arr'][i + 1][i] for i in range(len(a['arr']) - 1)]), (r[2], [a['arr'][i][i + 1] for i in range(len(a['arr']) - 1)])]),
    (A + 'tridiagonals_as_array', SIZES, {'a': 1, 'b': 1, 'c': 1}, lambda a, r: [(r, tridiagonal(a['a'], a['b'], a['c'], a['zero']))]),
    (A + 'solve_tridiagonal', SIZES, {'a': 1, 'b': 1, 'c': 1, 'd': 1}, lambda a, r: [(mv(tridiagonal(a['a'], a['b'], a['c']), r), a['d'])]),
    (N + 'mean', SIZES, {'data': 1}, lambda a, r: [(r, mean(a['data']))]),
    (N + 'std', SIZES, {'data': 1}, lambda a, r: [(r, math.sqrt(mean([(x - mean(a['data'])) ** 2 for x in a['data']])))]),
    (N + 'product', SIZES, {'l': 1}, lambda a, r: [(r, math.prod(a['l']))]),
    (N + 'cumsum', SIZES, {'a': 1}, lambda a, r: [(r, [sum(a['a'][:i + 1]) for i in range(len(r))])]),
    (N + 'normalize', SIZES, {'values': 1}, lambda a, r: [(r, [x / sum(a['values']) for x in a['values']])]),
    (N + 'newton_err', SIZES, {'F': 1}, lambda a, r: [(abs(r), sum(abs(x) for x in a['F']))]),
    (N + 'basic_damping', SIZES, {'x': 1, 'dx': 1}, lambda a, r: [(r, [x + y * a['damping'] for x, y in zip(a['x'], a['dx'])])]),
    (N + 'mean_squared_error', SIZES, {'data': 1, 'calc': 1}, lambda a, r: [(r, mean([(x - y) ** 2 for x, y in zip(a['data'], a['calc'])]))]),
    (N + 'mean_squared_rel_error', SIZES, {'data': 1, 'calc': 1}, lambda a, r: [(r, mean([(1 - y / x) ** 2 for x, y in zip(a['data'], a['calc'])]))]),
    (N + 'cumulative_trapezoid', SIZES, {'y': 1, 'x': 1}, lambda a, r: [(r[i], sum((a['y'][j] + a['y'][j + 1]) / 2 * (a['x'][j + 1] - a['x'][j]) for j in range(i + 1))) for i in range(len(r))]),
]


def tau_relations(r, a, n):
    """Value and derivatives of exp(polynomial of log(1 - T/Tc)) at T."""
    T, Tc = a['T'], a['Tc']
    u = math.log(1 - T / Tc)
    p, p1, p2 = poly(r, u), der(r, u, 1), der(r, u, 2)
    v, u1 = math.exp(p), -1 / (Tc - T)
    out = [(v, a['val']), (v * p1 * u1, a['der'])]
    if n == 2:
        u2 = -1 / (Tc - T) ** 2
        out.append((v * (p1 * u1) ** 2 + v * (p2 * u1 * u1 + p1 * u2), a['der2']))
    return out


def nested(d):
    """Nested lists from {(0, 1): x}; a scalar from {(): x}."""
    if set(d) == {()}:
        return d[()]
    out = {}
    for k, x in d.items():
        out.setdefault(k[0], {})[k[1:]] = x
    if sorted(out) != list(range(len(out))):
        raise Undecided('shape')
    return [nested(out[i]) for i in range(len(out))]


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def element(p, shape, nums, j):
    if isinstance(shape, (int, float)):
        return shape
    if not shape:
        return nums.get(p, randint.draw(p)[j])
    return [element(f'{p}.{i}', shape[1:], nums, j) for i in range(shape[0])]


def path(run, fi, shapes, rel, o, out, small=None):
    """Do the relations hold on a path? None: undecided."""
    nums, other = kn.numbers(run, o)
    if other:
        return None
    if small is not None:
        if nums:
            return None
        return precise(run, fi, rel, small, out)
    vals = {tuple(int(i) for i in k.split('.')[1:]): kn.vector(x, nums) for k, x in out.items() if k.split('.')[0] == 'result'}
    n = bad = lost = 0
    for j in range(K):
        if not vals:
            continue
        undefined = any(v[j] is None for v in vals.values())
        args = {p: element(p, shapes.get(p, ()), nums, j) for p in fi.params}
        try:
            pairs = rel(args, nested({k: 1.0 if v[j] is None else v[j] for k, v in vals.items()}))
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if not pairs:
            continue
        if undefined:       # the definition has a value there, the kernel has none
            lost += 1
            continue
        n += 1
        wrong = False
        for a, b in pairs:
            a, b = list(flat(a)), list(flat(b))
            if len(a) != len(b):
                return False
            tol = 1e-6 * max([abs(y) for y in a + b] + [1e-3])
            wrong = wrong or any(abs(x - y) > tol for x, y in zip(a, b))
        bad += wrong
    return (False if lost >= 5 else None) if n < 3 else bad <= n // 4


def precise(run, fi, rel, small, out):
    """The same of double doubles, whose small parts count to first order."""
    nums = {p: [1e-6 * x for x in randint.draw(q)] for p, q in small.items()}
    vals = [kn.vector(out[f'result.{i}'], nums) for i in range(len([k for k in out if k.startswith('result')]))]
    mains = [p for p in fi.params if p not in small]
    n = bad = lost = 0
    for j in range(K):
        if any(v[j] is None for v in vals):
            continue
        args = [randint.draw(p)[j] * (1 + sum(1e-6 for q in small.values() if q == p)) for p in mains]
        want = rel(args)
        n += 1
        scale = max(abs(x) for x in want)
        bad += any(abs(vals[2 * i][j] + vals[2 * i + 1][j] - x) > 1e-9 * scale for i, x in enumerate(want))
    return None if n < 3 else bad <= n // 4


def analyse(prog, job):
    """[(line, verdict)] of the paths of a kernel, or None."""
    fq, n, depth, rel, small = (*job, None)[:5]
    fi = prog.func(fq, False)
    if fi is None or any(p not in fi.params for p in depth):
        return None
    shapes = {p: d[0] if isinstance(d, tuple) else (n,) * d for p, d in depth.items()}
    if fi.name in ('tridiagonals_as_array', 'solve_tridiagonal'):
        shapes['a'] = shapes['c'] = (n - 1,)
    run = kn.run(prog, fi, shapes)
    if run.over:
        return None
    res = []
    for o, out in run.paths:
        try:
            v = path(run, fi, shapes, rel, o, out, small)
        except (Undecided, IndexError, TypeError, KeyError):
            v = None
        res.append((o.node.lineno if o.node is not None else fi.node.lineno, v))
    return res


CASES = [   # body of f(c, x), does it evaluate the polynomial
    ('r = 0.0\n    for a in c:\n        r = r*x + a\n    return r', True), ('r = 0.0\n    for a in c:\n        r = (r + a)*x\n    return r', False),
    ('return sum([a*x**i for i, a in enumerate(c[::-1])])', True), ('return sum([a*x**i for i, a in enumerate(c)])', False),
    ('if x > 1.0:\n        return c[0]*x*x + c[1]*x + c[2]\n    return x*(c[0]*x + c[1]) + c[2]', True),
    ('if x > 1.0:\n        return c[0]*x*x + c[1]*x + c[2]\n    return x*(c[0]*x - c[1]) + c[2]', False),
]


def all_jobs():
    return [(fq, n, depth, rel) for fq, sizes, depth, rel in SPEC for n in sizes] + [(N + 'doubledouble.' + f, 0, {}, rel, small) for f, small, rel in DD]


def self_test(c):
    import os
    import tempfile
    from ..program import Program
    for body, want in CASES:
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids/numerics')
            open(d + '/fluids/__init__.py', 'w').close()
            with open(d + '/fluids/numerics/__init__.py', 'w') as fh:
                fh.write('def f(c, x):\n    ' + body + '\n')
            res = analyse(Program(d), (N + 'f', 3, {'c': 1}, lambda a, r: [(r, poly(a['c'], a['x']))]))
            c.self_test(bool(res) and all(v is want for _, v in res[-1:]) and (want or any(v is False for _, v in res)), f'{body!r}: {res}')


def check(c, prog):
    jobs = all_jobs()
    names = set()
    for job, res in zip(jobs, pmap(lambda j: analyse(prog, j), jobs)):
        fq, n = job[:2]
        if res is None or not any(v is not None for _, v in res):
            c.count('kernels_not_decided')
            c.notes.append(f'not decided: {fq} at size {n}')
            continue
        names.add(fq)
        c.count('kernels_and_sizes')
        for line, v in res:
            c.count('paths_undecided' if v is None else 'paths')
            if v is False:
                fi = prog.func(fq)
                c.violation('definition', f'{fq}|{n}', f'{fi.module.rel}:{line}', f'{fi.name} does not satisfy its definition for lists of {n} elements' if n else f'{fi.name} does not satisfy its definition')
    c.count('kernels', len(names))
    c.floor('kernels', 45)
    c.floor('paths', 150)
    self_test(c)
    c.rules = ['definition: on some path the formulae of the result, in the symbols for every element of the arguments, do not satisfy the relation which defines the kernel '
               '(value and derivatives of a polynomial, product with the matrix giving the identity or the right-hand side, sums, and so on)']
    c.explanation = ('Global value numbering of each kernel with lists of one to eight symbols (and square matrices of them) for its list arguments: loops over them are unrolled, '
                     'every element of the result is a formula. The defining relation, written in this check, must hold identically; identities are decided by random interpretation.')
    c.assumptions = ['sizes up to eight; the loops treat every element alike, so a defect at larger sizes only is outside']
