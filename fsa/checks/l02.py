"""L02: the volumes and surfaces of vessels obey the laws of their shapes."""
from __future__ import annotations
import math

from .. import kernels as kn
from .. import laws
from ..nf import Undecided
from ..pool import pmap
from ..randint import K, draw
from .n05 import holds

G = 'fluids.geometry'
PI = math.pi
HEADS = {'conical': ('a',), 'ellipsoidal': ('a',), 'spherical': ('a',), 'guppy': ('a',)}
UPRIGHT = ('conical', 'ellipsoidal', 'spherical')


def unit(name, lo=0.05, hi=0.95):
    """K values between lo and hi."""
    return [lo + (hi - lo) * (math.log(x) * 7.3 % 1.0) for x in draw(name)]


def points(kind='low'):
    """Dimensions of vessels: heads flatter than a hemisphere ('low') or deeper, fill levels within the head ('low'), above it, or anywhere."""
    D, u, v, w = draw('D'), unit('u'), unit('v', 0.1, 0.9), unit('w', 0.1, 0.9)
    a = [d / 2 * (x if kind != 'deep' else 1 + 2 * x) for d, x in zip(D, v)]
    b = [d / 2 * x for d, x in zip(D, w)]
    L = [d * (0.5 + 2 * x) for d, x in zip(D, w)]
    return {'D': D, 'a': a, 'b': b, 'L': L, 'x': [d * y for d, y in zip(D, u)], 'h': [p * y for p, y in zip(a, u)], 't': [y * (p + q + l) for y, p, q, l in zip(u, a, b, L)],
            'm': [p + l * y for p, l, y in zip(a, L, u)], 'n': [-p for p in a], 'Do': [2 * d for d in D], 'Di': D}


def segment(D, h):
    r = D / 2
    return r * r * math.acos((r - h) / r) - (r - h) * math.sqrt(2 * r * h - h * h)


def radius2(kind, D, a, h):
    """Square of the radius of a head at height h above its tip."""
    if kind == 'conical':
        return (D * h / (2 * a)) ** 2
    if kind == 'ellipsoidal':
        return (D / 2) ** 2 * (1 - ((a - h) / a) ** 2)
    r = ((D / 2) ** 2 + a * a) / (2 * a)
    return h * (2 * r - h)


def tank(f, args):
    return f'{f}({args})'


def ends(A, B, a='a', b='b'):
    return f"sideA='{A}', sideA_a={a}, sideB='{B}', sideB_a={b}"


def jobs():
    """(subject, text, expressions, law on values and point, variable of the slope of the first expression or None, kind of points)"""
    for k in HEADS:
        v = f'V_horiz_{k}'
        yield v, 'both heads and the cylinder make up the whole', (f'{v}(D, L, a, x)', f'{v}(D, L, a, x, headonly=True)'), lambda r, p: [(r[0], 2 * r[1] + p('L') * segment(p('D'), p('x')))], None, 'low'
        if k != 'guppy':
            yield v, 'the lower and the upper part of a level add up', (f'{v}(D, L, a, x)', f'{v}(D, L, a, D - x)', f'{v}(D, L, a, D)'), lambda r, p: [(r[0] + r[1], r[2])], None, 'low'
            yield v, 'a full tank holds as much as an upright one', (f'{v}(D, L, a, D)', f'V_vertical_{k}(D, a, a)'), lambda r, p: [(r[0], 2 * r[1] + p('L') * PI * p('D') ** 2 / 4)], None, 'low'
            yield f'SA_partial_horiz_{k}_head', 'the lower and the upper part of a level add up', tuple(f'SA_partial_horiz_{k}_head(D, a, {x})' for x in ('x', 'D - x', 'D')), lambda r, p: [(r[0] + r[1], r[2])], None, 'low'
        if k != 'spherical':
            yield f'SA_partial_horiz_{k}_head', 'a full head has the surface of the head', (f'SA_partial_horiz_{k}_head(D, a, D)', f'SA_{k}_head(D, a)'), lambda r, p: [(r[0], r[1])], None, 'low'
    for k in UPRIGHT:
        v = f'V_vertical_{k}'
        yield v, 'the volume grows with the area of the level', (f'{v}(D, a, h)',), lambda r, p, k=k: [(r[0], PI * radius2(k, p('D'), p('a'), p('h')))], 'h', 'low'
        yield v, 'above the head it grows with the area of the cylinder', (f'{v}(D, a, m)',), lambda r, p: [(r[0], PI * p('D') ** 2 / 4)], 'm', 'low'
        yield v, 'it does not jump where the cylinder begins', (f'{v}(D, a, m)', f'{v}(D, a, a)'), lambda r, p: [(r[0] - PI * p('D') ** 2 / 4 * (p('m') - p('a')), r[1])], None, 'low'
        c = f'{v}_concave'
        yield c, 'above the head it is the cylinder less the head', (f'{c}(D, n, m)', f'{v}(D, a, a)'), lambda r, p: [(r[0], PI * p('D') ** 2 / 4 * p('m') - r[1])], None, 'low'
        yield c, 'the volume grows with the area around the head', (f'{c}(D, n, h)',), lambda r, p, k=k: [(r[0], PI * (p('D') ** 2 / 4 - radius2(k, p('D'), p('a'), p('a') - p('h'))))], 'h', 'low'
        s = f'SA_partial_vertical_{k}_head'
        full = 'PI'
        yield s, 'a full head has the surface of the head', (f'{s}(D, a, a)', f'SA_{k}_head(D, a)' if k != 'spherical' else 'pi*(a*a + D*D/4)'), lambda r, p: [(r[0], r[1])], None, 'low'
    for k in HEADS:
        for j in HEADS:
            e = ends(k, j)
            for what in ('V', 'SA'):
                f, t = what + '_from_h', what + '_tank'
                flat = f'D, L, True, {e}' if what == 'V' else f'D, L, {e}'
                yield f, f'a full lying tank is the whole tank ({k}, {j})', (f'{f}(D, D, L, True, {e})', f'{t}({flat})[0]'), lambda r, p: [(r[0], r[1])], None, 'low'
                if k != 'guppy' and j != 'guppy':
                    up = f'D, L, False, {e}' if what == 'V' else f'D, L, {e}'
                    yield f, f'a full standing tank is the whole tank ({k}, {j})', (f'{f}(L + a + b, D, L, False, {e})', f'{t}({up})[0]'), lambda r, p: [(r[0], r[1])], None, 'low'
                    yield (f, f'a standing tank and the same tank upside down complement each other ({k}, {j})',
                           (f'{f}(t, D, L, False, {e})', f"{f}(L + a + b - t, D, L, False, {ends(j, k, 'b', 'a')})", f'{t}({up})[0]'), lambda r, p: [(r[0] + r[1], r[2])], None, 'low')
                    if what == 'V':
                        yield 'V_tank', f'a tank holds as much standing as lying ({k}, {j})', (f'V_tank(D, L, True, {e})', f'V_tank(D, L, False, {e})'), lambda r, p: [(r[0], r[1])], None, 'low'
            yield 'V_tank', f'the parts add up to the whole ({k}, {j})', (f'V_tank(D, L, True, {e})',), lambda r, p: [(r[0][0], r[0][1] + r[0][2] + r[0][3])], None, 'low'
            yield 'SA_tank', f'the parts add up to the whole ({k}, {j})', (f'SA_tank(D, L, {e})',), lambda r, p: [(r[0][0], r[0][1] + r[0][2] + r[0][3])], None, 'low'
            if k != j:
                yield 'V_tank', f'exchanging the heads exchanges their volumes ({k}, {j})', (f'V_tank(D, L, True, {e})', f"V_tank(D, L, True, {ends(j, k, 'b', 'a')})"), lambda r, p: [(r[0], [r[1][0], r[1][2], r[1][1], r[1][3]])], None, 'low'
                yield 'SA_tank', f'exchanging the heads exchanges their surfaces ({k}, {j})', (f'SA_tank(D, L, {e})', f"SA_tank(D, L, {ends(j, k, 'b', 'a')})"), lambda r, p: [(r[0], [r[1][0], r[1][2], r[1][1], r[1][3]])], None, 'low'
            yield 'V_from_h', f'exchanging the heads of a lying tank changes nothing ({k}, {j})', (f'V_from_h(x, D, L, True, {e})', f"V_from_h(x, D, L, True, {ends(j, k, 'b', 'a')})"), lambda r, p: [(r[0], r[1])], None, 'low'
    yield 'V_partial_sphere', 'the volume grows with the area of the level', ('V_partial_sphere(D, x)',), lambda r, p: [(r[0], PI * p('x') * (p('D') - p('x')))], 'x', 'low'
    yield 'V_partial_sphere', 'a full sphere is a sphere', ('V_partial_sphere(D, D)',), lambda r, p: [(r[0], PI * p('D') ** 3 / 6)], None, 'low'
    yield 'SA_partial_sphere', 'a zone has the surface of its cylinder', ('SA_partial_sphere(D, x)',), lambda r, p: [(r[0], PI * p('D') * p('x'))], None, 'low'
    yield 'A_partial_circle', 'the area grows with the chord', ('A_partial_circle(D, x)',), lambda r, p: [(r[0], 2 * math.sqrt(p('x') * (p('D') - p('x'))))], 'x', 'low'
    yield 'A_partial_circle', 'the lower and the upper part of a level add up', ('A_partial_circle(D, x)', 'A_partial_circle(D, D - x)'), lambda r, p: [(r[0] + r[1], PI * p('D') ** 2 / 4)], None, 'low'
    yield 'SA_partial_cylindrical_body', 'the lower and the upper part of a level add up', ('SA_partial_cylindrical_body(L, D, x)', 'SA_partial_cylindrical_body(L, D, D - x)'), lambda r, p: [(r[0] + r[1], PI * p('D') * p('L'))], None, 'low'
    yield 'V_hollow_cylinder', 'a hollow cylinder is a cylinder less its core', ('V_hollow_cylinder(Di, Do, L)', 'V_cylinder(Do, L)', 'V_cylinder(Di, L)'), lambda r, p: [(r[0], r[1] - r[2])], None, 'low'
    yield 'A_hollow_cylinder', 'its surface is both sides and two rings', ('A_hollow_cylinder(Di, Do, L)',), lambda r, p: [(r[0], PI * (p('Di') + p('Do')) * p('L') + PI / 2 * (p('Do') ** 2 - p('Di') ** 2))], None, 'low'
    yield 'A_cylinder', 'its surface is the side and two discs', ('A_cylinder(D, L)',), lambda r, p: [(r[0], PI * p('D') * p('L') + PI / 2 * p('D') ** 2)], None, 'low'
    yield 'V_multiple_hole_cylinder', 'one hole makes a hollow cylinder', ('V_multiple_hole_cylinder(Do, L, [(Di, 1)])', 'V_hollow_cylinder(Di, Do, L)'), lambda r, p: [(r[0], r[1])], None, 'low'
    yield 'A_multiple_hole_cylinder', 'one hole makes a hollow cylinder', ('A_multiple_hole_cylinder(Do, L, [(Di, 1)])', 'A_hollow_cylinder(Di, Do, L)'), lambda r, p: [(r[0], r[1])], None, 'low'


def evaluate(prog, expr, base, slope):
    """Result of an expression at every point: nested numbers, or None where it has none or the paths taken there are not told apart."""
    src = f'def d({", ".join(base)}):\n    return ({expr},)\n'
    run = laws.drive(prog, G, src, {})
    if run is None or run.over:
        return None
    seen = {}
    for o, out in run.paths:
        nums, other = kn.numbers(run, o)
        if other or nums:
            continue
        ok = holds(o, base)
        if not any(ok):
            continue
        vals = {}
        try:
            for k, x in out.items():
                if k.split('.')[0] == 'result':
                    vals[tuple(int(i) for i in k.split('.')[2:])] = kn.dual(x, slope, base)[1] if slope else kn.vector(x, base)
        except (Undecided, TypeError):
            vals = None
        for j in range(K):
            if ok[j]:
                seen.setdefault(j, []).append(laws.nest({k: x[j] for k, x in vals.items()}) if vals and all(x[j] is not None for x in vals.values()) else None)
    return [v[0] if v and v[0] is not None and all(x is not None and laws.close(x, v[0]) for x in v) else None for v in (seen.get(j) for j in range(K))]


def analyse(prog, job):
    """Verdicts of the points."""
    subject, text, exprs, law, slope, kind = job
    base = points(kind)
    cols = [evaluate(prog, e, base, slope if i == 0 else None) for i, e in enumerate(exprs)]
    if None in cols:
        return []
    res = []
    for j, r in enumerate(zip(*cols)):
        if None in r:
            continue
        try:
            res.append(all(laws.close(a, b) for a, b in law(list(r), lambda q, j=j: base[q][j])))
        except (ValueError, ZeroDivisionError, OverflowError, IndexError, TypeError):
            continue
    return res


def self_tests(c):
    import os
    import tempfile
    from ..program import Program
    body = ('from math import pi, sqrt, acos\ndef V_vertical_conical(D, a, h):\n    if h < a:\n        return pi/4*(D*h/a)**2*(h/{})\n    return pi*D**2/4*(h - 2*a/3)\n')
    for n, want in ((3, True), (3.5, False)):
        with tempfile.TemporaryDirectory() as d:
            os.makedirs(d + '/fluids')
            open(d + '/fluids/__init__.py', 'w').close()
            with open(d + '/fluids/geometry.py', 'w') as fh:
                fh.write(body.format(n))
            prog = Program(d)
            got = [v for j in jobs() if j[0] == 'V_vertical_conical' for v in analyse(prog, j)]
            c.self_test(bool(got) and all(got) == want, f'a cone divided by {n}: {got}')


def check(c, prog):
    js = [j for j in jobs() if prog.func(f'{G}.{j[0]}', False) is not None]
    for job, res in zip(js, pmap(lambda j: analyse(prog, j), js)):
        if len(res) < 3:
            c.count('laws_not_decided')
            c.notes.append(f'not decided: {job[0]}: {job[1]}')
            continue
        c.count('laws')
        c.count('points', len(res))
        bad = res.count(False)
        if bad >= 2:
            fi = prog.func(f'{G}.{job[0]}')
            c.violation('law', f'{fi.fq}|{job[1]}', fi.loc, f'{fi.name}: it does not hold that {job[1]}')
    c.floor('laws', 100)
    self_tests(c)
    c.rules = ['law: an identity between volumes, surfaces, levels and head types of vessels does not hold between the formulas of the paths taken at the same dimensions']
    c.explanation = ('Small driver programs over the public functions of fluids.geometry are analysed, with everything they call inlined; on each path the results are formulas in the dimensions. '
                     'The formulas of the paths whose conditions hold at given random dimensions are compared with the laws: parts add up, levels complement each other, volumes grow with the area of the level '
                     '(differentiating the formula), a standing tank holds as much as a lying one, concave heads displace convex ones, heads may be exchanged.')
    c.assumptions = ['heads no deeper than a hemisphere, levels within the vessel', 'torispherical heads are left to T04']
