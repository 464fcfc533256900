"""L01: an object is the same however it is specified."""
from __future__ import annotations

from .. import kernels as kn
from .. import laws
from .. import randint
from ..nf import Undecided
from ..pool import pmap
from ..values import Const

G = 'fluids.geometry'
COIL = 'def d(Dt, Do, pitch, N, Di):\n    a = HelicalCoil(Dt=Dt, Do=Do, pitch=pitch, N=N, Di=Di)\n    b = HelicalCoil(Dt=Dt, Di=Di, {})\n    return (a, b)\n'
FIX = 'tube_rows=tube_rows, tube_passes=tube_passes, tubes_per_row=tubes_per_row, tube_length=tube_length, tube_diameter=tube_diameter, fin_thickness=fin_thickness, tube_thickness=tube_thickness'
AIR = ('def d(tube_rows, tube_passes, tubes_per_row, tube_length, tube_diameter, fin_thickness, tube_thickness, angle, pitch, fin_diameter, fin_density):\n'
       f'    a = AirCooledExchanger({FIX}, angle=angle, pitch=pitch, fin_diameter=fin_diameter, fin_density=fin_density)\n'
       f'    b = AirCooledExchanger({FIX}, ''{})\n    return (a, b)\n')
FIN, PIT = 'fin_diameter=fin_diameter, fin_density=fin_density', 'angle=angle, pitch=pitch'
SOLVE = 'def d(angle, pitch):\n    a = pitch_angle_solver(angle=angle, pitch=pitch)\n    b = pitch_angle_solver({})\n    return (a, b)\n'
JOBS = ([('HelicalCoil', COIL, x) for x in (
    'Do_total=a.Do_total, pitch=pitch, N=N', 'Do=Do, N=N, H=a.H', 'Do=Do, N=N, H_total=a.H_total', 'Do=Do, H=a.H, pitch=pitch', 'Do=Do, H_total=a.H_total, pitch=pitch',
    'Do_total=a.Do_total, H_total=a.H_total, N=a.N', 'Do_total=a.Do_total, H_total=a.H_total, pitch=a.pitch')]
    + [('AirCooledExchanger', AIR, x) for x in (
        f'{PIT}, fin_height=a.fin_height, fin_density=fin_density', f'{PIT}, fin_diameter=fin_diameter, fin_interval=a.fin_interval',
        f'angle=angle, pitch_ratio=a.pitch_ratio, {FIN}', f'angle=angle, pitch_parallel=a.pitch_parallel, {FIN}', f'angle=angle, pitch_normal=a.pitch_normal, {FIN}',
        f'pitch=pitch, pitch_parallel=a.pitch_parallel, {FIN}', f'pitch=pitch, pitch_normal=a.pitch_normal, {FIN}', f'pitch_parallel=a.pitch_parallel, pitch_normal=a.pitch_normal, {FIN}')]
    + [('pitch_angle_solver', SOLVE, x) for x in (
        'angle=angle, pitch_parallel=a[2]', 'angle=angle, pitch_normal=a[3]', 'pitch=pitch, pitch_parallel=a[2]', 'pitch=pitch, pitch_normal=a[3]', 'pitch_parallel=a[2], pitch_normal=a[3]')])


def number(x):
    return isinstance(x, Const) and isinstance(x.v, (int, float)) and not isinstance(x.v, bool)


def path(run, o, out):
    """Attributes which differ, or None: undecided."""
    nums, other = kn.numbers(run, o)
    if other or any(r == {'='} for r in o.st.rel.values()):
        return None
    bad, n = [], 0
    one = {k.split('.', 2)[2]: x for k, x in out.items() if k.startswith('result.0.')}
    two = {k.split('.', 2)[2]: x for k, x in out.items() if k.startswith('result.1.')}
    for k in sorted(set(one) & set(two)):
        x, y = one[k], two[k]
        if any(isinstance(z, Const) and not number(z) for z in (x, y)):      # names of special arrangements
            if any(isinstance(z, Const) and z.v is None for z in (x, y)) != all(isinstance(z, Const) and z.v is None for z in (x, y)) and not any(isinstance(z, Const) and isinstance(z.v, str) for z in (x, y)):
                bad.append(k)
            continue
        try:
            v = kn.agree(kn.vector(y, nums), kn.vector(x, nums), 1e-6)
        except (Undecided, TypeError):
            continue
        if v is not None:
            n += 1
            bad += [k] * (not v)
    return bad if n >= 2 else None


def analyse(prog, job):
    name, src, spec = job
    run = laws.drive(prog, G, src.format(spec), {})
    if run is None or run.over:
        return None
    refused = not run.paths and any(o.kind == 'raise' for o in run.outs)
    return [path(run, o, out) for o, out in run.paths], refused, len(run.paths)


def check(c, prog):
    for job, res in zip(JOBS, pmap(lambda j: analyse(prog, j), JOBS)):
        name, _, spec = job
        spec = spec.replace(FIN, '').strip(', ')
        if res is None:
            c.count('specifications_not_decided')
            continue
        bads, refused, n = res
        fi = prog.cls(f'{G}.{name}', False) or prog.func(f'{G}.{name}')
        if refused:
            c.violation('refused', f'{name}|{spec}', fi.loc, f'{name}({spec}) is refused on every path although it says as much as the other specifications')
            continue
        known = [b for b in bads if b is not None]
        if not known:
            c.count('specifications_not_decided')
            c.notes.append(f'not decided: {name}({spec})')
            continue
        c.count('specifications')
        c.count('paths', len(known))
        diff = sorted({k for b in known for k in b})
        if diff:
            c.violation('differs', f'{name}|{spec}', fi.loc, f'{name}({spec}) differs from the object its arguments were taken from: {", ".join(diff[:6])}')
    c.floor('specifications', 12)
    wrong = analyse(prog, ('HelicalCoil', COIL, 'Do=a.Do_total, pitch=pitch, N=N'))
    c.self_test(bool(wrong) and any(b for b in wrong[0] if b), 'another coil is told apart')
    c.rules = ['differs: an attribute of an object built from attributes of another one, given as another sufficient set of arguments, is not identical to that of the first, as a formula in its arguments',
               'refused: such a set of arguments is refused on every path']
    c.explanation = ('Small driver programs build an object from symbols, and a second one from attributes of the first given as another sufficient set of arguments. The constructors are inlined and every '
                     'attribute of the two is compared as a formula by random interpretation.')
    c.assumptions = ['tube coils, air cooled exchangers and their pitch arrangement']
