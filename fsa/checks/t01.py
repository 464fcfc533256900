"""T01: built-in engineering tables are internally consistent."""
from __future__ import annotations
import ast
import bisect
import gzip
import json
import math
import os

from ..program import FuncInfo
from ..report import VERIF
from ..tables import Rec, Tables, is_num, matrix, numbers

TABLE = os.path.join(VERIF, 'data', 't01.json.gz')
SKIP = ('fluids.optional', 'fluids.nrlmsise00', 'fluids.numba', 'fluids.units', 'fluids.vectorized', 'fluids.constants', 'fluids.cython')
INCH = 0.0254

# splines and the data which they interpolate: (module, spline, x table, y table, values[x][y] or None for values[x])
SPLINES = [('control_valve', 'opening_quick_tck', 'opening_quick', None, 'frac_CV_quick'), ('control_valve', 'opening_equal_tck', 'opening_equal', None, 'frac_CV_equal'),
           ('filters', 'grills_rounded_tck', 'grills_rounded_alphas', None, 'grills_rounded_Ks'), ('fittings', 'entrance_distance_Harris_tck', 'entrance_distance_Harris_t_Di', None, 'entrance_distance_Harris_Ks'),
           ('fittings', 'entrance_rounded_Idelchik_tck', 'entrance_rounded_ratios_Idelchik', None, 'entrance_rounded_Ks_Idelchik'),
           ('fittings', 'entrance_rounded_Harris_tck', 'entrance_rounded_ratios_Harris', None, 'entrance_rounded_Ks_Harris'),
           ('fittings', 'diffuser_conical_Idelchik_tck', 'diffuser_conical_Idelchik_A_ratios', 'diffuser_conical_Idelchik_angles', 'diffuser_conical_Idelchik_data'),
           ('flow_meter', 'orifice_std_Hollingshead_tck', 'orifice_std_betas_Hollingshead', 'orifice_std_logRes_Hollingshead', 'orifice_std_Hollingshead_Cs'),
           ('flow_meter', 'cone_Hollingshead_tck', 'cone_betas_Hollingshead', 'cone_logRes_Hollingshead', 'cone_Hollingshead_Cs'),
           ('flow_meter', 'wedge_Hollingshead_tck', 'wedge_betas_Hollingshead', 'wedge_logRes_Hollingshead', 'wedge_Hollingshead_Cs')]
# tables computed from others: (module, table, source, function of an entry, relative tolerance)
DERIVED = [('flow_meter', f'{n}_logRes_Hollingshead', f'{n}_Res_Hollingshead', math.log, 1e-9) for n in ('orifice_std', 'venturi', 'cone', 'wedge')] + \
    [('control_valve', 'fis_l_2015_inv', 'fis_l_2015', lambda x: 1/x, 1e-12), ('control_valve', 'fis_l_2015_1_5', 'fis_l_2015', lambda x: x**1.5, 1e-12),
     ('control_valve', 'fis_l_2015_n1_5', 'fis_l_2015', lambda x: x**-1.5, 1e-12), ('control_valve', 'fis_l_2015_3', 'fis_l_2015', lambda x: x**3.0, 1e-12),
     ('control_valve', 'fis_l_2015_17', 'fis_l_2015', lambda x: x**1.7, 1e-12),
     ('safety_valve', 'API526_A', 'API526_A_sq_inch', lambda x: x*INCH*INCH, 1e-9), ('safety_valve', '_KSH_Pa_7E', '_KSH_psigs_7E', lambda x: x*6894.757293168361 + 101325.0, 2e-3),
     ('safety_valve', '_KSH_tempKs_7E', '_KSH_tempFs_7E', lambda x: (x + 459.67)/1.8, 1e-9), ('pump', 'nema_sizes', 'nema_sizes_hp', lambda x: x*745.6998715822702, 1e-9)]
# parallel tables: module, [names]; each must have as many entries as the first
PARALLEL = [('pump', ['nema_high_P'] + [f'nema_high_full_{k}_{p}p' for k in ('open', 'closed') for p in (2, 4, 6)]), ('pump', ['nema_min_P'] + [f'nema_min_full_{k}_{p}p' for k in ('open', 'closed') for p in (2, 4, 6, 8)]),
            ('pump', ['_efficiency_ones', '_efficiency_lists']), ('friction', ['oregon_Res', 'oregon_fd_smooth']), ('friction', ['Crane_fts', 'Crane_fts_Ds', 'Crane_fts_nominal_Ds']),
            ('friction', ['Kumar_beta_list', 'Kumar_fd_Res', 'Kumar_C2s', 'Kumar_Ps']), ('flow_meter', ['venturi_tube_betas', 'venturi_tube_dP_high', 'venturi_tube_dP_low']),
            ('control_valve', ['fis_l_2015', 'A_weights_l_2015']), ('safety_valve', ['API526_A', 'API526_letters']), ('open_flow', ['angles_Shen', 'Cs_Shen', 'k_Shen']),
            ('atmosphere', ['H_std', 'T_std', 'T_grad', 'P_std'])]
# grades: a table whose entries never exceed those of the next better grade
GRADES = [('pump', 'fan_diameters', 'fan_bare_shaft_efficiencies', 'FEG'), ('pump', 'FMEG_axial_powers', 'fan_driven_axial_efficiencies', 'FMEG'), ('pump', 'FMEG_axial_powers', 'fan_centrifugal_backward_efficiencies', 'FMEG'),
          ('pump', 'FMEG_cross_flow_powers', 'fan_crossflow_efficiencies', 'FMEG')]


def close(a, b, rel=1e-9, ab=0.0):
    return abs(a - b) <= rel*max(abs(a), abs(b)) + ab


class Ctx:
    def __init__(self, c, prog):
        self.c, self.prog = c, prog
        self.t = Tables(prog)

    def get(self, mod, name):
        return self.t.module('fluids.' + mod).get(name)

    def loc(self, mod, name):
        m = self.prog.modules.get('fluids.' + mod)
        best = None
        for s in m.tree.body if m else ():
            for n in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.For, ast.If, ast.Expr)) else ():
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    best = best or m.loc(s)
        return best or (m.rel + ':1' if m else mod)

    def bad(self, rule, mod, name, item, msg):
        self.c.violation(rule, f'fluids.{mod}.{name}|{item}', self.loc(mod, name), f'fluids.{mod}.{name}: {msg}')


# ------------------------------------------------------------------ splines
def spline(t, c, k, x):
    n = len(t) - k - 1
    m = min(max(bisect.bisect_right(t, x) - 1, k), n - 1)
    d = [c[j + m - k] for j in range(k + 1)]
    for r in range(1, k + 1):
        for j in range(k, r - 1, -1):
            lo, hi = t[j + m - k], t[j + 1 + m - r]
            a = (x - lo)/(hi - lo) if hi != lo else 0.0
            d[j] = (1 - a)*d[j - 1] + a*d[j]
    return d[k]


def spline2(tx, ty, c, kx, ky, x, y):
    ny = len(ty) - ky - 1
    nx = len(tx) - kx - 1
    return spline(tx, [spline(ty, c[i*ny:(i + 1)*ny], ky, y) for i in range(nx)], kx, x)


def knots(c, bad, t, k, what):
    if any(b < a for a, b in zip(t, t[1:])):
        i = next(i for i, (a, b) in enumerate(zip(t, t[1:])) if b < a)
        bad('spline-knots', f'{what}[{i + 1}]', f'knot {t[i + 1]} of {what} is below the knot {t[i]} before it')
    for end, part in (('first', t[:k + 1]), ('last', t[-k - 1:])):
        if len(set(part)) != 1:
            bad('spline-knots', f'{what} {end}', f'the {end} {k + 1} knots of {what} differ: {list(part)}')


def splines(x):
    for mn in sorted(x.prog.modules):
        if mn.startswith(SKIP):
            continue
        mod = mn[len('fluids.'):]
        for name, v in x.t.module(mn).items():
            if not (isinstance(v, Rec) and v.name in ('tck', 'tck_interp2d_linear')):
                continue
            x.c.count('splines')

            def bad(rule, item, msg, name=name, mod=mod):
                x.bad(rule, mod, name, item, msg)
            a = v.args
            if v.name == 'tck_interp2d_linear':
                if len(a) >= 3 and numbers(a[0]) and numbers(a[1]) and matrix(a[2]):
                    increasing(bad, a[0], 'x')
                    increasing(bad, a[1], 'y')
                    if len(a[2]) != len(a[1]):
                        bad('table-shape', 'rows', f'{len(a[2])} rows of values for {len(a[1])} y coordinates')
                    for i, row in enumerate(a[2]):
                        if len(row) != len(a[0]):
                            bad('table-shape', f'row {i}', f'row {i} has {len(row)} values for {len(a[0])} x coordinates')
            elif len(a) == 3 and numbers(a[0]) and numbers(a[1]) and isinstance(a[2], int):
                if len(a[1]) not in (len(a[0]), len(a[0]) - a[2] - 1):
                    bad('spline-counts', '', f'{len(a[0])} knots and {len(a[1])} coefficients for degree {a[2]}')
                knots(x.c, bad, a[0], a[2], 't')
            elif len(a) == 5 and all(numbers(q) for q in a[:3]) and isinstance(a[3], int) and isinstance(a[4], int):
                if len(a[2]) != (len(a[0]) - a[3] - 1)*(len(a[1]) - a[4] - 1):
                    bad('spline-counts', '', f'{len(a[0])} and {len(a[1])} knots and {len(a[2])} coefficients for degrees {a[3]}, {a[4]}')
                knots(x.c, bad, a[0], a[3], 'tx')
                knots(x.c, bad, a[1], a[4], 'ty')
    for mod, name, xs, ys, zs in SPLINES:
        s, X, Y, Z = x.get(mod, name), x.get(mod, xs), ys and x.get(mod, ys), x.get(mod, zs)
        if not isinstance(s, Rec) or not numbers(X) or ys and not numbers(Y) or not (matrix(Z) if ys else numbers(Z)):
            continue
        x.c.count('splines_compared_with_their_data')
        try:
            if ys is None:
                t, c, k = s.args
                pts = [(f'x={p}', spline(t, c, k, p), q) for p, q in zip(X, Z)]
                if len(X) != len(Z):
                    x.bad('table-shape', mod, zs, xs, f'{len(Z)} values for the {len(X)} coordinates of {xs}')
            else:
                tx, ty, c, kx, ky = s.args
                byx = len(Z) == len(X) and len(Z[0]) == len(Y)
                pts = [(f'x={p}, y={q}', spline2(tx, ty, c, kx, ky, p, q), Z[i][j] if byx else Z[j][i]) for i, p in enumerate(X) for j, q in enumerate(Y)]
        except (IndexError, ValueError, ZeroDivisionError, TypeError):
            x.bad('table-shape', mod, name, zs, f'the spline does not fit the coordinates {xs}{", " + ys if ys else ""} of {zs}')
            continue
        for at, have, want in pts:
            x.c.count('spline_points')
            if not close(have, want, 1e-6, 1e-9):
                x.bad('spline-data', mod, name, at, f'at {at} the spline gives {have:.8g}, {zs} has {want:.8g}')


def increasing(bad, v, what, strict=True):
    for i, (a, b) in enumerate(zip(v, v[1:])):
        if b < a or strict and b == a:
            bad('unsorted', f'{what}[{i + 1}]', f'entry {b} of {what} follows {a}: look-up coordinates must increase')


# ------------------------------------------------------------------ calls which interpolate
def interpolations(x):
    for m in x.prog.modules.values():
        if m.name.startswith(SKIP) or m.name.startswith('fluids.numerics'):
            continue
        env = x.t.module(m.name)
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'interp' and len(n.args) >= 3):
                continue
            v = []
            for e in n.args[1:3]:
                try:
                    v.append(x.t.ev(m, e, dict(env)))
                except Exception:
                    v.append(None)
            if isinstance(n.args[1], ast.Name) and numbers(v[0]):
                x.c.count('interpolations')
                increasing(lambda rule, item, msg: x.c.violation(rule, f'{m.name}|{item}', m.loc(n), msg), v[0], n.args[1].id)
            if numbers(v[0]) and isinstance(v[1], (list, tuple)) and len(v[0]) != len(v[1]):
                x.c.violation('table-shape', f'{m.name}|{ast.unparse(n.args[1])}|{ast.unparse(n.args[2])}', m.loc(n), f'{ast.unparse(n)} interpolates {len(v[1])} values over {len(v[0])} coordinates')
            elif v[0] is None and v[1] is None and isinstance(n.args[2], ast.List):
                pass


# ------------------------------------------------------------------ piping
def piping(x):
    sch = x.get('piping', 'schedule_lookup')
    by_key = {}
    for name, v in (sch or {}).items():
        if not (isinstance(v, tuple) and len(v) == 4 and all(numbers(q) for q in v)):
            continue
        x.c.count('pipe_schedules')

        def bad(rule, item, msg, name=name):
            x.bad(rule, 'piping', 'schedule_lookup', f'{name}|{item}', f'schedule {name}: {msg}')
        N, I, O, T = v
        if len({len(q) for q in v}) != 1:
            bad('parallel', 'length', f'columns of {", ".join(str(len(q)) for q in v)} rows (nominal size, inner, outer diameter, wall)')
        increasing(bad, N, 'nominal size')
        increasing(bad, O, 'outer diameter')
        increasing(bad, I, 'inner diameter')
        for n, i, o, t in zip(N, I, O, T):
            x.c.count('pipe_sizes')
            if abs(o - 2*t - i) > 0.006:
                bad('pipe-wall', f'{n}', f'size {n}: outer diameter {o} minus twice the wall {t} is {o - 2*t:.3f}, inner diameter {i}')
            by_key.setdefault((family(name), n), {}).setdefault(o, []).append(name)
    for (fam, n), d in by_key.items():
        if len(d) > 1 and fam:
            x.bad('presentations', 'piping', 'schedule_lookup', f'{fam}|{n}', f'size {n} has the outer diameters {", ".join(f"{o} ({names[0]}...)" if len(names) > 1 else f"{o} ({names[0]})" for o, names in sorted(d.items()))} in schedules of {fam}')
    order = [('5', '10', '20', '30', '40', '60', '80', '100', '120', '140', '160'), ('40', '80', 'XXS'), ('STD', 'XS', 'XXS'), ('5S', '10S', '40S', '80S'), ('5', '5S'), ('BS1387LIGHT', 'BS1387MEDIUM', 'BS1387HEAVY')]
    for chain in order:
        for a, b in zip(chain, chain[1:]):
            A, B = (sch or {}).get(a), (sch or {}).get(b)
            if A and B:
                for n, t in zip(A[0], A[3]):
                    if n in B[0] and t > B[3][B[0].index(n)] + 1e-9 and (a, b) != ('5', '5S'):
                        x.bad('presentations', 'piping', 'schedule_lookup', f'{a}<{b}|{n}', f'size {n}: wall {t} of schedule {a} exceeds that of the heavier schedule {b}')
    for name, v in (x.get('piping', 'wire_schedules') or {}).items():
        if not (isinstance(v, tuple) and len(v) == 4 and all(numbers(q) for q in v[:3])):
            continue
        x.c.count('wire_schedules')
        g, inch, si, dec = v

        def bad(rule, item, msg, name=name):
            x.bad(rule, 'piping', 'wire_schedules', f'{name}|{item}', f'schedule {name}: {msg}')
        if len({len(g), len(inch), len(si)}) != 1:
            bad('parallel', 'length', f'{len(g)} gauges, {len(inch)} and {len(si)} thicknesses')
        if len(set(g)) != len(g):
            bad('unsorted', 'gauges', 'a gauge occurs twice')
        for a, b, s in zip(g, inch, si):
            x.c.count('wire_gauges')
            if not close(b*INCH, s, 0, 5.1e-7):
                bad('presentations', f'{a}', f'gauge {a} is {b} inch, but {s} m')
        for what, col in (('inch', inch), ('SI', si)):
            for i, (a, b) in enumerate(zip(col, col[1:])):
                if b >= a:
                    bad('unsorted', f'{what}[{i + 1}]', f'thickness {b} ({what}) of gauge {g[i + 1] if i + 1 < len(g) else "?"} follows {a}: thicknesses decrease')


def family(s):
    import re
    if re.fullmatch(r'\d+|STD|XS|XXS', s):
        return 'ASME B36.10'
    if re.fullmatch(r'\d+S', s):
        return 'ASME B36.19'
    m = re.search(r'(D2241CTS|D2241PIP|D2241|D1785|D1527|C900|CIDR|IPSDR|F441IPS|F441SI|F2619IPS|F2619SI)', s)
    return m.group(1) if m else None


# ------------------------------------------------------------------ sieves
def sieves(x):
    mod = 'particle_size_distribution'
    tabs = {}
    for tab in ('ASTM_E11_sieves', 'ISO_3310_1_sieves'):
        d = x.get(mod, tab)
        rows = {}
        for key, s in (d or {}).items():
            if not isinstance(s, Rec):
                continue
            x.c.count('sieves')
            k = s.kwargs
            rows[key] = k

            def bad(rule, msg, key=key):
                x.bad(rule, mod, tab, key, f'sieve {key}: {msg}')
            try:
                mm = float(key)
            except ValueError:
                continue
            if k.get('designation') != key:
                bad('sieve-key', f'is filed under another designation, {k.get("designation")!r}')
            if is_num(k.get('opening')) and not close(k['opening'], mm*1e-3, 1e-9):
                bad('sieve-opening', f'the opening of {k["opening"]} m is not the designation of {key} mm')
            o, X, Y, mx = k.get('opening'), k.get('X_variation_max'), k.get('Y_variation_avg'), k.get('max_opening')
            if is_num(k.get('opening_inch')) and not close(k['opening_inch']*INCH, o, 0.05):
                bad('sieve-inch', f'the opening of {k["opening_inch"]} inch is not that of {o} m')
            if is_num(mx) and is_num(X) and not close(mx, o + X, 2e-3, 6e-7):
                bad('sieve-maximum', f'the maximum opening {mx} m is not the opening {o} m plus its maximum variation {X} m')
            if is_num(X) and is_num(Y) and not Y < X < o:
                bad('sieve-variation', f'the variations {Y} m (average), {X} m (maximum) and the opening {o} m are not in increasing order')
            w, lo, hi = k.get('d_wire'), k.get('d_wire_min'), k.get('d_wire_max')
            if is_num(w):
                if is_num(lo) and is_num(hi) and not lo <= w <= hi:
                    bad('sieve-wire-order', f'the permissible wire diameters {lo} m to {hi} m do not contain the typical one, {w} m')
                if not o/30 < w < o*1.5:
                    bad('sieve-wire', f'the wire diameter of {w} m is out of proportion to the opening of {o} m')
            cs, ins, cal = k.get('compliance_sd'), k.get('inspection_sd'), k.get('calibration_sd')
            if is_num(cs) and is_num(ins) and is_num(cal) and not ins <= cal <= cs:
                bad('sieve-deviation', f'the standard deviations for inspection, calibration and compliance, {ins}, {cal} and {cs}, are not in increasing order')
        tabs[tab] = rows
        col = sorted((k['opening'], key, k) for key, k in rows.items() if is_num(k.get('opening')))
        for (o1, a, ka), (o2, b, kb) in zip(col, col[1:]):
            for c in ('X_variation_max', 'Y_variation_avg', 'max_opening', 'compliance_sd', 'inspection_sd', 'calibration_sd', 'd_wire', 'd_wire_min', 'd_wire_max', 'opening_inch'):
                if is_num(ka.get(c)) and is_num(kb.get(c)):
                    x.c.count('sieve_steps')
                    if kb[c] < ka[c]*(1 - 1e-12):
                        x.bad('sieve-order', mod, tab, f'{b}|{c}', f'{c} falls from {ka[c]} for the {a} mm sieve to {kb[c]} for the larger {b} mm one')
        for a, b in ((tab, tab.replace('_sieves', '_sieve_designations')),):
            names = x.get(mod, b)
            if isinstance(names, list):
                x.c.count('sieve_lists')
                if sorted(names) != sorted(rows):
                    x.bad('sieve-list', mod, b, 'members', f'lists {sorted(set(names) ^ set(rows))} on one side only, compared with {a}')
                ordered(x, mod, b, names)
    for key in set(tabs.get('ASTM_E11_sieves', ())) & set(tabs.get('ISO_3310_1_sieves', ())):
        a, b = tabs['ASTM_E11_sieves'][key], tabs['ISO_3310_1_sieves'][key]
        if float(key) >= 1.0:
            for c in ('opening', 'd_wire', 'd_wire_min', 'd_wire_max'):
                x.c.count('sieve_presentations')
                if is_num(a.get(c)) and is_num(b.get(c)) and not close(a[c], b[c]):
                    x.bad('presentations', mod, 'ISO_3310_1_sieves', f'{key}|{c}', f'{c} of the {key} mm sieve is {b[c]}, and {a[c]} in ASTM_E11_sieves')
    for name in ('ISO_3310_1_R20_keys', 'ISO_3310_1_R40_3_keys', 'ISO_3310_1_R10_keys'):
        v = x.get(mod, name)
        if isinstance(v, list):
            x.c.count('sieve_lists')
            ordered(x, mod, name, v)
            for k in v:
                if k not in tabs.get('ISO_3310_1_sieves', {k: 0}):
                    x.bad('sieve-list', mod, name, k, f'{k} is no sieve of ISO_3310_1_sieves')
    v = x.get(mod, 'ISO_3310_1_R20_3')
    if isinstance(v, list) and all(isinstance(s, Rec) for s in v):
        x.c.count('sieve_lists')
        ordered(x, mod, 'ISO_3310_1_R20_3', [s.kwargs.get('designation', '0') for s in v])


def ordered(x, mod, name, v):
    f = [float(k) for k in v]
    for i, (a, b) in enumerate(zip(f, f[1:])):
        if b >= a:
            x.bad('unsorted', mod, name, f'{v[i + 1]}', f'{v[i + 1]} follows {v[i]}: the sieves are listed from the largest opening to the smallest')


# ------------------------------------------------------------------ the rest
def relations(x):
    for mod, name, src, fn, tol in DERIVED:
        a, b = x.get(mod, name), x.get(mod, src)
        if numbers(a) and numbers(b):
            x.c.count('derived_tables')
            if len(a) != len(b):
                x.bad('parallel', mod, name, 'length', f'{len(a)} entries, {len(b)} in {src}')
            for i, (p, q) in enumerate(zip(a, b)):
                x.c.count('derived_entries')
                try:
                    w = fn(q)
                except (ValueError, ArithmeticError):
                    w = math.nan
                if not close(p, w, tol, 1e-12):
                    x.bad('derived', mod, name, f'[{i}]', f'entry {i} is {p}, its source entry {q} of {src} gives {w:.10g}')
    for mod, names in PARALLEL:
        have = [(n, x.get(mod, n)) for n in names]
        have = [(n, v) for n, v in have if isinstance(v, (list, tuple))]
        for n, v in have[1:]:
            x.c.count('parallel_tables')
            if len(v) != len(have[0][1]):
                x.bad('parallel', mod, n, 'length', f'{len(v)} entries, {len(have[0][1])} in {have[0][0]}')
    for mod, coord, tab, prefix in GRADES:
        d, xs = x.get(mod, tab), x.get(mod, coord)
        rows = sorted((float(k[len(prefix):]), k, v) for k, v in (d or {}).items() if isinstance(k, str) and k.startswith(prefix) and numbers(v))
        for g, k, v in rows:
            x.c.count('efficiency_grades')
            if numbers(xs) and len(v) != len(xs):
                x.bad('parallel', mod, tab, k, f'{k} has {len(v)} entries, {coord} {len(xs)}')
            for i, e in enumerate(v):
                if not 0 <= e <= 1:
                    x.bad('bounds', mod, tab, f'{k}[{i}]', f'efficiency {e} of {k}')
            for i, (p, q) in enumerate(zip(v, v[1:])):
                if q < p - 1e-12:
                    x.bad('unsorted', mod, tab, f'{k}[{i + 1}]', f'efficiency of {k} falls from {p} to {q} with size')
        for (g, k, v), (g2, k2, v2) in zip(rows, rows[1:]):
            for i, (p, q) in enumerate(zip(v, v2)):
                if q < p - 1e-12:
                    x.bad('grades', mod, tab, f'{k2}[{i}]', f'entry {i} of the better grade {k2}, {q}, is below {p} of {k}')
    for name, v in (x.get('friction', 'HHR_roughness') or {}).items():
        if isinstance(v, tuple) and len(v) == 3:
            x.c.count('roughnesses')
            span(x, 'friction', 'HHR_roughness', name, (v[0], v[2], v[1]))
    for d in ('n_natural', 'n_excavated_dredged', 'n_lined_built', 'n_closed_conduit'):
        walk(x, 'open_flow', d, x.get('open_flow', d))
    plugs, freqs = x.get('pump', 'electrical_plug_types'), x.get('pump', 'residential_power_frequencies')
    for tab, volts in (('residential_power', 'voltages_1_phase_residential'), ('industrial_power', None)):
        vs = volts and x.get('pump', volts)
        for code, r in (x.get('pump', tab) or {}).items():
            if not isinstance(r, Rec):
                continue
            x.c.count('countries')
            k = r.kwargs
            for p in k.get('plugs') or ():
                if plugs and p not in plugs:
                    x.bad('listed', 'pump', tab, f'{code}|plug {p}', f'{code}: plug type {p!r} is not listed')
            for f in k['freq'] if isinstance(k.get('freq'), (tuple, list)) else [k.get('freq')]:
                if is_num(f) and freqs and f not in freqs:
                    x.bad('listed', 'pump', tab, f'{code}|{f} Hz', f'{code}: frequency {f} Hz is not listed')
            for v in k['voltage'] if isinstance(k.get('voltage'), (tuple, list)) else [k.get('voltage')]:
                if is_num(v) and vs and v not in vs:
                    x.bad('listed', 'pump', tab, f'{code}|{v} V', f'{code}: voltage {v} V is not in {volts}')
    a, b = x.get('pump', 'residential_power') or {}, x.get('pump', 'industrial_power') or {}
    for code in set(a) & set(b):
        fa, fb = a[code].kwargs.get('freq'), b[code].kwargs.get('freq')
        x.c.count('countries_compared')
        if is_num(fa) and is_num(fb) and fa != fb:
            x.bad('presentations', 'pump', 'industrial_power', f'{code}|freq', f'{code}: {fb} Hz, and {fa} Hz in residential_power')
    for (n, k), w in ((k, w) for k, w in (x.get('numerics', 'central_diff_weights_precomputed') or {}).items() if isinstance(k, tuple) and numbers(w)):
        x.c.count('difference_weights')
        m = len(w)//2
        for p in range(0, n + 1):
            s = math.fsum(c*(i - m)**p for i, c in enumerate(w))
            want = float(math.factorial(n)) if p == n else 0.0
            if len(w) != k or abs(s - want) > 1e-6*max(1.0, math.fsum(abs(c*(i - m)**p) for i, c in enumerate(w))):
                x.bad('weights', 'numerics', 'central_diff_weights_precomputed', f'{(n, k)}|{p}', f'weights {(n, k)} applied to x^{p} give {s:.9g} instead of {want:.9g}')
    for tab, pts, other in (('kronrod_weights', 'kronrod_points', None), ('legendre_weights', None, None)):
        W, P = x.get('numerics', tab) or {}, (x.get('numerics', pts) if pts else None) or {}
        for n, w in W.items():
            if not numbers(w):
                continue
            x.c.count('quadrature_weights')
            if abs(math.fsum(w) - 2.0) > 1e-10:
                x.bad('weights', 'numerics', tab, f'{n}|sum', f'the weights of order {n} sum to {math.fsum(w):.12g} instead of 2')
            for i in range(len(w)//2):
                if not close(w[i], w[-1 - i], 1e-10):
                    x.bad('weights', 'numerics', tab, f'{n}|{i}', f'weight {i} of order {n}, {w[i]}, differs from its mirror image {w[-1 - i]}')
            p = P.get(n)
            if numbers(p):
                if len(p) != len(w):
                    x.bad('parallel', 'numerics', pts, f'{n}|length', f'{len(p)} points and {len(w)} weights of order {n}')
                for deg in range(0, 2*n + 2, 2):
                    s = math.fsum(b*a**deg for a, b in zip(p, w))
                    if abs(s - 2.0/(deg + 1)) > 1e-10:
                        x.bad('weights', 'numerics', pts, f'{n}|x^{deg}', f'order {n} integrates x^{deg} to {s:.12g} instead of {2.0/(deg + 1):.12g}')
                        break
                for i in range(len(p)//2):
                    if abs(p[i] + p[-1 - i]) > 1e-10:
                        x.bad('weights', 'numerics', pts, f'{n}|{i}', f'point {i} of order {n}, {p[i]}, is not the mirror image of {p[-1 - i]}')
    H, T, G, P = (x.get('atmosphere', n) for n in ('H_std', 'T_std', 'T_grad', 'P_std'))
    if all(numbers(v) for v in (H, T, G, P)) and len({len(v) for v in (H, T, G, P)}) == 1:
        increasing(lambda r, i, m: x.bad(r, 'atmosphere', 'H_std', i, m), H, 'H_std')
        for i in range(len(H) - 1):
            x.c.count('atmosphere_layers')
            t = T[i] + G[i]*(H[i + 1] - H[i])
            if not close(t, T[i + 1], 1e-9):
                x.bad('layers', 'atmosphere', 'T_std', f'[{i + 1}]', f'layer {i} of gradient {G[i]} K/m from {H[i]} m to {H[i + 1]} m ends at {t:.9g} K, the next begins at {T[i + 1]} K')
            e = 9.80665*28.9644/8314.32
            p = P[i]*math.exp(-e/T[i]*(H[i + 1] - H[i])) if G[i] == 0 else P[i]*(T[i]/T[i + 1])**(e/G[i])
            if not close(p, P[i + 1], 1e-9):
                x.bad('layers', 'atmosphere', 'P_std', f'[{i + 1}]', f'the hydrostatic pressure at {H[i + 1]} m is {p:.10g} Pa, P_std has {P[i + 1]} Pa')
    for name, v in (x.get('friction', 'fmethods') or {}).items():
        if isinstance(v, tuple) and len(v) == 4:
            x.c.count('method_limits')
            for lo, hi in ((v[0], v[1]), (v[2], v[3])):
                if is_num(lo) and is_num(hi) and lo >= hi:
                    x.bad('bounds', 'friction', 'fmethods', name, f'the range of {name} from {lo} to {hi} is empty')


def span(x, mod, tab, name, v):
    v = [q for q in v if is_num(q)]
    if any(b < a for a, b in zip(v, v[1:])) or any(q <= 0 for q in v):
        x.bad('bounds', mod, tab, name, f'{name}: minimum, normal and maximum {", ".join(map(str, v))} are not increasing')


def walk(x, mod, tab, d, pre=''):
    if isinstance(d, dict):
        for k, v in d.items():
            walk(x, mod, tab, v, f'{pre}{k}, ' if pre or True else '')
    elif isinstance(d, tuple) and len(d) == 3:
        x.c.count('roughness_coefficients')
        span(x, mod, tab, pre.rstrip(', '), d)


# ------------------------------------------------------------------ transcription
def flat(v, path='', depth=0):
    """(path, number) of every number inside a value; positions of unordered or keyed values are their keys."""
    if is_num(v):
        yield path, v
    elif isinstance(v, (list, tuple)) and depth < 6:
        for i, q in enumerate(v):
            yield from flat(q, f'{path}[{i}]', depth + 1)
    elif isinstance(v, dict) and depth < 6:
        for k, q in v.items():
            yield from flat(q, f'{path}[{k!r}]', depth + 1)
    elif isinstance(v, Rec) and depth < 6:
        for i, q in enumerate(v.args):
            yield from flat(q, f'{path}({i})', depth + 1) if v.name in ('tck', 'tck_interp2d_linear') else ()
        for k, q in v.kwargs.items():
            yield from flat(q, f'{path}.{k}', depth + 1)


def transcription(x):
    out = {}
    for mn in sorted(x.prog.modules):
        if mn.startswith(SKIP):
            continue
        for name, v in x.t.module(mn).items():
            if isinstance(v, (list, tuple, dict, Rec)):
                d = dict(flat(v))
                if len(d) >= 3:
                    out[f'{mn}.{name}'] = d
    return out


def compare(x, table):
    now = transcription(x)
    for fq, was in table.items():
        have = now.get(fq)
        if have is None:
            x.c.count('tables_not_evaluated')
            continue
        x.c.count('tables_compared')
        mod, name = fq[len('fluids.'):].rsplit('.', 1)
        lists = [p for p in was if p not in have]
        if lists and len(have) > len(was):
            left = sorted(have.values())
            for p, v in was.items():
                i = bisect.bisect_left(left, v - 1e-12*abs(v))
                if i >= len(left) or not close(left[i], v):
                    x.bad('entry-changed', mod, name, p, f'the confirmed entry {v} of {name}{p} is gone')
            continue
        for p, v in was.items():
            x.c.count('entries_compared')
            if p not in have:
                x.bad('entry-changed', mod, name, p, f'the confirmed entry {v} of {name}{p} is gone')
            elif not close(have[p], v, 1e-9):
                x.bad('entry-changed', mod, name, p, f'{name}{p} is {have[p]}, the confirmed entry is {v}')


def check(c, prog):
    x = Ctx(c, prog)
    piping(x)
    sieves(x)
    splines(x)
    interpolations(x)
    relations(x)
    if os.environ.get('FSA_WRITE_TABLES'):
        with gzip.GzipFile(TABLE, 'wb', mtime=0) as fh:
            fh.write(json.dumps(transcription(x), indent=0, sort_keys=True).encode())
    with gzip.open(TABLE) as fh:
        compare(x, json.load(fh))
    for k, least in FLOORS.items():
        c.floor(k, least)
    self_tests(c)
    c.rules = ['parallel / table-shape: columns of one table have equally many rows', 'unsorted: look-up coordinates increase', 'pipe-wall: inner diameter is outer diameter minus twice the wall',
               'presentations: the same standard given twice agrees (inch and SI, schedules of one standard, ASTM and ISO sieves, countries)', 'spline-counts, spline-knots, spline-data: coefficients fit knots and reproduce the data they interpolate',
               'derived: tables computed from others are those values', 'grades, bounds, listed: ranges are ordered, better grades are better, members are listed',
               'sieve-*: relations between the columns of the sieve standards', 'weights: difference and quadrature weights satisfy their moment equations', 'layers: standard atmosphere layers join',
               'entry-changed: no entry departs from the confirmed transcription']
    c.explanation = 'Module-level tables are evaluated as constants from the source (fsa/tables.py) and checked row by row; splines by de Boor recursion on the constant coefficients.'
    c.assumptions = ['tables which were renamed are skipped (floors bound how many)', 'the confirmed transcription is the base tree (data/t01.json.gz)']


FLOORS = {'pipe_schedules': 60, 'pipe_sizes': 900, 'wire_gauges': 250, 'sieves': 140, 'sieve_steps': 900, 'splines': 20, 'splines_compared_with_their_data': 7, 'interpolations': 25, 'derived_tables': 10, 'parallel_tables': 25,
          'efficiency_grades': 40, 'roughnesses': 50, 'roughness_coefficients': 80, 'countries': 200, 'difference_weights': 5, 'quadrature_weights': 2, 'atmosphere_layers': 5, 'tables_compared': 350, 'entries_compared': 11000}


def self_tests(c):
    t, co, k = [0, 0, 0, 1, 2, 2, 2], [0.0, 0.0, 1.0, 4.0], 2
    c.self_test(close(spline(t, [0.0, 0.0, 2.0, 4.0], k, 1.5), 2.25), 'quadratic spline of x^2')
    import tempfile
    from ..program import Program
    from ..report import Check
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'fluids'))
        open(os.path.join(d, 'fluids', '__init__.py'), 'w').close()
        with open(os.path.join(d, 'fluids', 'piping.py'), 'w') as fh:
            fh.write('N = [1, 2, 3]\nDo = [10.0, 20.0, 30.0]\nt = [1.0]*3\nDi = [o - 2*w for o, w in zip(Do, t)]\nbad = Di[:]\nbad[1] += 0.5\n'
                     'short = Di[:2]\nschedule_lookup = {"a": (N, Di, Do, t), "b": (N, bad, Do, t)}\nschedule_lookup.update({"c": (N, short, Do, t)})\n')
        k = Check('T01')
        piping(Ctx(k, Program(d)))
        got = {f['construct'].split('|')[1] for f in k.findings}
        c.self_test(got == {'b', 'c'}, f'piping rules on planted schedules: {got}')
