"""T02: constants and conversion factors have their defined values, everywhere."""
from __future__ import annotations
import ast
import json
import math
import os
from decimal import Decimal, getcontext
from fractions import Fraction as Fr

from .. import formulas as fm
from .. import randint
from ..interp import Interp, is_num
from ..nf import Undecided
from ..report import VERIF
from ..values import Const

TABLE = os.path.join(VERIF, 'data', 't02.json')
getcontext().prec = 50
PI = Fr(Decimal('3.14159265358979323846264338327950288419716939937510'))
D = lambda s: Fr(Decimal(s))
G0, INCH, GRAIN, CEL = D('9.80665'), D('0.0254'), D('64.79891e-6'), D('273.15')
FT, LB = 12 * INCH, 7000 * GRAIN
ATM = Fr(101325)
NA, KB = D('6.02214076e23'), D('1.380649e-23')
C0 = Fr(299792458)
GAL = 231 * INCH**3


def defs():
    """{name: accepted values}: definitions of the SI, of the international yard and pound, and CODATA 2014/2018 for measured constants."""
    d = {}

    def put(names, *vals):
        for n in names.split():
            d[n] = [Fr(v) if not isinstance(v, Fr) else v for v in vals]
    put('pi', PI)
    put('pi_inv', 1 / PI)
    put('golden golden_ratio', Fr(Decimal('1.6180339887498948482045868343656381177203')))
    for n, e in zip('quetta ronna yotta zetta exa peta tera giga mega kilo hecto deka deci centi milli micro nano pico femto atto zepto yocto ronto quecto'.split(),
                    (30, 27, 24, 21, 18, 15, 12, 9, 6, 3, 2, 1, -1, -2, -3, -6, -9, -12, -15, -18, -21, -24, -27, -30)):
        put(n, Fr(10)**e)
    for i, n in enumerate('kibi mebi gibi tebi pebi exbi zebi yobi'.split()):
        put(n, 2**(10 * (i + 1)))
    put('c speed_of_light', C0)
    put('mu_0', 4 * PI / 10**7)
    put('epsilon_0', 1 / (4 * PI / 10**7 * C0**2))
    h = [D('6.62607004e-34'), D('6.626070040e-34'), D('6.62607015e-34')]
    put('h Planck', *h)
    put('hbar', *[x / 2 / PI for x in h])
    put('G gravitational_constant', D('6.67408e-11'), D('6.67430e-11'))
    put('g', G0)
    put('g_sqrt', Fr(Decimal('9.80665').sqrt()))
    e = [D('1.6021766208e-19'), D('1.602176634e-19')]
    put('e elementary_charge eV electron_volt', *e)
    put('alpha fine_structure', D('0.0072973525664'), D('0.0072973525693'))
    put('N_A Avogadro', NA)
    put('k Boltzmann', KB)
    put('sigma Stefan_Boltzmann', D('5.670367e-8'), D('5.670374419e-8'))
    put('Wien', D('0.0028977729'), D('0.002897771955'))
    put('Rydberg', D('10973731.568508'), D('10973731.568160'))
    put('R gas_constant', NA * KB)
    put('R_inv', 1 / (NA * KB))
    put('R2', (NA * KB)**2)
    put('gram', D('1e-3'))
    put('metric_ton', 1000)
    put('grain', GRAIN)
    put('lb pound', LB)
    put('blob slinch', LB * G0 / INCH)
    put('slug', LB * G0 / FT)
    put('oz ounce', LB / 16)
    put('stone', 14 * LB)
    put('long_ton', 2240 * LB)
    put('short_ton', 2000 * LB)
    put('troy_ounce', 480 * GRAIN)
    put('troy_pound', 5760 * GRAIN)
    put('carat', D('2e-4'))
    put('m_e electron_mass', D('9.10938356e-31'), D('9.1093837015e-31'))
    put('m_p proton_mass', D('1.672621898e-27'), D('1.67262192369e-27'))
    put('m_n neutron_mass', D('1.674927471e-27'), D('1.67492749804e-27'))
    put('m_u u atomic_mass', D('1.66053904e-27'), D('1.660539040e-27'), D('1.66053906660e-27'))
    put('degree deg2rad', PI / 180)
    put('rad2deg', 180 / PI)
    put('arcmin arcminute', PI / 180 / 60)
    put('arcsec arcsecond', PI / 180 / 3600)
    put('minute', 60)
    put('hour', 3600)
    put('hour_inv', Fr(1, 3600))
    put('day', 86400)
    put('week', 604800)
    put('year', 365 * 86400)
    put('Julian_year', Fr(36525, 100) * 86400)
    put('inch', INCH)
    put('inch_inv', 1 / INCH)
    put('foot', FT)
    put('foot_cubed', FT**3)
    put('foot_cubed_inv', 1 / FT**3)
    put('yard', 3 * FT)
    put('mile', 5280 * FT)
    put('mil', INCH / 1000)
    put('pt point', INCH / 72)
    put('survey_foot', Fr(1200, 3937))
    put('survey_mile', 5280 * Fr(1200, 3937))
    put('nautical_mile', 1852)
    put('fermi', Fr(10)**-15)
    put('angstrom', Fr(10)**-10)
    put('micron', Fr(10)**-6)
    au = [Fr(149597870691), Fr(149597870700)]
    put('au astronomical_unit', *au)
    put('light_year', Fr(36525, 100) * 86400 * C0)
    put('parsec', *[x * 180 * 3600 / PI for x in au])
    put('atm atmosphere', ATM)
    put('bar', 10**5)
    put('torr mmHg', ATM / 760)
    put('inchHg', ATM / 760 * D('25.4'))
    psi = LB * G0 / INCH**2
    put('psi', psi)
    put('atm_inv atmosphere_inv', 1 / ATM)
    put('torr_inv mmHg_inv', 760 / ATM)
    put('psi_inv', 1 / psi)
    put('hectare', 10**4)
    put('acre', 43560 * FT**2)
    put('litre liter', Fr(1, 1000))
    put('gallon gallon_US', GAL)
    put('fluid_ounce fluid_ounce_US', GAL / 128)
    put('bbl barrel', 42 * GAL)
    put('gallon_imp', D('4.54609e-3'))
    put('fluid_ounce_imp', D('4.54609e-3') / 160)
    put('kmh', Fr(1000, 3600))
    put('mph', 5280 * FT / 3600)
    put('mach speed_of_sound', D('340.5'), D('340.29'), D('340.3'))
    put('knot', Fr(1852, 3600))
    put('zero_Celsius', CEL)
    put('degree_Fahrenheit', Fr(5, 9))
    put('calorie calorie_th', D('4.184'))
    put('calorie_IT', D('4.1868'))
    put('erg', Fr(10)**-7)
    put('Btu_th', LB * 1000 * Fr(5, 9) * D('4.184'))
    put('Btu Btu_IT', LB * 1000 * Fr(5, 9) * D('4.1868'))
    put('ton_TNT', 10**9 * D('4.184'))
    put('hp horsepower', 550 * FT * LB * G0)
    put('dyn dyne', Fr(10)**-5)
    put('lbf pound_force', LB * G0)
    put('kgf kilogram_force', G0)
    put('root_two', Fr(Decimal(2).sqrt()))
    put('ln_10', Fr(Decimal(10).ln()))
    put('ln_10_inv', 1 / Fr(Decimal(10).ln()))
    put('debye', D('3.33564095198e-30'))
    return d


ROOT3, ROOT2 = Fr(Decimal(3).sqrt()), Fr(Decimal(2).sqrt())
OTHER = {   # module scalars with a definition
    'fluids.atmosphere': {'r0': 6356766, 'P0': 101325, 'M0': D('28.9644'), 'g0': G0, 'gamma': D('1.4')},
    'fluids.control_valve': {'N1': D('0.1'), 'N2': D('1.6e-3'), 'N4': D('7.07e-2'), 'N5': D('1.8e-3'), 'N6': D('3.16'), 'N7': D('4.82'), 'N8': D('1.1'), 'N9': D('24.6'),
                             'N18': D('0.865'), 'N19': D('2.5'), 'N27': D('0.775'), 'N32': 140},
    'fluids.core': {'zero_Celsius': CEL, 'degree_Fahrenheit': Fr(5, 9)},
    'fluids.design_climate': {'five_ninths': Fr(5, 9)},
    'fluids.particle_size_distribution': {'ROOT_TWO_PI': Fr((Decimal(2) * Decimal('3.14159265358979323846264338327950288419716939937510')).sqrt())},
    'fluids.safety_valve': {'inch2': INCH**2},
    'fluids.numerics': {'third': Fr(1, 3), 'sixth': Fr(1, 6), 'ninth': Fr(1, 9), 'twelfth': Fr(1, 12), 'two_thirds': Fr(2, 3), 'four_thirds': Fr(4, 3), 'root_three': ROOT3, 'one_27': Fr(1, 27)},
    'fluids.numerics.polynomial_roots': {'third': Fr(1, 3), 'sixth': Fr(1, 6), 'ninth': Fr(1, 9), 'twelfth': Fr(1, 12), 'two_thirds': Fr(2, 3), 'four_thirds': Fr(4, 3), 'root_three': ROOT3,
                                         'one_27': Fr(1, 27)},
    'fluids.numerics.doubledouble': {'third': Fr(1, 3)},
}
# conversions: the value at a parameter, as the definitions of the units give it
CONVERT = {
    'fluids.core.C2K': lambda C: C + 273.15, 'fluids.core.K2C': lambda K: K - 273.15, 'fluids.core.F2C': lambda F: (F - 32) / 1.8, 'fluids.core.C2F': lambda C: 1.8 * C + 32,
    'fluids.core.F2K': lambda F: (F + 459.67) / 1.8, 'fluids.core.K2F': lambda K: 1.8 * K - 459.67, 'fluids.core.C2R': lambda C: 1.8 * (C + 273.15), 'fluids.core.K2R': lambda K: 1.8 * K,
    'fluids.core.F2R': lambda F: F + 459.67, 'fluids.core.R2C': lambda Ra: Ra / 1.8 - 273.15, 'fluids.core.R2K': lambda Ra: Ra / 1.8, 'fluids.core.R2F': lambda Ra: Ra - 459.67,
}
NEAR = 2e-4
PLAIN = ('pi', 'golden', 'c', 'h', 'G', 'g', 'e', 'N_A', 'k', 'sigma', 'R', 'lb', 'lbf', 'slug', 'oz', 'deg2rad', 'rad2deg', 'inch', 'foot', 'mile', 'nautical_mile', 'au', 'atm', 'torr', 'inchHg', 'psi',
         'gallon', 'bbl', 'gallon_imp', 'mph', 'knot', 'zero_Celsius', 'calorie', 'calorie_IT', 'Btu', 'hp', 'root_two', 'ln_10', 'acre')
MORE = {'exp(1)': Fr(Decimal(1).exp()), 'sqrt(3)': ROOT3, 'ln(2)': Fr(Decimal(2).ln()), 'sqrt(pi)': Fr(Decimal('3.14159265358979323846264338327950288419716939937510').sqrt()),
        'cubic foot': FT**3, '459.67': D('459.67'), '491.67': D('491.67'), 'cubic inch': INCH**3}


def near_misses(prog, known):
    """{(module, constant, literal): [line]} of literals which nearly are a constant, its inverse or a decimal multiple."""
    cs = [(n, float(known[n][0])) for n in PLAIN] + [(n, float(v)) for n, v in MORE.items()]
    # mantissa in [1, 10) of each constant and inverse
    man = sorted((v / 10.0**math.floor(math.log10(v)), n) for name, x in cs for v, n in ((x, name), (1 / x, '1/' + name)))
    out = {}
    n = 0
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if not (isinstance(x, ast.Constant) and isinstance(x.value, float) and 1e-40 < x.value < 1e40):
                continue
            digits = repr(x.value).lower().split('e')[0].replace('.', '').strip('0')
            if len(digits) < 4:
                continue
            n += 1
            f = x.value / 10.0**math.floor(math.log10(x.value))
            for w, c in man:
                if abs(f / w - 1) < NEAR:
                    if round(f, len(digits) - 1) == round(w, len(digits) - 1):
                        continue    # the constant, to the digits written
                    out.setdefault((m.name, c, repr(x.value)), []).append(x.lineno)
    return n, out


def check(c, prog):
    known = defs()
    it = Interp(prog)
    m = prog.modules.get('fluids.constants.constants')
    if m is None:
        c.violation('missing', 'fluids.constants.constants', 'fluids/constants', 'the constants module is gone')
        return
    have = {}
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            have.setdefault(s.id, s.lineno)
    for n, vals in known.items():
        if n not in have:
            c.violation('missing', n, m.rel, f'{n} is not defined')
            continue
        test(c, it, m, n, vals, have[n])
    for name in have:
        if name not in known and not name.startswith('_'):
            c.count('constants_without_a_definition')
    for mod, d in OTHER.items():
        mm = prog.modules.get(mod)
        if mm is None:
            continue
        for n, v in d.items():
            test(c, it, mm, n, [Fr(v)], 1, True)
    for fq, f in CONVERT.items():
        fi = prog.func(fq)
        if fi is None or len(fi.params) != 1:
            continue
        want = [f(x) for x in randint.draw(fi.params[0])]
        run = fm.Run(prog, fi, 2000)
        for r in run.rows:
            if r.why is None and not r.nums and r.vecs:
                c.count('conversions')
                if not any(fm.same(v, want) for v in r.vecs):
                    c.violation('conversion', fq, f'{fi.module.rel}:{r.line}', f'{fi.name} is not the conversion the units define')
    n, near = near_misses(prog, known)
    c.count('literals_compared', n)
    if os.environ.get('FSA_WRITE_TABLES'):
        with open(TABLE, 'w') as fh:
            json.dump(sorted(map(list, near)), fh, indent=0)
            fh.write('\n')
    with open(TABLE) as fh:
        ok = {tuple(x) for x in json.load(fh)}
    for k, lines in sorted(near.items()):
        if k in ok or any(a[1:] == k[1:] for a in ok):
            c.count('other_numbers_near_a_constant')
            continue
        mm = prog.modules[k[0]]
        c.violation('near-miss', '|'.join(k), f'{mm.rel}:{lines[0]}', f'{k[2]} is close to, but not, {k[1]} (to the digits written)')
    c.floor('constants', 150)
    c.floor('literals_compared', 2000)
    c.self_test(abs(float(known['psi'][0]) - 6894.757293168361) < 1e-9 and abs(float(known['hp'][0]) - 745.6998715822702) < 1e-9, 'definitions')
    c.rules = ['value: a named constant evaluates (from the source) to something else than its definition, beyond 4 units of rounding',
               'conversion: a temperature conversion is not the linear function the scales define',
               'near-miss: a number in the source agrees with a constant, its inverse or a decimal multiple to about four digits, but not to the digits it is written with']
    c.explanation = ('Exact rational definitions of the SI and the customary units, and CODATA values, are the oracle for constant evaluation of every name of fluids.constants and of scalar constants of other modules; '
                     'every literal of four or more digits of the package is compared with the constants.')
    c.assumptions = ['numbers of correlations which happen to be near a constant on the unchanged tree are listed in data/t02.json']


def test(c, it, m, n, vals, line, other=False):
    v = it.module_value(m, n)
    if not (isinstance(v, Const) and is_num(v.v) and not isinstance(v.v, complex)) or v.v != v.v or abs(v.v) == math.inf:
        c.count('constants_undecided')
        return
    c.count('constants_of_other_modules' if other else 'constants')
    x = Fr(v.v)
    if not any(abs(x - w) <= abs(w) * Fr(1, 10**15) for w in vals):
        c.violation('value', f'{m.name}.{n}', f'{m.rel}:{line}', f'{n} is {v.v!r}, defined as {float(vals[0])!r}')
