"""O01: advertised and accepted methods are the same."""
from __future__ import annotations
import ast
import json
import os

from .. import flows
from ..dispatch import names
from ..docs import parse
from ..interp import Budget, Interp, State
from ..nonepat import given_kind, none_params, patterns
from ..optscan import candidates
from ..pool import pmap
from ..scope import Calc
from ..values import Const, DictV, ListV, Lit, NONE, Sym, TupV, vnum

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'o01.json')

LISTING = [('drag', 'drag_sphere', 'Method'), ('friction', 'friction_factor', 'Method'), ('friction', 'friction_factor_curved', 'Method'),
           ('packed_bed', 'dP_packed_bed', 'Method'), ('two_phase', 'two_phase_dP', 'Method'), ('two_phase_voidage', 'liquid_gas_voidage', 'Method'),
           ('two_phase_voidage', 'gas_liquid_viscosity', 'Method')]

# (function, option, published collections whose union it accepts)
PUBLISHED = [
    ('fluids.friction.friction_factor', 'Method', ['fluids.friction.fmethods', '+laminar']),
    ('fluids.friction.friction_factor_curved', 'Method', ['fluids.friction.curved_friction_laminar_methods', 'fluids.friction.curved_friction_turbulent_methods']),
    ('fluids.friction.friction_factor_curved', 'Method', ['fluids.friction.curved_friction_laminar_methods_list', 'fluids.friction.curved_friction_turbulent_methods_list']),
    ('fluids.friction.helical_Re_crit', 'Method', ['fluids.friction.curved_friction_transition_methods']),
    ('fluids.drag.drag_sphere', 'Method', ['fluids.drag.drag_sphere_correlations']),
    ('fluids.packed_bed.dP_packed_bed', 'Method', ['fluids.packed_bed.packed_beds_correlations']),
    ('fluids.two_phase.two_phase_dP', 'Method', ['fluids.two_phase.two_phase_correlations']),
    ('fluids.two_phase_voidage.liquid_gas_voidage', 'Method', ['fluids.two_phase_voidage.two_phase_voidage_correlations']),
    ('fluids.two_phase_voidage.gas_liquid_viscosity', 'Method', ['fluids.two_phase_voidage.liquid_gas_viscosity_correlations']),
    ('fluids.two_phase_voidage.gas_liquid_viscosity', 'Method', ['fluids.two_phase_voidage.liquid_gas_viscosity_correlations_list']),
    ('fluids.friction.roughness_Farshad', 'ID', ['fluids.friction._Farshad_roughness']),
    ('fluids.flow_meter.differential_pressure_meter_C_epsilon', 'meter_type', ['fluids.flow_meter.all_meters']),
    ('fluids.flow_meter.differential_pressure_meter_beta', 'meter_type', ['fluids.flow_meter.all_meters']),
    ('fluids.flow_meter.differential_pressure_meter_solver', 'meter_type', ['fluids.flow_meter.all_meters']),
] + [(f'fluids.fittings.{x}', 'method', [f'fluids.fittings.{x}_methods']) for x in
     ('entrance_sharp', 'entrance_distance', 'entrance_angled', 'entrance_rounded', 'entrance_beveled', 'bend_rounded', 'bend_miter', 'contraction_sharp',
      'contraction_round', 'contraction_conical', 'diffuser_sharp', 'diffuser_conical')]


def collection(prog, fq):
    """Strings in a module-level collection (or keys of a mapping), or None."""
    if fq[0] == '+':
        return {fq[1:]}
    mod, n = fq.rsplit('.', 1)
    m = prog.modules.get(mod)
    if m is None or n not in m.bind:
        return None
    it = Interp(prog)
    st = State()
    v = it.module_name(m, n, st, None)
    if isinstance(v, list):
        st, v = v[0]
    v = it.deref(v, st)
    return strings(it, v, st)


def strings(it, v, st):
    if isinstance(v, Lit):
        return {x for x in v.v if isinstance(x, str)} if isinstance(v.v, (list, tuple, set, frozenset, dict)) else None
    if isinstance(v, DictV) and v.complete:
        return {k for k in v.items if isinstance(k, str)}
    if isinstance(v, TupV) or isinstance(v, ListV) and v.items is not None:
        out = set()
        for x in v.items:
            x = it.refine(x, st) if isinstance(x, Sym) else x
            if not isinstance(x, Const) or not isinstance(x.v, str):
                return None
            out.add(x.v)
        return out
    return None


def gives(prog, f, fixed, given, budget, missing=()):
    """Does f return on some path with these options? None: undecided."""
    it = Calc(prog, budget=budget)
    a = {p: Const(v) for p, v in fixed.items()}
    for p in none_params(f):
        if p in fixed:
            continue
        if given is not None:
            a[p] = Sym(vn=vnum('param', f.fq, p), deps=frozenset([p]), kind=given_kind(f, p)) if p in given else NONE
    try:
        res = it.entry(f, args=a)
    except Budget:
        return None
    return any(o.kind == 'return' for o in res)


def listed(prog, g, given, checked, budget):
    """Union of the names returned and whether some path could not be decided."""
    it = Calc(prog, budget=budget)
    a = {p: (Sym(vn=vnum('param', g.fq, p), deps=frozenset([p]), kind=given_kind(g, p)) if p in given else NONE) for p in none_params(g)}
    if 'check_ranges' in g.params:
        a['check_ranges'] = Const(checked)
    try:
        res = it.entry(g, args=a)
    except Budget:
        return set(), False
    out, ok = set(), True
    for o in res:
        if o.kind != 'return':
            continue
        s = strings(it, it.deref(o.val, o.st), o.st)
        if s is None:
            ok = False
        else:
            out |= s
    return out, ok


def quoted(f, p):
    """Names the documentation of parameter p lists in quotes."""
    import re
    d = parse(f.doc) or {}
    for q in d.get('Parameters', []):
        if q.name == p:
            txt = ' '.join(q.desc.split('\n'))
            return set(re.findall(r"(?<!\w)'([^'\n]{1,60})'(?!\w)", txt) + re.findall(r'"([^"\n]{1,60})"', txt)) - set(f.params)
    return set()


def default(f, p):
    d = f.defaults.get(p)
    return d.value if isinstance(d, ast.Constant) and isinstance(d.value, str) else None


def check(c, prog):
    write = bool(os.environ.get('FSA_WRITE_TABLES'))
    tab = json.load(open(TABLE)) if os.path.exists(TABLE) and not write else {}
    fs = {f.fq: f for f in flows.functions(prog) if f.cls is None}
    budget = 20000 if c.tier == 'quick' else 100000

    # 1. published collections
    jobs, acc = [], {}
    for fq, p, cols in PUBLISHED:
        f = fs.get(fq)
        if f is None or p not in f.params:
            continue
        adv = set()
        sets = [collection(prog, x) for x in cols]
        if any(s is None for s in sets):
            c.notes.append(f'{fq}: {cols} not readable')
            continue
        for s in sets:
            adv |= s
        jobs.append((f, p, cols, adv))
    res = pmap(lambda j: ({M: gives(prog, j[0], {j[1]: M}, None, budget) for M in sorted(j[3])}, names(prog, j[0], j[1])), jobs)
    for (f, p, cols, adv), (ans, acc) in zip(jobs, res):
        src = ' + '.join(x.split('.')[-1] for x in cols)
        c.count('published_lists')
        c.sample(f'{f.fq}({p}) ~ {src}')
        for M, ok in sorted(ans.items()):
            c.count('advertised')
            if ok is False:
                c.violation('advertised-refused', f'{f.fq}|{p}|{M}', f.module.loc(f.node), f'{src} lists {M!r}, but {f.name}({p}={M!r}) raises on every path')
        for M in sorted(acc - adv):
            c.count('accepted_elsewhere')
            if gives(prog, f, {p: M}, None, budget) and [f.fq, p, M] not in UNLISTED:
                c.violation('accepted-unlisted', f'{f.fq}|{p}|{M}', f.module.loc(f.node), f'{f.name} accepts {p}={M!r}, which {src} does not list')

    # 2. defaults and documented names
    todo = [(f, p) for f in fs.values() for p, fr in candidates(f, prog).items() if isinstance(fr, str)]
    res = pmap(lambda j: work(prog, tab, j[0], j[1], budget, write), todo)
    t = {}
    for (f, p), (dflt, docn) in zip(todo, res):
        if dflt is not None:
            c.count('defaults')
            if dflt[1] is False and not write:
                c.violation('default-refused', f'{f.fq}|{p}', f.module.loc(f.node), f'the default {p}={dflt[0]!r} of {f.name} is refused on every path')
        for M, ok in sorted(docn.items()):
            if write:
                if ok:
                    t.setdefault(f.fq, {}).setdefault(p, []).append(M)
                continue
            c.count('documented')
            if ok is False:
                c.violation('documented-refused', f'{f.fq}|{p}|{M}', f.module.loc(f.node), f'the documentation of {f.name} lists {p}={M!r}, which raises on every path')
    if write:
        with open(TABLE, 'w') as fh:
            json.dump(t, fh, indent=0, sort_keys=True)
            fh.write('\n')

    # 3. method-listing functions
    jobs = []
    for mod, x, p in LISTING:
        g, f = prog.modules[f'fluids.{mod}'].functions.get(x + '_methods'), fs.get(f'fluids.{mod}.{x}')
        if g is None or f is None:
            continue
        for pat in patterns(none_params(g)):
            jobs.append((g, f, p, pat))
    res = pmap(lambda j: cross(prog, *j, budget), jobs)
    done = set()
    for (g, f, p, pat), (bad, miss, n, ok) in zip(jobs, res):
        c.count('listing_patterns')
        c.count('listed_names', n)
        if not ok:
            c.count('undecided')
        what = ', '.join(sorted(pat)) or 'no optional argument'
        for M in bad:
            if (f.fq, M) not in done:
                done.add((f.fq, M))
                c.violation('listed-refused', f'{g.fq}|{M}', g.module.loc(g.node), f'{g.name} with {what} lists {M!r}, but {f.name}({p}={M!r}) with {what} raises on every path')
        for M in miss:
            if (f.fq, M, 'm') not in done and not ((f.fq, M) in RESERVED and not pat):
                done.add((f.fq, M, 'm'))
                c.violation('usable-unlisted', f'{g.fq}|{M}', g.module.loc(g.node), f'{f.name}({p}={M!r}) with {what} is accepted, but {g.name} never lists {M!r} for it')
    c.floor('published_lists', 18)
    c.floor('advertised', 200)
    c.floor('defaults', 25)
    c.floor('documented', 80)
    c.floor('listing_patterns', 150)
    c.floor('listed_names', 1500)
    c.rules = ['advertised-refused: a name in a published list raises on every path of the function', 'accepted-unlisted: a name the function compares its option with, and answers, is in no published list',
               'default-refused: the default option value raises on every path', 'documented-refused: a name quoted in the documentation of the option raises on every path',
               'listed-refused: a method listed for a pattern of given inputs raises on every path of the dispatcher for that pattern',
               'usable-unlisted: the dispatcher answers a method for a pattern for which the method-listing function never lists it']
    c.explanation = ('Published lists and registries are read from the source; the names a dispatcher accepts are found by watching what its option is compared with or looked up in during abstract '
                     'interpretation; every name is then bound and the dispatcher interpreted. The *_methods functions are evaluated abstractly, to concrete lists, for every pattern of given and omitted '
                     'inputs and the dispatcher is interpreted for each listed name under the same pattern.')
    c.assumptions = ['a path which may return is taken to be an acceptance; range restrictions on numbers are not part of this property']


UNLISTED = []
# wall-effect correlations answer without a bed diameter too; the listing reserves them for beds which give one
RESERVED = {('fluids.packed_bed.dP_packed_bed', M) for M in ('Guo, Sun, Zhang, Ding & Liu', 'Harrison, Brunner & Hecker', 'Montillet, Akkari & Comiti')}


def work(prog, tab, f, p, budget, write):
    d = default(f, p)
    dflt = (d, gives(prog, f, {p: d}, None, budget)) if d is not None else None
    ns = quoted(f, p) if write else set(tab.get(f.fq, {}).get(p, ())) & quoted(f, p)
    if not write:
        # names added to the documentation since
        ns |= {x for x in quoted(f, p) if x in names(prog, f, p)}
    acc = names(prog, f, p) if write else ()
    return dflt, {M: (gives(prog, f, {p: M}, None, budget) and M in acc if write else gives(prog, f, {p: M}, None, budget)) for M in sorted(ns)}


def cross(prog, g, f, p, pat, budget):
    bad, miss, n, allok = [], [], 0, True
    every = set()
    for checked in (True, False):
        L, ok = listed(prog, g, pat, checked, budget)
        allok &= ok
        every |= L
    ns = every | names(prog, f, p)
    for M in sorted(ns):
        r = gives(prog, f, {p: M}, pat, budget)
        if M in every:
            n += 1
            if r is False:
                bad.append(M)
        elif r and allok:
            miss.append(M)
    return bad, miss, n, allok
