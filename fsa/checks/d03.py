"""D03: frictional pressure drop is proportional to the flow length."""
from __future__ import annotations
from .. import degrees as g
from ..pool import pmap
from . import d04

LENGTH = {'fluids.friction': 'L', 'fluids.two_phase': 'L', 'fluids.packed_bed': 'L', 'fluids.packed_tower': ('L', 'H')}
# not a pressure drop over a length
OTHER = {'fluids.packed_tower.voidage_experimental', 'fluids.packed_tower.separation_demister_ElDessouky', 'fluids.packed_tower.Stichlmair_flood'}


def targets(prog):
    for f in g.functions(prog):
        ps = LENGTH.get(f.module.name, ())
        for p in f.params:
            if p in ps and f.fq not in OTHER and not f.name.endswith('_methods'):
                yield f, p


def check(c, prog):
    budget = 20000 if c.tier == 'quick' else 200000
    tab = d04.load()
    ts = list(targets(prog))

    def work(t):
        f, p = t
        rows, it = g.run(prog, f, budget, tab['laws'])
        if rows is None:
            return None
        return [(row.get('0', {}).get(p, 0.0), getattr(node, 'lineno', f.node.lineno)) for row, node, none in rows if '0' in row]
    for (f, p), r in zip(ts, pmap(work, ts)):
        c.count('functions_with_a_length')
        if r is None:
            c.notes.append(f'over budget, not decided: {f.fq}')
            continue
        dec = [x for x in r if x[0] != g.UNK]
        c.count('return_paths', len(r))
        c.count('return_paths_decided', len(dec))
        if dec and len(dec) == len(r):
            c.count('functions_decided_on_every_path')
        else:
            c.notes.append(f'not decided on {len(r) - len(dec)} of {len(r)} paths: {f.fq}')
        for v, line in dec:
            if v == g.MIX or abs(v - 1) > 1e-4:
                c.violation('not-proportional', f'{f.fq}|{p}', f'{f.module.rel}:{line}', f'the pressure drop returned here has {d04.show(v)} in {p}, not power 1')
            else:
                c.sample(f'{f.fq}: every decided path has power 1 in {p}')
    c.floor('functions_with_a_length', 35)
    c.floor('functions_decided_on_every_path', 30)
    d04.self_test(c)
    c.rules = ['not-proportional: on some path the pressure drop is certainly not proportional to the length argument']
    c.explanation = ('Degree-of-homogeneity abstract interpretation (see D04) of every pressure drop function of friction, two_phase, packed_bed and '
                     'packed_tower with a length argument: each return path must have power 1 in the length. Private helpers are inlined, '
                     'other public functions act by their known powers, which this check establishes for the length arguments themselves. '
                     'A path of unknown power is counted, not reported.')
    c.assumptions = ['powers of the other arguments of called public functions as recorded for D04']
