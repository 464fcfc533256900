"""Which functions are analysed and which callees are inlined."""
from __future__ import annotations
from .interp import Interp

SKIP = ('fluids.numerics', 'fluids.nrlmsise00', 'fluids.numba', 'fluids.units', 'fluids.vectorized', 'fluids.optional')


def calc_functions(prog):
    """Top-level functions and methods of the calculation modules."""
    for m in prog.modules.values():
        if m.name.startswith(SKIP):
            continue
        for f in m.functions.values():
            if f.parent is None and not f.is_lambda:
                yield f


def is_api(prog, fi):
    """Public, documented entry points: exported functions are call boundaries."""
    return fi.parent is None and not fi.is_lambda and fi.cls is None and fi.name in (prog.exports(fi.module) or ())


class Calc(Interp):
    """Interpreter which inlines private helpers and treats API functions as boundaries."""

    def policy(self, fn, bound, st, node):
        fi = fn.fi
        if is_api(self.prog, fi) or fi.module.name.startswith(('fluids.numerics', 'fluids.nrlmsise00', 'fluids.optional')):
            return 'opaque'
        return 'inline'
