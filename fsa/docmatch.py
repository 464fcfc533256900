"""Comparison of the formula a function computes with the formulae of its documentation."""
from __future__ import annotations
import ast
import itertools
import math

from . import latex
from .nf import CAS, NF, Undecided
from .symbolic import Reader
from .values import vnum

CONSTS = {'g': 9.80665, 'pi': math.pi, 'R': 8.31446261815324, 'e': math.e}
ALIAS = {'epsilon': ('voidage', 'epsilon'), 'phi': ('sphericity', 'phi', 'angle'), 'Phi': ('sphericity',), 'Psi': ('sphericity',), 'theta': ('angle', 'theta'), 'alpha': ('alpha', 'angle'),
         'rho_f': ('rho',), 'DeltaP': ('dP',), 'Deltap': ('dP',), 'rho_p': ('rhop',), 'V_s': ('vs',), 'u': ('V',), 'v': ('V',), 'V': ('V',), 'S': ('S',), 'gamma': ('k',),
         'rho_1': ('rho1', 'rho'), 'rho_m': ('rho',), 'k': ('k',), 'f': ('fd', 'f'), 'f_D': ('fd',), 'r_c': ('rc',), 'd': ('D', 'd'), 'r': ('r', 'rc'), 'lambda': ('wavelength', 'fd'),
         'G': ('G',), 'upsilon': ('nu',)}


class Doc:
    def __init__(self, fi, spec=None):
        self.fi, self.spec = fi, spec or {}
        doc = ast.get_docstring(fi.node) or ''
        self.eqs, self.bad = [], 0
        for text, sides in latex.equations(doc, latex.NAMES + self.spec.get('names', []), self.spec.get('funcs', ())):
            if isinstance(sides, latex.Bad):
                self.bad += 1
            elif sides:
                self.eqs.append((text, sides))
        for text in self.spec.get('eqs', ()):       # a documented formula in a form the parser takes
            self.eqs.append((text, latex.equation(text, latex.NAMES + self.spec.get('names', []))))
        self.defs = {}
        for i, (text, sides) in enumerate(self.eqs):
            for k, s in enumerate(sides):
                if s[0] == 'sym':
                    for j, r in enumerate(sides):
                        if j != k:
                            self.defs.setdefault(s[1], []).append((i, r))

    def symbols(self, e):
        if e[0] == 'sym':
            yield e[1]
        for x in e[1:]:
            if isinstance(x, tuple):
                yield from self.symbols(x)


def param_for(sym, params, spec):
    m = spec.get('map', {}).get(sym)
    if m is not None:
        return m
    names = [sym.replace('_', ''), sym, sym.replace('_', '').replace("'", '').replace('*', '')]
    names += ALIAS.get(sym, ())
    for n in names:
        if n in params:
            return n
    low = {}
    for p in params:
        low.setdefault(p.lower(), []).append(p)
    n = names[0].lower()
    if len(low.get(n, ())) == 1 and not sym.startswith('Delta'):
        return low[n][0]
    return None


class Match:
    """One return value against the documentation of its function."""

    def __init__(self, doc, cas, value, eq, params=None, limit=16):
        self.doc, self.cas, self.value, self.eq, self.limit = doc, cas, value, eq, limit
        self.params = params if params is not None else doc.fi.params
        self.free = {}
        self.assign = {}
        self.unresolved = set()

    def param(self, p):
        if p in self.eq:
            return self.cas.num(self.eq[p])
        return self.cas.sym(p)

    def lookup(self, s, ctx):
        if s == ctx['S']:
            ctx['used'] = True
            if s in ('f_f', 'f_F'):     # Fanning friction factor
                return [self.value, self.cas.mul(self.value, self.cas.num(0.25))]
            return [self.value]
        spec = self.doc.spec
        if s in spec.get('use', {}):
            return [self.python(spec['use'][s])]
        if s in self.assign:
            return [self.assign[s]]
        if s not in spec.get('define', ()):
            p = param_for(s, self.params, spec)
            if p is not None:
                return [self.param(p)]
        out = []
        if s not in ctx['stack']:
            for i, r in self.doc.defs.get(s, ()):
                if i == ctx['eq'] or i in ctx['seen']:
                    continue
                c2 = {**ctx, 'stack': ctx['stack'] | {s}, 'seen': ctx['seen'] | {i}, 'used': False}
                try:
                    vs = self.eval(r, c2)
                except Undecided:
                    continue
                if c2['used']:
                    ctx['used'] = True
                out += vs
        if out:
            return out[:self.limit]
        if s in CONSTS:
            return [self.cas.num(CONSTS[s])]
        if s == 'epsilon' and 'eD' in self.params:
            return [self.cas.mul(self.param('eD'), self.param('D') if 'D' in self.params else self.cas.sym('?D'))]
        self.unresolved.add(s)
        return [self.cas.sym('?' + s)]

    def python(self, text):
        return self.py(ast.parse(text, mode='eval').body)

    def py(self, e):
        cas = self.cas
        if isinstance(e, ast.Constant):
            return cas.num(e.value)
        if isinstance(e, ast.Name):
            return self.param(e.id) if e.id in self.params else cas.num(CONSTS[e.id]) if e.id in CONSTS else cas.sym('?' + e.id)
        if isinstance(e, ast.UnaryOp):
            return cas.neg(self.py(e.operand))
        if isinstance(e, ast.BinOp):
            f = {ast.Add: cas.add, ast.Sub: cas.sub, ast.Mult: cas.mul, ast.Div: cas.div, ast.Pow: cas.power}[type(e.op)]
            return f(self.py(e.left), self.py(e.right))
        if isinstance(e, ast.Call):
            if e.keywords:      # an uninterpreted call of a public function
                return cas.fn(('call', 'fluids.' + ast.unparse(e.func), 0), *[x for k in e.keywords for x in (k.arg, self.py(k.value))])
            return cas.call(e.func.id, *[self.py(a) for a in e.args])
        raise Undecided('spec')

    def eval(self, e, ctx):
        cas, k = self.cas, e[0]
        if k == 'num':
            return [cas.num(e[1])]
        if k == 'pi':
            return [cas.num(math.pi)]
        if k == 'sym':
            return self.lookup(e[1], ctx)
        if k == 'paren':
            return self.eval(e[1], ctx)
        if k == 'neg':
            return [cas.neg(x) for x in self.eval(e[1], ctx)]
        if k == 'tuple':
            raise Undecided('tuple')
        if k == 'fn':
            args = [self.eval(a, ctx) for a in e[2:]]
            return self.each(lambda *a: cas.call(e[1], *a), *args)
        f = {'+': cas.add, '-': cas.sub, '*': cas.mul, '/': cas.div, '^': cas.power}[k]
        return self.each(f, self.eval(e[1], ctx), self.eval(e[2], ctx))

    def each(self, f, *lists):
        out, err = [], None
        for c in itertools.islice(itertools.product(*lists), self.limit):
            try:
                out.append(f(*c))
            except Undecided as x:
                err = x
        if not out:
            raise err or Undecided('none')
        return out

    def holds(self, i, S):
        """Does equation i hold with the computed value for symbol S?"""
        text, sides = self.doc.eqs[i]
        if not any(S in set(self.doc.symbols(s)) for s in sides):
            return False
        vals = []
        for s in sides:
            ctx = {'S': S, 'eq': i, 'stack': frozenset(), 'seen': frozenset([i]), 'used': False}
            try:
                vals.append((self.eval(s, ctx), ctx['used']))
            except Undecided:
                vals.append(([], False))
        for a in range(len(vals)):
            for b in range(a + 1, len(vals)):
                if vals[a][1] == vals[b][1] and not (vals[a][1] and vals[b][1]):
                    continue
                for x in vals[a][0]:
                    for y in vals[b][0]:
                        try:
                            if self.cas.equal(x, y, self.doc.spec.get('tol', 1e-6)):
                                return True
                        except Undecided:
                            pass
        return False

    def find(self, symbols=None):
        """(equation, symbol) which holds, or None."""
        if symbols is None:
            symbols = [self.doc.spec['result']] if 'result' in self.doc.spec else result_symbols(self.doc, self.params)
        for S in symbols:
            for i in range(len(self.doc.eqs)):
                if self.holds(i, S):
                    return i, S
        return None


def result_symbols(doc, params):
    out = []
    for text, sides in doc.eqs:
        for s in sides:
            if s[0] == 'sym' and s[1] not in out and param_for(s[1], params, doc.spec) is None:
                out.append(s[1])
    for text, sides in doc.eqs:
        for s in sides:
            for y in doc.symbols(s):
                if y not in out and param_for(y, params, doc.spec) is None:
                    out.append(y)
    return out
