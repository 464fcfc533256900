"""M04: no ambient inputs or outputs in calculations."""
from __future__ import annotations
import ast

from ..refs import scopes, maximal_chains, owner

PREFIX = ('time.', 'random.', 'secrets.', 'uuid.', 'glob.', 'tempfile.', 'socket.', 'urllib', 'requests', 'http.', 'ftplib', 'smtplib', 'subprocess',
          'platform.', 'locale.', 'getpass', 'numpy.random', 'io.', 'pathlib', 'shutil', 'logging', 'gc.', 'resource.', 'multiprocessing', 'select.',
          'fcntl', 'pwd.', 'ctypes', 'os.', 'shelve', 'dbm', 'sqlite3', 'pickle', 'inspect.', 'traceback', 'signal', 'asyncio', 'atexit', 'concurrent',
          'threading', 'weakref', 'importlib', 'pkgutil', 'site.', 'linecache', 'tracemalloc', 'psutil', 'calendar.timegm_now')
EXACT = {'time', 'random', 'os', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today',
         'sys.argv', 'sys.stdin', 'sys.stdout', 'sys.stderr', 'sys.path', 'sys.getrefcount', 'sys.getrecursionlimit', 'sys.setrecursionlimit',
         'sys._getframe', 'sys.exit', 'sys.modules', 'datetime.now', 'datetime.today', 'numpy.random', 'numpy.seterr', 'numpy.geterr', 'pathlib', 'tempfile',
         'socket', 'subprocess', 'secrets', 'uuid', 'platform', 'locale', 'requests'}
BUILTIN = {'open', 'input', 'print', 'id', 'hash', 'breakpoint', 'exec', 'eval', 'globals', 'vars', '__import__'}
PURE = {'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.path.normpath', 'os.sep', 'os.path', 'os.path.sep', 'os.path.split'}

# Scopes outside the calculation layer; one reason each.
LAYERS = {
    'fluids.numba': 'compilation layer: transforms sources at import',
    'fluids.numba_vectorized': 'compilation layer',
    'fluids.vectorized': 'builds its namespace at import',
    'fluids.units': 'builds its namespace from docstrings at import',
}
# (owner, reference) -> reason; owner is the outermost function or "<module>".
ALLOW = {
    ('fluids.__getattr__', 'globals'): 'lazy loading of the optional submodules',
    ('fluids.fittings.<module>', 'globals'): 'numba variant hook at import',
    ('fluids.friction.<module>', 'globals'): 'lazy table loader hook',
    ('fluids.numerics.<module>', 'globals'): 'export of flags at import',
    ('fluids.optional.spa.<module>', 'globals'): 'numba variant at import',
    ('fluids.optional.spa.solar_position_numba', 'threading.Thread'): 'threaded numba variant, never called by the package',
    ('fluids.optional.pychebfun.Polyfun.__hash__', 'hash'): 'hash method',
    ('fluids.geometry.TANK.__hash__', 'hash'): 'hash method',
    ('fluids.geometry.AirCooledExchanger.__hash__', 'hash'): 'hash method',
    ('fluids.design_climate.SimpleGeolocatorCache.__init__', 'sqlite3.connect'): 'geolocation cache asked for by the caller',
    ('fluids.design_climate._load_station_data', 'os.path.exists'): 'shipped data file',
    ('fluids.design_climate._load_station_data', 'open'): 'shipped data file',
    ('fluids.numerics.isclose', 'print'): 'disabled debugging helper',
}
for _r in ('os.path.exists', 'open', 'os.remove', 'urllib.request.urlopen', 'os.makedirs', 'io.BytesIO'):
    ALLOW[('fluids.design_climate.get_station_year_text', _r)] = 'download and cache of weather data is what the call is for'

ORDER_FREE = {'sum', 'any', 'all', 'min', 'max', 'set', 'frozenset', 'sorted', 'len', 'bool', 'isinstance'}
ORDER_SENS = {'list', 'tuple', 'enumerate', 'zip', 'iter', 'next', 'map', 'filter', 'reversed', 'str', 'repr'}
SET_METHODS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy'}


def is_set(prog, e, res, fi, mod, depth=0):
    """Definitely a set or frozenset."""
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        r = res(e.func) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] == 'builtin' and r[1] in ('set', 'frozenset'):
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr in SET_METHODS:
            return is_set(prog, e.func.value, res, fi, mod, depth + 1)
        return False
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(prog, e.left, res, fi, mod, depth + 1) or (not isinstance(e.op, ast.Sub) and is_set(prog, e.right, res, fi, mod, depth + 1))
    if depth < 4 and isinstance(e, ast.Name):
        r = res(e)
        if r and r[0] == 'var':
            bs = [b for b in r[1].bind.get(r[2], ()) if b[0] == 'var']
            return bool(bs) and all(b[1] is not None and is_set(prog, b[1], lambda x, m=r[1]: prog.resolve_expr(m, x), None, r[1], depth + 1) for b in bs)
        if r and r[0] == 'local' and fi is not None:
            vals = assigned_values(r[1], e.id)
            return bool(vals) and all(v is not None and is_set(prog, v, res, fi, mod, depth + 1) for v in vals)
    return False


def assigned_values(fi, name):
    from ..program import walk_scope
    if name in fi.all_params:
        return [None]
    out = []
    for n in walk_scope(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    out.append(n.value)
                elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)) and not isinstance(t, (ast.Attribute, ast.Subscript)):
                    out.append(None)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == name:
            out.append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            out.append(None)
    return out


def free_context(mod, n):
    """The value only flows into an order-insensitive consumer."""
    p = mod.parent.get(n)
    while isinstance(p, (ast.BinOp, ast.List, ast.Tuple, ast.Starred, ast.IfExp)):
        n, p = p, mod.parent.get(p)
    if isinstance(p, ast.Set):
        return True
    if isinstance(p, ast.Compare) and n in p.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
        return True
    if isinstance(p, ast.Call):
        if isinstance(p.func, ast.Name) and p.func.id in ORDER_FREE:
            return True
        if isinstance(p.func, ast.Attribute) and p.func.attr in SET_METHODS | {'update', 'issubset', 'issuperset', 'isdisjoint'}:
            return True
    return False


def order_uses(prog, lab, mod, fi, nodes, res):
    """Iterations over sets whose order can reach a result."""
    for n in nodes:
        if isinstance(n, ast.For) and is_set(prog, n.iter, res, fi, mod):
            yield n, 'for loop over a set'
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and any(is_set(prog, g.iter, res, fi, mod) for g in n.generators):
            if free_context(mod, n):
                continue
            yield n, 'ordered collection built from a set'
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ORDER_SENS and any(is_set(prog, a, res, fi, mod) for a in n.args):
                if free_context(mod, n):
                    continue
                yield n, f'{n.func.id}() of a set'
            elif isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and not n.args and is_set(prog, n.func.value, res, fi, mod):
                yield n, 'pop() from a set'
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'extend') and n.args and is_set(prog, n.args[0], res, fi, mod):
                yield n, f'{n.func.attr}() over a set'


ORDER_ALLOW = {}


def seeded(mod, n, d):
    """random.Random(<explicit seed>) is a deterministic generator."""
    p = mod.parent.get(n)
    return d == 'random.Random' and isinstance(p, ast.Call) and p.func is n and bool(p.args) and not (
        isinstance(p.args[0], ast.Constant) and p.args[0].value is None)


def is_private(o):
    n = o.rsplit('.', 1)[1]
    return n.startswith('_') and not n.endswith('__') and n != '<module>'


def allowed(own, d, users, seen=()):
    """The site is allowed for its owner, or its owner is a private helper which only allowed owners refer to."""
    if (own, d) in ALLOW:
        return {(own, d)}
    if not is_private(own) or own in seen:
        return set()
    us = users.get(own.rsplit('.', 1)[1], set()) - {own}
    out = set()
    for u in us:
        r = allowed(u, d, users, (*seen, own))
        if not r:
            return set()
        out |= r
    return out


def check(c, prog):
    used = set()
    found = []
    users = {}       # private name -> owners which refer to that name
    for lab, m, f, nodes, res in scopes(prog):
        if m.name in LAYERS:
            continue
        c.count('scopes_analysed')
        own = owner(f).fq if f is not None else lab
        names = []
        for n in maximal_chains(nodes):
            r = res(n)
            c.count('references_resolved')
            if r is None:
                continue
            if r[0] == 'builtin' and r[1] in BUILTIN:
                names.append((n, r[1]))
            elif r[0] == 'ext' and r[1] not in PURE and (r[1] in EXACT or r[1].startswith(PREFIX)) and not seeded(m, n, r[1]):
                names.append((n, r[1]))
        for n in nodes:
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm and nm.startswith('_') and not nm.endswith('__'):
                users.setdefault(nm, set()).add(own)
        found += [(own, d, m.loc(n)) for n, d in names]
        # local time zone
        for n in nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'fromtimestamp' and len(n.args) < 2 and not n.keywords:
                    c.violation('local-time', f'{own}|fromtimestamp', m.loc(n), 'conversion through the local time zone of the machine')
                elif n.func.attr == 'astimezone' and not n.args and not n.keywords:
                    c.violation('local-time', f'{own}|astimezone', m.loc(n), 'conversion through the local time zone of the machine')
                elif n.func.attr in ('now', 'utcnow', 'today') and not n.args and res(n.func) is None:
                    c.violation('ambient', f'{own}|{n.func.attr}()', m.loc(n), 'reads the clock')
        for n, what in order_uses(prog, lab, m, f, nodes, res):
            c.count('set_iterations_seen')
            if (own, what) in ORDER_ALLOW:
                continue
            c.violation('hash-order', f'{own}|{what}', m.loc(n), f'{what}: the order depends on the hash seed of the process')
    for own, d, loc in found:
        ok = allowed(own, d, users)
        used |= ok
        if not ok:
            c.violation('ambient', f'{own}|{d}', loc, f'{own} refers to {d}, which depends on or changes the environment outside the call')
    c.floor('scopes_analysed', 1200)
    c.floor('references_resolved', 30000)
    # the allowed data loads must still be recognised: proves the rule matches real sites
    c.self_test(('fluids.design_climate.get_station_year_text', 'urllib.request.urlopen') in used
                or prog.func('fluids.design_climate.get_station_year_text', False) is None, 'ambient references are recognised')
    t = ast.parse('for x in {1, 2}:\n    pass')
    c.self_test(is_set(prog, t.body[0].iter, lambda e: None, None, None), 'set iteration is recognised')
    c.rules = ['ambient: a reference which resolves to a clock, random, environment, process, file or output facility',
               'local-time: conversion through the machine\'s time zone', 'hash-order: order-sensitive iteration over a set']
    c.explanation = 'Every name and attribute chain of every scope of the calculation layer is resolved through imports; allowed sites are a table of (owner, reference).'
    c.assumptions = ['plotting and numerical third-party calls (matplotlib, scipy, numpy) are deterministic', 'layers excluded: ' + ', '.join(LAYERS)]
