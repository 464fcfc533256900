"""A03: third-party packages are needed only where the base needs them."""
from __future__ import annotations
import ast
import sys

from ..program import walk_scope
from ..refs import resolver, module_resolver, module_level

STD = sys.stdlib_module_names | {'__future__', 'fluids'}
# Variants of the package which exist for a third-party package.
VARIANTS = {'fluids.numba', 'fluids.numba_vectorized', 'fluids.vectorized', 'fluids.units', 'fluids.optional.pychebfun'}
# fluids.design_climate works on weather stations and needs numpy and scipy (documented);
# nothing else may import it when it is imported itself.
HEAVY = {'fluids.design_climate'}
IMPORT_ERRORS = {'ImportError', 'ModuleNotFoundError', 'Exception', 'BaseException'}

# Public functions which need a package at all: name -> packages; names under
# ALWAYS need them on every call which returns a result.
SCIPY_FUNCS = ('fluids.numerics',)


def third(modname):
    top = (modname or '').split('.')[0]
    return top if top and top not in STD else None


def catches_import(t):
    for h in t.handlers:
        ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
        for x in ts:
            if x is None or (isinstance(x, ast.Name) and x.id in IMPORT_ERRORS):
                if not (h.body and isinstance(h.body[-1], ast.Raise)):
                    return True
    return False


def guarded(m, n, stop=None):
    """Inside the body of a try which survives a missing package."""
    c, p = n, m.parent.get(n)
    while p is not None and p is not stop:
        if isinstance(p, ast.Try) and c in p.body and catches_import(p):
            return True
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        c, p = p, m.parent.get(p)
    return False


def imports_of(m, n):
    """Absolute module names (and possible submodules) imported by statement n."""
    if isinstance(n, ast.Import):
        return [a.name for a in n.names]
    if n.level == 0 and n.module:
        return [n.module] + [n.module + '.' + a.name for a in n.names if n.module.split('.')[0] == 'fluids']
    b = m.abs_mod(n)
    return [b] + [f'{b}.{a.name}' for a in n.names]


class Need:
    """may/must third-party packages of every function."""

    def __init__(self, prog):
        self.prog = prog
        self.fns = {}
        self.info = {}
        for m in prog.modules.values():
            for f in m.functions.values():
                self.info[f] = self.local(f)
        self.may = {f: set(i[0]) for f, i in self.info.items()}
        ch = True
        while ch:
            ch = False
            for f, (pk, calls, _) in self.info.items():
                for g in calls:
                    new = self.may.get(g, set()) - self.may[f]
                    if new:
                        self.may[f] |= new
                        ch = True
        self.must = {f: set() for f in self.info}
        ch = True
        while ch:
            ch = False
            for f in self.info:
                r = self.block_must(f, f.body if not f.is_lambda else [f.node.body])[0]
                if r - self.must[f]:
                    self.must[f] |= r
                    ch = True

    def ext_of(self, r):
        if r is None:
            return None
        if r[0] == 'ext':
            return third(r[1])
        if r[0] == 'var' and r[1].name == 'fluids.numerics' and r[2] in ('np', 'numpy'):
            return 'numpy'
        return None

    def refs(self, f, nodes):
        """(packages, callee functions, node) mentioned by expression nodes of f."""
        res = self.res(f)
        for n in nodes:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load):
                r = res(n)
                if r is None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    g = f
                    while g is not None and g.cls is None:
                        g = g.parent
                    t = g.cls.find_method(self.prog, n.attr) if g is not None else None
                    if t is not None:
                        yield None, t, n
                    continue
                if r is None:
                    continue
                if r[0] == 'func':
                    yield None, r[1], n
                elif r[0] == 'class':
                    t = r[1].find_method(self.prog, '__init__')
                    if t is not None:
                        yield None, t, n
                elif r[0] == 'local':
                    t = r[1].module.functions.get(r[1].qualname + '.<locals>.' + n.id) if isinstance(n, ast.Name) else None
                    if t is not None:
                        yield None, t, n
                else:
                    x = self.ext_of(r)
                    if x:
                        yield x, None, n
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in imports_of(f.module, n):
                    if third(x):
                        yield third(x), None, n
            elif isinstance(n, ast.Lambda):
                t = f.module.by_node.get(n)
                if t is not None:
                    yield None, t, n

    def res(self, f):
        r = self.fns.get(f)
        if r is None:
            r = self.fns[f] = resolver(self.prog, f)
        return r

    def local(self, f):
        pk, calls = {}, set()
        for x, g, n in self.refs(f, walk_scope(f.node)):
            if guarded(f.module, n):
                continue
            if isinstance(f.module.parent.get(n), ast.Call) and is_test(f.module, n):
                continue
            if x:
                pk.setdefault(x, n)
            elif g is not f:
                calls.add(g)
        return pk, calls, None

    # -- must -------------------------------------------------------------
    def expr_must(self, f, e):
        """Packages needed whenever expression e is evaluated to the end."""
        out = set()
        stack = [e]
        while stack:
            n = stack.pop()
            if n is None or isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.BoolOp):
                stack.append(n.values[0])
                continue
            if isinstance(n, ast.IfExp):
                stack.append(n.test)
                out |= self.expr_must(f, n.body) & self.expr_must(f, n.orelse)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                stack.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.Call):
                for x, g, _ in self.refs(f, [n.func]):
                    if g is not None:
                        out |= self.must.get(g, set())
            if isinstance(n, (ast.Name, ast.Attribute)):
                for x, g, _ in self.refs(f, [n]):
                    if x:
                        out.add(x)
            stack.extend(ast.iter_child_nodes(n))
        return out

    def block_must(self, f, stmts):
        """(packages, leaves): needed on every path through stmts which does not raise."""
        out = set()
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Raise):
                return ALL, True
            if isinstance(s, ast.Return):
                return out | self.expr_must(f, s.value), True
            if isinstance(s, ast.If):
                out = out | self.expr_must(f, s.test)
                a, da = self.block_must(f, s.body)
                b, db = self.block_must(f, s.orelse)
                if a is ALL and b is ALL:
                    return ALL, True
                if da or db:
                    r, dr = self.block_must(f, stmts[i + 1:])
                    x = meet(join(a, r) if not da else a, join(b, r) if not db else b)
                    return (ALL, True) if x is ALL else (out | x, dr)
                out = out | meet(a, b)
                continue
            if isinstance(s, ast.Try) and catches_import(s):
                if any(isinstance(x, ast.Return) for x in ast.walk(s)):
                    return out, True
                continue
            if isinstance(s, (ast.Try, ast.With)):
                for it in getattr(s, 'items', ()):
                    out = out | self.expr_must(f, it.context_expr)
                b, d = self.block_must(f, s.body)
                if isinstance(s, ast.Try) and s.handlers:
                    b = set() if b is ALL else b
                if b is ALL:
                    return ALL, True
                out = out | b
                if d:
                    return out, True
                continue
            if isinstance(s, (ast.For, ast.While)):
                out = out | self.expr_must(f, s.iter if isinstance(s, ast.For) else s.test)
                if any(isinstance(x, ast.Return) for x in ast.walk(s)):
                    return out, True
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out = out | {third(x) for x in imports_of(f.module, s) if third(x)}
                continue
            if isinstance(s, ast.expr):        # body of a lambda
                return out | self.expr_must(f, s), True
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    out = out | self.expr_must(f, x)
        return out, False


class _All(set):
    """Top: a block on which every path raises."""


ALL = _All()


def meet(a, b):
    return b if a is ALL else a if b is ALL else a & b


def join(a, b):
    return ALL if a is ALL or b is ALL else a | b


def is_test(m, n):
    """isinstance(x, np.ndarray) and similar tests of the type of an argument."""
    p = m.parent.get(n)
    return isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == 'isinstance' and n is not p.func


def table():
    """(function) -> (packages on some inputs, packages on all inputs) of the confirmed tree."""
    t = {}

    def add(mod, may, must, names):
        for n in names.split():
            t[f'{mod}.{n}'] = (set(may.split()), set(must.split()))
    add('fluids.atmosphere', 'pandas pvlib', '', 'solar_irradiation')
    add('fluids.drag', 'numpy scipy', 'numpy scipy', 'integrate_drag_sphere')
    add('fluids.fittings', 'mpmath', '', 'Miller_bend_roughness_correction bend_rounded_Miller bend_rounded_Ito bend_rounded bend_miter_Miller bend_miter')
    add('fluids.friction', 'mpmath', '', 'Colebrook friction_factor helical_turbulent_fd_Schmidt helical_turbulent_fd_Prasad helical_turbulent_fd_Ju '
        'helical_turbulent_fd_Mandal_Nigam friction_factor_curved one_phase_dP')
    add('fluids.two_phase', 'mpmath', '', 'Beggs_Brill Friedel Gronnerud Chisholm Baroczy_Chisholm Muller_Steinhagen_Heck Theissing Jung_Radermacher Tran '
        'Chen_Friedel Zhang_Webb Bankoff Xu_Fang Yu_France Wang_Chiang_Lu Hwang_Kim Zhang_Hibiki_Mishima Mishima_Hibiki two_phase_dP Taitel_Dukler_regime')
    add('fluids.geometry', 'scipy', '', 'SA_partial_horiz_ellipsoidal_head SA_partial_horiz_guppy_head SA_partial_horiz_torispherical_head SA_from_h TANK.SA_from_h')
    add('fluids.geometry', 'scipy', 'scipy', 'TANK.from_two_specs plate_enlargement_factor PlateExchanger.__init__')
    add('fluids.geometry', 'numpy sympy', '', 'TANK.V_from_h TANK.h_from_V TANK.A_cross_sectional')
    add('fluids.geometry', 'numpy scipy', 'scipy', 'TANK.set_table')
    add('fluids.geometry', 'numpy', 'numpy', 'TANK.set_chebyshev_approximators')
    add('fluids.geometry', 'matplotlib', 'matplotlib', 'HyperbolicCoolingTower.plot')
    add('fluids.jet_pump', 'numpy', '', 'liquid_jet_pump')
    add('fluids.particle_size_distribution', 'scipy', 'scipy', 'pdf_lognormal_basis_integral pdf_Rosin_Rammler_basis_integral ParticleSizeDistribution.fit')
    add('fluids.particle_size_distribution', 'matplotlib', 'matplotlib', 'ParticleSizeDistributionContinuous.plot_pdf ParticleSizeDistributionContinuous.plot_cdf')
    add('fluids.particle_size_distribution', 'scipy', '', 'ParticleSizeDistribution.interpolated')
    add('fluids.particle_size_distribution', 'scipy', 'scipy', 'PSDInterpolated.__init__')
    add('fluids.optional.irradiance', 'pvlib', '', 'get_sky_diffuse get_total_irradiance')
    add('fluids.optional.spa', 'numpy', 'numpy', 'solar_position_numba')
    N = 'fluids.numerics'
    add(N, 'sympy', 'sympy', 'central_diff_weights')
    add(N, 'sympy', '', 'derivative')
    add(N, 'numpy', 'numpy', 'is_poly_positive is_poly_negative trunc_exp_numpy trunc_log_numpy sort_nelder_mead_points_numba SolverInterface.objf_python_return_numpy '
        'SolverInterface.objf_numpy_return_python SolverInterface.objf_numpy_minimizing SolverInterface.jac_minimizing_numpy SolverInterface.objf_numpy_return_python_scalar')
    add(N, 'numpy', '', 'assert_close assert_close1d assert_close2d assert_close3d assert_close4d compute_accelerated_step anderson_step fixed_point_anderson '
        'fixed_point_anderson_residual SolverInterface.__init__')
    add(N, 'scipy', '', 'root minimize fsolve curve_fit leastsq differential_evolution lmder lmfit lazy_quad')
    add(N, 'numdifftools numpy', '', 'SolverInterface.hessian')
    add(N, 'jacobi numdifftools numpy', '', 'SolverInterface.jacobian')
    add(N, 'jacobi numdifftools numpy scipy', '', 'SolverInterface.solve')
    add(N, 'scipy mpmath', 'scipy mpmath', 'splev bisplev lambertw ellipe gammaincc i1 i0 k1 k0 iv hyp2f1 ellipkinc ellipeinc erf')
    add('fluids.numerics.arrays', 'numpy', '', 'det gelsd null_space')
    add('fluids.numerics.arrays', 'numpy', 'numpy', 'svd')
    return t


def check(c, prog):
    from ..effects import public
    # 1. importing
    bad_import = {}
    for m in prog.modules.values():
        c.count('modules')
        if m.name in VARIANTS | HEAVY:
            continue
        res = module_resolver(prog, m)
        for n in module_level(m):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                c.count('import_time_imports')
                if guarded(m, n):
                    c.count('guarded_imports')
                    survive(c, m, n)
                    continue
                if under(m, n, 'IS_NUMBA'):
                    continue
                for x in imports_of(m, n):
                    if third(x):
                        c.violation('import', f'{m.name}|{third(x)}', m.loc(n), f'importing {m.name} requires the optional package {third(x)}')
                    elif x in VARIANTS | HEAVY:
                        c.violation('import', f'{m.name}|{x}', m.loc(n), f'importing {m.name} imports {x}, which requires optional packages')
    # 2. calculating
    N = Need(prog)
    T = table()
    n_free = 0
    for f in N.info:
        if not public(f) or f.module.name in VARIANTS | HEAVY:
            continue
        c.count('public_functions')
        key = f.fq.split('#')[0]
        may, must = T.get(key, (set(), set()))
        if not N.may[f]:
            n_free += 1
        for x in sorted(N.may[f] - may):
            c.violation('needs', f'{key}|{x}', witness(N, f, x), f'{f.qualname} can now require the optional package {x}')
        for x in sorted((N.must[f] if N.must[f] is not ALL else set()) - must - (N.may[f] - may)):
            c.violation('always-needs', f'{key}|{x}', witness(N, f, x), f'{f.qualname} requires the optional package {x} on every call, not only for the feature which needs it')
    c.count('functions_free_of_optional_packages', n_free)
    # 3. both arms of an availability switch define the same names
    for m in prog.modules.values():
        if m.name in VARIANTS:
            continue
        for s in m.tree.body:
            if isinstance(s, ast.If) and s.orelse and any(isinstance(x, ast.Name) and x.id in ('has_scipy', 'SKIP_DEPENDENCIES', 'IS_PYPY') for x in ast.walk(s.test)):
                c.count('availability_switches')
                a, b = defined(s.body), defined(s.orelse)
                before = set()
                for t in m.tree.body:
                    if t is not s:
                        before |= defined([t])
                for nm in sorted((a ^ b) - before):
                    if used_outside(m, s, nm):
                        c.violation('one-sided', f'{m.name}|{nm}', m.loc(s), f'{nm} is defined only when the optional package is {"present" if nm in a else "absent"} (or the reverse)')
    c.floor('public_functions', 850)
    c.floor('import_time_imports', 150)
    c.floor('functions_free_of_optional_packages', 700)
    c.self_test(N.must[prog.func('fluids.geometry.plate_enlargement_factor')] == {'scipy'}, 'must-analysis finds the elliptic integral')
    c.self_test(N.may[prog.func('fluids.friction.Colebrook')] == {'mpmath'} and not N.must[prog.func('fluids.friction.Colebrook')], 'may-analysis separates the exact option')
    c.rules = ['import: an import executed when a calculation module is imported, not survivable by an ImportError handler, names a third-party package or a variant module',
               'needs: a third-party package reachable through the resolved call graph of a public function which did not need it',
               'always-needs: a third-party package used on every non-raising path of a public function which needs it only for one feature',
               'one-sided: a name defined in only one arm of an availability switch and used elsewhere', 'handler: a guarded import whose handler leaves the name undefined']
    c.explanation = ('Import-time import statements of all modules, and a may/must analysis of third-party references over the resolved call graph of every '
                     'public function (must: intersection over all returning paths).')
    c.assumptions = ['the table of functions which need a package was confirmed by reading; calls through unresolved values are not followed']


def under(m, n, name):
    p = m.parent.get(n)
    while p is not None:
        if isinstance(p, ast.If) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(p.test)):
            return True
        p = m.parent.get(p)
    return False


def defined(stmts):
    out = set()
    for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split('.')[0] for a in s.names}
        elif isinstance(s, ast.If):
            a, b = defined(s.body), defined(s.orelse)
            out |= (a & b) if s.orelse else ({x for x in a if ast.unparse(s.test).startswith(x + ' is None')} | (a if 'IS_PYPY' in ast.unparse(s.test) else set()))
        elif isinstance(s, ast.Try):
            out |= defined(s.body)
    return out


def used_outside(m, s, nm):
    inside = {id(x) for x in ast.walk(s)}
    return any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(m.tree))


OPTIONAL_NAMES = {('fluids.design_climate', 'sqlite3')}


def survive(c, m, n):
    """Names bound by a guarded third-party import stay bound when it fails."""
    if not any(third(x) for x in imports_of(m, n)):
        return
    t = n
    while not isinstance(t, ast.Try):
        t = m.parent[t]
    names = {(a.asname or a.name).split('.')[0] for a in n.names}
    for h in t.handlers:
        b = set()
        for s in ast.walk(h):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                b.add(s.id)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                b |= {(a.asname or a.name).split('.')[0] for a in s.names}
        before = set()
        for s in m.tree.body:
            if s is t:
                break
            before |= defined([s])
        for nm in sorted(names - b - before):
            if nm == 'scipy' or (m.name, nm) in OPTIONAL_NAMES or not used_outside(m, t, nm):
                continue
            c.violation('handler', f'{m.name}|{nm}', m.loc(n), f'{nm} stays undefined when the optional package is missing, yet it is used elsewhere')


def witness(N, f, x):
    seen = set()
    todo = [(f, ())]
    while todo:
        g, path = todo.pop(0)
        if g in seen:
            continue
        seen.add(g)
        pk, calls, _ = N.info[g]
        if x in pk:
            return g.module.loc(pk[x]) + (' via ' + ' -> '.join(path + (g.qualname,)) if path else '')
        for h in sorted(calls, key=lambda h: h.fq):
            if x in N.may.get(h, ()):
                todo.append((h, path + (g.qualname,)))
    return f.loc
