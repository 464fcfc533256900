#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed and unclaimed properties
CLAIM = {}  # id -> (technique, level_note)
NA = {}     # id -> reason


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
    assert len(title) <= 80, title
    if na:
        NA[id] = na
    else:
        CLAIM[id] = (technique, note)


ALL = ['fluids/*.py', 'fluids/numerics/*.py']

# ---------------------------------------------------------------- formulas
prop('D01', 'Correlations are dimensionally homogeneous in their documented units',
     'Every documented calculation whose arguments and result have documented units is dimensionally consistent: '
     'it never adds, subtracts or compares quantities of different dimension, never takes an exponential, logarithm or trigonometric '
     'function of a dimensional quantity, and its result has exactly the documented dimension. '
     'This holds in every branch, for every method and every optional argument, and for every call it makes to another documented calculation.',
     ['inputs', 'configurations'], 'every argument value, every optional-argument pattern, every branch and method of each documented function',
     'A test checks one number on one branch; a wrong exponent or a swapped argument in a branch or optional-argument pattern no test samples goes unseen, and even a sampled branch is only checked at one point.',
     ['fluids/*.py'], [('unit annotations of parameters and results', 'numpydoc sections of every public function'), ('formulas', 'bodies of the public functions')],
     'dimension (unit-of-measure) type inference by path-sensitive abstract interpretation of the syntax tree against documented units',
     'Definite dimension conflicts only; empirical coefficients take whatever dimension the formula needs once per coefficient (table confirmed on the base tree). Trusts the documented units. Decides homogeneity, not the values of dimensionless coefficients.')
prop('D02', 'Solve-for-missing branches state one and the same relation',
     'A function which accepts all but one of a set of linked variables and returns the missing one describes a single relation: '
     'the value returned for any omitted variable, put back in place of that variable, satisfies the same equation as every other branch, including its numerical constants. '
     'A branch which iterates finds the root of a residual which vanishes exactly where the other branches hold. The same holds for pairs of mutually inverse conversions, such as valve flow coefficients, loss and discharge coefficients, heads, temperatures and roughness coefficients of channels, and for conversions which combine two others.',
     ['inputs', 'configurations'], 'every value of the given variables and every choice of the omitted variable',
     'Tests check one numeric example per branch and many conversions are only tested in one direction or with one optional argument pattern.',
     ['fluids/core.py', 'fluids/fittings.py', 'fluids/atmosphere.py', 'fluids/compressible.py', 'fluids/pump.py', 'fluids/mixing.py', 'fluids/open_flow.py', 'fluids/packed_tower.py'],
     [('branch per omitted variable', 'core.*, open_flow.*, mixing.*'), ('inverse conversions', 'core.*, fittings.*')],
     'global value numbering of every branch; substitution of one branch into another decided as an algebraic identity by random interpretation',
     'The branches are each other\'s oracle. Pairs of two iterating branches and pairs not inverse on the base tree (differently rounded constants) are not claimed.')
prop('D03', 'Frictional pressure drop is proportional to the flow length',
     'Every pressure-drop calculation which takes a pipe or bed length returns a frictional pressure drop exactly proportional to that length: scaling the length scales the frictional result by the same factor, for every method and every combination of optional arguments.',
     ['inputs', 'configurations'], 'all lengths and all other arguments; all methods',
     'Tests evaluate each correlation at one length, frequently the default of 1 m, where a missing or squared length factor is invisible.',
     ['fluids/two_phase.py', 'fluids/packed_bed.py', 'fluids/packed_tower.py', 'fluids/friction.py', 'fluids/compressible.py', 'fluids/filters.py'],
     [('length factor', 'every function of two_phase and packed_bed with an L parameter')],
     'extra-dimension type inference (the length argument gets its own base dimension) by abstract interpretation',
     'Degree of homogeneity in the length argument is inferred on every path; a path where it cannot be inferred is counted as unknown, not as held.')

prop('D04', 'Every quantity enters a result with its known power',
     'In each documented calculation, and for each pattern of omitted optional arguments, every result depends on each argument with the power its law gives it: '
     'where the result is a pure power of the argument in a regime it is that power (inverse square of the diameter, cube of the speed, 0.25 of the roughness) on every path of that regime, '
     'and where it is no power law (sums, exponentials) no term is lost which would make it one. No correction factor, density ratio or unit conversion enters with another exponent, twice, inverted or not at all.',
     ['inputs', 'configurations'], 'all values of every argument, every optional-argument pattern, every branch',
     'One test point cannot tell x from x**2 at x=1 nor see a factor whose argument has its default value, and most branches of the package have one point or none.',
     ['fluids/*.py'], [('formulas', 'bodies of the public functions')],
     'degree-of-homogeneity abstract interpretation (exponent of every argument in every value), with known powers as summaries of called functions',
     'Decided exponents only; arguments whose exponent is unknown on some path of the base tree (interpolations, results of iterations, data tables) are not claimed. Constants are not decided here but in D02 and T03.')

prop('T04', 'Every result is computed by the formula known for its regime and inputs',
     'Whatever the arguments, each result of a public calculation, and each quantity a public object stores, equals the formula which belongs to the method, regime and pattern of given inputs in question, '
     'with all its coefficients, exponents, signs and operators, and with the results of other calculations it is built from taken at the arguments they belong to. '
     'Alternatives under min, max and abs are part of the formula; the way it is written is not.',
     ['inputs', 'configurations'], 'all values of every argument on every path',
     'A test fixes one number per branch at a tolerance, often at arguments where a term vanishes, a factor is one or a regime is not reached; the formula must hold everywhere.',
     ['fluids/*.py'], [('formulas', 'bodies of the public functions and constructors')],
     'global value numbering by path-sensitive abstract interpretation, equality of value numbers modulo algebra decided by random interpretation',
     'Known formulae are a table confirmed on the base tree (and against the documented equations where those parse). Identities between value numbers are decided up to the measure-zero error of random interpretation; results of unbounded loops, and paths over budget, are undecided and never reported.')

prop('T05', 'Regimes change over at their known limits',
     'A correlation defined piecewise, by flow regime, size class, table step or validity range, changes from one formula to the next at exactly its stated limits of exactly the stated quantity, with the boundary on the stated side, in every setting of its options; '
     'no regime is dropped, and no two regimes are exchanged.',
     ['inputs', 'configurations'], 'every value of the deciding quantities, including those at and next to a limit',
     'Tests sample a few points inside the large regimes; a limit moved by some percent, a boundary moved to the other side or an exchanged pair of rarely reached regimes leaves them all as they were.',
     ['fluids/*.py'], [('range tests', 'if chains of the public functions and their helpers')],
     'path-sensitive abstract interpretation collecting every deciding comparison as quantity, limit and side; cells between limits checked against the known formula of the cell',
     'Known limits and regimes are confirmed on the base tree. Comparisons of values without a formula (results of iterations) are not claimed; cells of several dependent quantities are not compared.')

# ---------------------------------------------------------------- effects
prop('M01', 'No calculation modifies an object passed in by the caller',
     'Calling a public function, or constructing or querying a public object, never changes any list, array, dictionary or other object the caller passed in: after the call every argument compares equal to what it was before. '
     'Routines documented as working in place (sorting, transposing or factorising into a given buffer) change only the documented argument.',
     ['inputs', 'histories'], 'every argument object, directly or through an alias, on every path',
     'Tests build literals inline and compare only the result; mutation of an argument is visible only to a later use of the same object.',
     ALL, [('copies made before in-place work', 'numerics, friction, fittings, particle_size_distribution, control_valve')],
     'may-alias effect analysis with interprocedural summaries over the resolved call graph',
     'May-alias over local flow, containers and calls; documented in-place routines are one table. Values escaping through opaque third-party calls are assumed unmodified.')
prop('M02', 'Results do not depend on earlier calls',
     'A call returns the same result however many other calls came before it: no public function or method keeps information from its arguments for use by a later call, in module or class variables, in default arguments, in caches, or in attributes of functions. '
     'The only state kept between calls is argument-independent data loaded or computed once.',
     ['histories'], 'every sequence of calls',
     'Tests call each function in isolation or in one fixed order; a stale cache or a changed default only shows in particular sequences.',
     ALL, [('absence of writes to shared state', 'whole package'), ('lazy one-time loads', 'fittings, friction, control_valve, units, design_climate')],
     'write-effect analysis on module, class, function-attribute, closure and default-argument state with argument-dependence tracking',
     'Every write to state outliving the call is found syntactically after name resolution and alias tracking; allowed ones are argument-independent lazy loads proven by dependence or an explicit table.')
prop('M03', 'Callers cannot corrupt the built-in tables through returned objects',
     'No public function returns, or stores in an object it returns, a reference to a list, dictionary or array which the package itself keeps and reads again: modifying a returned object never changes the result of a later call.',
     ['histories'], 'every caller-side modification of every returned object',
     'No test modifies a returned container and calls again.',
     ALL, [('fresh lists returned by the method-listing and table look-up functions', 'friction, fittings, two_phase, piping, drag, safety_valve, design_climate')],
     'escape analysis of references to module-level mutable containers', 'May-alias escape of module/class/default/closure containers into return values of public functions.')
prop('M04', 'Calculations are deterministic functions of their arguments',
     'Calculations depend on nothing but their arguments and the data files shipped with the package: not on the clock, random numbers, environment variables, working directory, hash order, network or process state, and they write nothing to the file system and print nothing unless asked to by an argument.',
     ['inputs', 'configurations', 'histories'], 'every call in every environment',
     'Tests run in one process, one environment and one directory.',
     ALL, [('absence of ambient reads', 'whole package')],
     'ambient-effect analysis (who-may-call) over resolved references and the call graph',
     'All references resolved to ambient sources are found in the package source; confirmed exceptions (plots, downloads of weather data on request, import-time configuration) are one table with reasons.')

# ---------------------------------------------------------------- robustness
prop('R01', 'Every call ends in a value or a deliberate error',
     'On any inputs of the documented types, a public calculation either returns a value of its documented kind or raises an error meant for the caller. '
     'It never fails through use of a variable that was not assigned on that path or of an undefined name, never falls off its end returning nothing, and never leaves a gap between the ranges of a piecewise definition for which nothing is returned.',
     ['inputs', 'configurations'], 'every combination of argument values, options and omitted optional arguments; every branch',
     'Tests sample the common branches; unassigned variables and range gaps are in the untested corners.',
     ALL, [('branch chains over options and numeric ranges', 'whole package')],
     'path-sensitive definite-assignment and return-completeness analysis with interval and None-ness facts',
     'Reports paths whose branch conditions are consistent in the interval/None/equality facts tracked; loops beyond the unroll bound are abstracted.')
prop('R02', 'Too little input is refused, never answered or crashed on',
     'A function with optional quantities of which some subset is needed raises the documented error for every insufficient subset, and returns a result for every sufficient subset. '
     'No subset of omitted optional arguments leads to arithmetic on a missing value, and a value of zero counts as given.',
     ['configurations'], 'every subset of optional arguments left at None',
     'The number of subsets is exponential and tests cover a few per function.',
     ALL, [('missing-input guards', 'core, fittings, pump, separator, control_valve, safety_valve, compressible, jet_pump, geometry')],
     'abstract interpretation over the None/not-None lattice of every optional argument with path facts',
     'The solvable/insufficient classification of each subset is confirmed on the base tree; arithmetic on a definite None is reported for any subset.')
prop('R03', 'Physically impossible inputs are rejected',
     'Inputs which the package rejects as impossible or out of range, such as an outlet pressure above the inlet pressure, a diameter ratio over one, a fill level above the tank, or too few or inconsistent points, are rejected with an error on every path which accepts those inputs; '
     'the rejected region is the documented one, including its boundary, and is the same for every method.',
     ['inputs'], 'all argument values in the rejected regions, including at the boundary',
     'Tests sample one rejected point, rarely next to the boundary, and never all methods.',
     ['fluids/compressible.py', 'fluids/flow_meter.py', 'fluids/fittings.py', 'fluids/core.py', 'fluids/geometry.py', 'fluids/safety_valve.py', 'fluids/numerics/__init__.py'],
     [('guards', 'raise statements at the head of the public functions')],
     'path conditions of every raising and returning path by abstract interpretation (intervals, order relations, option settings, omitted arguments); no returning path may be open to a rejected region',
     'Rejected regions are confirmed on the base tree; conditions on values without a formula (elements of lists, results of iterations) are not claimed.')

# ---------------------------------------------------------------- options
prop('O01', 'Every advertised method is accepted and every accepted one advertised',
     'For each calculation with selectable methods, the set of method names listed by its method-listing function or published list, documented for its selection argument, and actually accepted are the same; the default is a member; and a method listed as available for given inputs works with exactly those inputs.',
     ['configurations'], 'every method name of every selectable calculation, with every subset of available inputs',
     'Tests iterate over some lists with complete inputs, or use literal names.',
     ['fluids/friction.py', 'fluids/two_phase.py', 'fluids/two_phase_voidage.py', 'fluids/drag.py', 'fluids/fittings.py', 'fluids/packed_bed.py', 'fluids/flow_meter.py', 'fluids/mixing.py', 'fluids/saltation.py'],
     [('method registries', 'module-level lists and dictionaries'), ('dispatch', 'if/elif chains and dictionary look-ups')],
     'constant propagation of method registries through the dispatchers; advertised set versus accepted set',
     'Option values are enumerated from the registries and evaluated abstractly through each dispatcher.')
prop('O02', 'Unknown options are refused',
     'When an argument selects one of a finite set of names (a method, type, style, schedule, standard, material or regime), a name outside the set raises an error on every path, whatever the other arguments; it never selects some default behaviour.',
     ['inputs', 'configurations'], 'every string or number outside the accepted set, with every setting of the other arguments',
     'The set of wrong names is infinite and their refusal may depend on the other arguments.',
     ALL, [('final else branches', 'option dispatch of the public functions')],
     'abstract interpretation with an option argument bound to a symbolic value different from every literal it is compared to: no path may return normally',
     'Option parameters and the few which deliberately have a catch-all are tables confirmed on the base tree.')
prop('O03', 'A named method runs the correlation of that name on the caller\'s arguments',
     'Selecting a method by name gives exactly the result of calling the individual correlation of that name directly with the same arguments, for every method and for every subset of optional arguments it needs.',
     ['configurations', 'inputs'], 'every method name and every argument value',
     'Tests compare a few methods at a few points; a swapped pair of methods or a dropped argument among dozens of near-identical correlations gives a plausible number.',
     ['fluids/friction.py', 'fluids/two_phase.py', 'fluids/two_phase_voidage.py', 'fluids/drag.py', 'fluids/packed_bed.py', 'fluids/fittings.py'],
     [('registries and dispatchers', 'friction_factor, two_phase_dP, liquid_gas_voidage, gas_liquid_viscosity, drag_sphere, dP_packed_bed, K_contraction and others')],
     'constant propagation of the method name through the dispatcher; resolved callee and argument binding compared by value number',
     'Decided by resolved callee identity and value-numbered argument binding on every path for that method name.')

# ---------------------------------------------------------------- information flow
prop('I01', 'Every documented input takes part in the result',
     'Every documented argument of a public calculation influences its result or its acceptance: for each method and each way of giving the inputs, the arguments documented as used are actually used, and no supplied value is silently replaced by a default or a constant.',
     ['inputs', 'configurations'], 'every documented argument, for every method and option',
     'Tests compare to one reference value; replacing an argument by its usual value leaves those unchanged.',
     ALL, [('data flow from parameters to results', 'whole package')],
     'interprocedural dependence (information-flow) analysis on value-numbered expressions, per method and path',
     'A parameter is reported when no path of the (method, options) class it influenced on the base tree depends on it any more; both explicit and control dependence count.')
prop('I02', 'Arguments reach the correlation parameter they are meant for',
     'When one calculation delegates to another, each quantity is handed to the parameter of the same meaning: like-named quantities keep their identity, liquid quantities do not land in gas parameters nor inlet ones in outlet parameters, options given by the caller are passed on, and argument tuples given to a solver match the objective function they are for.',
     ['inputs', 'configurations'], 'every internal delegation and every argument value',
     'A swap of two arguments with equal or similar values in the sampled test points is invisible; omitted forwarding is invisible when the default is used.',
     ALL, [('internal calls', 'whole package')],
     'resolved-call argument-binding analysis by parameter identity (value-flow from parameter to like-named callee parameter)',
     'Confirmed exceptions are one table by (caller, callee, parameter). Only bindings where caller and callee use the same quantity name are decided.')

# ---------------------------------------------------------------- API surface
prop('A01', 'Documentation, signatures and unit handling agree',
     'For every public function and class, the documented parameters are exactly those it accepts in the same order, documented defaults are the actual defaults, every physical quantity states a parseable unit, and optional markers agree with the signature, so that the unit-aware interface can convert every argument and every result.',
     ['programs', 'configurations'], 'every public function, argument and return value',
     'Tests of the unit-aware interface exercise a few dozen of several hundred functions.',
     ['fluids/units.py', 'fluids/*.py'], [('docstring parser', 'fluids/units.py'), ('numpydoc sections', 'all public functions')],
     'static comparison of parsed numpydoc sections with resolved signatures', 'Textual defaults are compared only when they are literals; confirmed oddities of the base tree are one table.')
prop('A02', 'The public namespaces are complete and consistent',
     'Every name a module exports exists and is the documented object, no two modules export different objects under one name into the top-level namespace, and the vectorised, compiled and unit-aware variants of the package offer every public function under the same name.',
     ['programs'], 'every exported name in every variant of the package',
     'Tests import the names they use.',
     ['fluids/__init__.py', 'fluids/*.py', 'fluids/vectorized.py', 'fluids/numba.py', 'fluids/units.py'],
     [('export lists', '__all__ of every module'), ('name lists naming functions and attributes for compilation', 'fluids/numba.py')],
     'name-resolution analysis of export lists and of the string-named function/attribute lists', 'Names are resolved through imports and star imports in the parsed source.')
prop('A03', 'Importing and calculating needs no optional dependency',
     'Importing the package and every calculation module succeeds without any third-party package, and a third-party package is imported only when a feature which needs it is used; a missing optional package never changes the result of a calculation which does not need it.',
     ['configurations'], 'every subset of optional packages installed',
     'Tests run in one environment where all of them are installed.',
     ALL, [('guarded and function-level imports', 'whole package')],
     'import-graph analysis: module-level reachability of unguarded third-party imports and of names bound only by guarded imports',
     'Follows the real import graph from the top-level package at module-execution level; try/except ImportError and version gates are recognised.')
prop('A04', 'Optimised and stripped bytecode behave identically',
     'Running the package under optimisation flags which remove assertions and documentation strings gives the same results and the same errors: no input validation, side effect or computation depends on an assertion, on the debug flag, or on a documentation string being present.',
     ['configurations'], 'both optimisation levels, every input',
     'Tests run without optimisation flags.',
     ALL, [('explicit raises for validation', 'whole package')],
     'syntax-tree rules on assert, __debug__ and __doc__ with purity and reachability analysis', 'Asserts on internal invariants of private data are listed as confirmed exceptions by function.')

# ---------------------------------------------------------------- solvers
prop('S01', 'Solvers return converged results or raise',
     'Every iterative root-finding or fixed-point solver in fluids.numerics returns only on paths where its convergence test against each tolerance given by the caller succeeded (or an exact root was met); when the iteration limit is reached, or the error becomes NaN, it raises an error rather than returning the last iterate. (The simplex minimiser, which reports its iteration count, is not covered.)',
     ['inputs', 'histories'], 'every objective function, starting point, tolerance and iteration limit',
     'Tests use well-behaved objectives which converge.',
     ['fluids/numerics/__init__.py'], [('convergence tests and final raise', 'newton, secant, bisect, brenth, ridder, halley, newton_system, broyden2, fixed_point and others')],
     'path analysis of every solver: each return must be dominated by a successful convergence test, loop exhaustion must lead to a raise',
     'Convergence tests are recognised as comparisons against a tolerance-derived value or exact-root tests; acceptance of NaN is decided by comparison polarity.')
prop('S02', 'Solvers pass extra arguments to every evaluation',
     'Every solver, integrator and differentiator passes the extra positional and keyword arguments given by the caller to every evaluation of the caller\'s function, derivative or bounding function, on every path.',
     ['inputs', 'configurations'], 'every callback evaluation on every path',
     'Tests usually pass no extra arguments, and rarely both kinds to rarely-taken steps.',
     ['fluids/numerics/__init__.py'], [('args/kwargs forwarding', 'all solver functions')],
     'call-site analysis of callback parameters with interprocedural callback tracking', 'Every call whose callee is (or aliases) a callback parameter is checked for both forwarded argument groups; wrappers are followed.')
prop('S03', 'All iteration is bounded',
     'Every calculation terminates: each loop runs over a finite collection, or has an explicit iteration limit or a strictly advancing counter, and recursion always goes to a simpler case.',
     ['inputs'], 'every input including those for which the iteration does not converge',
     'A test cannot show termination for the inputs it does not run.',
     ALL, [('iteration limits', 'while loops of the package')],
     'loop-variant and call-graph-cycle analysis', 'Each while loop must have a recognised variant on every path round the loop; recursive cycles must have a recognised decreasing or mode-switching argument.')

# ---------------------------------------------------------------- data
prop('T01', 'Built-in engineering tables are internally consistent',
     'The pipe schedule, wire gauge, fitting, roughness, mesh, motor, orifice and relief-valve tables are consistent: parallel columns have equal length, look-up keys are sorted and unique, inner diameter equals outer diameter minus twice the wall, interpolation tables have matching coordinate, value and spline-coefficient counts, different presentations of the same standard agree, and no entry departs from the confirmed transcription of its standard.',
     ['programs'], 'every row of every built-in table',
     'Tests look up a handful of rows of several thousand.',
     ['fluids/piping.py', 'fluids/friction.py', 'fluids/fittings.py', 'fluids/pump.py', 'fluids/safety_valve.py', 'fluids/particle_size_distribution.py', 'fluids/flow_meter.py', 'fluids/control_valve.py', 'fluids/atmosphere.py'],
     [('module-level tables', 'listed files')],
     'constant evaluation of module-level data and relational table rules', 'Every row of every table is evaluated from the source; the rules are arithmetic relations between columns.')
prop('T02', 'Physical and conversion constants are mutually coherent',
     'Each named physical constant and unit factor agrees with the relations which define it from the others (gas constant from Avogadro and Boltzmann constants, derived lengths, masses, pressures, energies and temperatures from base ones), and the package uses one value for each constant everywhere.',
     ['programs'], 'every constant and every use of one',
     'Tests compare a few constants to literals.',
     ['fluids/constants/constants.py', 'fluids/core.py', 'fluids/*.py'], [('constants module', 'fluids/constants/constants.py')],
     'constant evaluation of the source against exact rational definitions; search of every literal for near-misses of a constant', 'Definitions are those of the SI, the international yard and pound and CODATA.')
prop('T03', 'Published coefficients in the documentation are the ones computed with',
     'The numerical coefficients, exponents and limits given in the documented formula of a correlation are those used by its implementation: no coefficient stated in the documentation is replaced by a different number in the code.',
     ['programs'], 'every coefficient of every documented formula, including branches outside the tested range',
     'A test point constrains one branch and cannot see coefficients of the others, nor a change below its tolerance.',
     ['fluids/*.py'], [('formulas in math directives', 'docstrings of the public functions'), ('literals', 'function bodies')],
     'translation of the documented equations into expressions, compared by random interpretation in a finite field with the value graph of the function bodies; literal cross-check of documented coefficients', 'Equations which are not translated or not matched on the base tree are recorded as such; for those, coefficient identity alone is decided.')
prop('C01', 'Objects are fully formed on every construction path',
     'Every attribute that a method or property of a public class reads is set on every path through construction, or has a class-level default, or is set by the documented preparatory call; so no public method fails with a missing attribute, whichever constructor arguments were chosen.',
     ['configurations', 'histories'], 'every constructor argument pattern followed by every method',
     'Tests combine a few constructor patterns with a few methods.',
     ['fluids/geometry.py', 'fluids/particle_size_distribution.py', 'fluids/atmosphere.py', 'fluids/design_climate.py', 'fluids/friction.py', 'fluids/numerics/*.py'],
     [('constructors and class-level defaults', 'TANK, HelicalCoil, PlateExchanger, RectangularFinExchanger, AirCooledExchanger, ParticleSizeDistribution, ATMOSPHERE_1976')],
     'attribute typestate (definite assignment of attributes over constructor paths)', 'Attributes set through dynamic setattr are modelled from their literal name sources.')

prop('K01', 'Numerical kernels compute what they are defined to compute',
     'In fluids.numerics the polynomial evaluators return the value of the polynomial (or its exponential, in x, scaled x, or ln(1 - T/Tc)) together with its true derivatives; Chebyshev series likewise, with chebder and chebint; polynomial sums, products, derivatives, integrals and basis changes are those of the polynomials; det, inv, lu, solve, the direct 2 to 4 equation solvers, tridiagonal and matrix helpers satisfy the linear-algebra identities defining them; means, errors, cumulative sums and trapezoids equal their definitions; double-double operations return the sum, product, quotient, power or root of the extended numbers. This holds for every argument value and for coefficient lists of one up to eight elements (matrices up to five rows for det, three for inv, lu and solve).',
     ['inputs'], 'all element values at each size', 'Tests evaluate a few coefficient sets; an identity has to hold for all.',
     ['fluids/numerics/__init__.py', 'fluids/numerics/polynomial_evaluation.py', 'fluids/numerics/polynomial_utils.py', 'fluids/numerics/arrays.py', 'fluids/numerics/doubledouble.py'],
     [('horner family', 'fluids/numerics/polynomial_evaluation.py'), ('det, inv, lu, solve', 'fluids/numerics/arrays.py'), ('*_dd', 'fluids/numerics/doubledouble.py')],
     'global value numbering of the kernels with unrolled loops over symbolic lists; the defining identities compared by random interpretation of the value graph', 'Paths chosen by comparing elements are judged by formula alone.')

prop('K02', 'Functions given with their derivatives or integrals agree with them',
     'For each continuous particle size distribution (lognormal, Gates-Gaudin-Schuhmann, Rosin-Rammler), as function and as class, the density is the derivative of the cumulative distribution, and the basis integral is an antiderivative of d**n times the density; error functions handed to Newton solvers return their true derivative or Jacobian; integrals of fits with linear extrapolation differentiate back to the fit.',
     ['inputs'], 'all diameters and parameters', 'Tests compare a few points numerically; a wrong Jacobian usually still converges.',
     ['fluids/particle_size_distribution.py', 'fluids/geometry.py', 'fluids/packed_tower.py', 'fluids/numerics/__init__.py'],
     [('pdf_*, cdf_*, *_basis_integral', 'fluids/particle_size_distribution.py'), ('_Stichlmair_flood_f_and_jac', 'fluids/packed_tower.py'), ('circle_segment_area_inner', 'fluids/geometry.py'), ('poly_fit_integral_value', 'fluids/numerics/__init__.py')],
     'forward-mode differentiation of the value graph, compared as identities by random interpretation')

prop('K03', 'Conversions and their inverses undo each other',
     'Each pair of closed-form public conversions - temperature scales, K and Kv and Cv, K and friction factor, K and equivalent length, head and pressure, Manning and Chezy coefficients, loss and discharge coefficients - gives back its argument when one is applied to the result of the other with the same other arguments; converting a loss coefficient to another diameter basis and back is the identity.',
     ['inputs'], 'all argument values', 'Tests check each direction at one point, often only against itself.',
     ['fluids/core.py', 'fluids/fittings.py', 'fluids/flow_meter.py', 'fluids/open_flow.py'],
     [('A_to_B / B_to_A pairs', 'fluids/core.py, fluids/fittings.py, fluids/flow_meter.py, fluids/open_flow.py')],
     'substitution of one value graph into the other, compared with the argument as an identity by random interpretation')

# ---------------------------------------------------------------- declined
prop('N01', 'Correlations reproduce the published reference values',
     'Each correlation returns the value published in the source it cites, within the precision of that publication, over its whole range.',
     ['inputs'], 'all inputs in range', 'Tests sample points.', ['fluids/*.py'], [('formulas', 'whole package')],
     na='Needs the publications as oracle and numeric evaluation; D01, D02, T03 decide the structural clauses.')
prop('N02', 'Numerical inversion round trips',
     'Solving for a missing quantity iteratively and evaluating the forward relation returns the starting value within tolerance, e.g. tank level from volume, flow from pressure drop, diameter from flow coefficient.',
     ['inputs'], 'all inputs in range', 'Tests sample points.', ['fluids/geometry.py', 'fluids/flow_meter.py', 'fluids/compressible.py'], [('solver calls', 'listed files')],
     na='Quantifies over floating-point values of iterative solutions; the closed-form part is D02 and K03, solver discipline S01.')
prop('N03', 'Results are monotonic and continuous where physics demands it',
     'Tank volume increases with level, pressure drop with flow, choked flow with upstream pressure; piecewise correlations meet at their joints where documented as continuous.',
     ['inputs'], 'all inputs in range', 'Tests sample points.', ['fluids/*.py'], [('formulas', 'whole package')],
     na='Real-valued inequality over transcendental formulas; no sound static argument in reach.')
prop('N04', 'Vectorised, compiled and unit-aware variants give equal numbers',
     'The vectorised, compiled and unit-aware interfaces return for every input the same numbers as the plain functions.',
     ['inputs', 'configurations'], 'all inputs and variants', 'Tests sample points; the compiled variant is not installed here.', ['fluids/numba.py', 'fluids/vectorized.py', 'fluids/units.py'], [('transformation', 'fluids/numba.py')],
     na='Depends on the run-time source transformation of third-party compilers; the static clauses (names, signatures, units) are A01 and A02.')
prop('N05', 'Particle size distributions are normalised in every basis',
     'Densities of the continuous distributions (lognormal, Gates-Gaudin-Schuhman, Rosin-Rammler, truncated or not) are the slopes of their cumulative distributions, which run from zero to one over the size range, in every basis, '
     'and mean sizes are ratios of moments. A ParticleSizeDistribution built from any diameters and fractions (or cumulative fractions), as points or as size classes, in number, length, area or volume basis, has fractions of each basis which sum to one and are those of the others weighted by the bin diameters, '
     'cumulative distributions which are their running sums and end at one, the same content when rebuilt from its own fractions of another basis, mean sizes which are the ratios of its moments (and their limit for equal orders), and the specific surface of its bins.',
     ['inputs', 'configurations'], 'all parameters, sizes and truncations; all diameters and fractions, for two to four bins', 'Tests sample a few distributions, mostly of volume basis.', ['fluids/particle_size_distribution.py'],
     [('ParticleSizeDistribution.__init__, di_power, mean_size, vssa', 'fluids/particle_size_distribution.py'), ('cumsum, diff', 'fluids/numerics/__init__.py')],
     'global value numbering of driver programs with inlined constructors over symbolic lists; defining sums compared by random interpretation',
     'Continuous densities at twelve random points per law; two to four bins. Inputs which sum to exactly one are not decided apart.')
prop('L01', 'Equivalent specifications give the same object',
     'An object which can be specified by different sufficient sets of arguments - a helical coil by turns, pitch or height and by centre-line or total dimensions; an air cooled exchanger by any two of angle, pitch, parallel and normal pitch, or by pitch ratio, fin height or diameter, fin density or interval - '
     'has all the same attributes whichever set is given, and no such set is refused.',
     ['configurations', 'inputs'], 'every sufficient set of arguments and all their values', 'Tests build each object in one or two ways and compare single attributes.', ['fluids/geometry.py'],
     [('HelicalCoil.__init__, AirCooledExchanger.__init__, pitch_angle_solver', 'fluids/geometry.py')],
     'global value numbering of driver programs which rebuild an object from its own attributes; attributes compared as formulas by random interpretation',
     'Names of special pitch arrangements (chosen by comparing floating-point angles) are not compared.')
prop('L02', 'Volumes and surfaces of vessels obey the laws of their shapes',
     'For all vessels - horizontal or vertical, with conical, ellipsoidal, spherical or guppy heads in any combination - volumes and surfaces of the parts add up to the whole, a full vessel holds the whole, the parts below and above a level complement each other, '
     'the volume of a standing vessel grows with the area of the level, it holds as much standing as lying, exchanging its heads or turning it over changes nothing else, and concave heads displace what convex ones hold.',
     ['inputs', 'configurations'], 'all dimensions, fill levels and combinations of heads', 'Tests compare a few volumes with tabulated numbers; a coefficient wrong only in part of the level range or for one combination of heads stays hidden.', ['fluids/geometry.py'],
     [('V_horiz_*, V_vertical_*, SA_partial_*, V_tank, SA_tank, V_from_h, SA_from_h', 'fluids/geometry.py')],
     'global value numbering of driver expressions with everything inlined; identities between the formulas (and their derivatives) of the paths taken at the same dimensions, by random interpretation',
     'Torispherical heads and integrals by quadrature are not decided. Twelve random sets of dimensions per law.')
prop('L03', 'Calculations which define one another agree',
     'Quantities which can be had by different routes are the same: dimensionless groups and their products, loss coefficients, heads, friction factors and pressure drops, valve coefficients, stagnation and critical states, compression work and temperature rise, '
     'gas pipeline flows and the pressure, length or diameter found back from them, void fractions and mixture densities, one-phase limits of two-phase correlations, symmetry under exchange of phases, length and angle of a cone, radius and diameters of a bend, '
     'the standard atmosphere and the weight of its air, temperature conversions around a ring.',
     ['inputs'], 'all inputs', 'Tests evaluate each function on its own at a few points; disagreement between two of them elsewhere stays hidden.', ['fluids/*.py'],
     [('Reynolds, Peclet_heat, K_from_f, C2F ...', 'fluids/core.py'), ('one_phase_dP, friction_factor', 'fluids/friction.py'), ('Panhandle_A ... IGT, isentropic_work_compression', 'fluids/compressible.py'),
      ('Muller_Steinhagen_Heck, Friedel, two_phase_dP_acceleration', 'fluids/two_phase.py'), ('homogeneous, McAdams', 'fluids/two_phase_voidage.py'), ('contraction_conical, bend_rounded, Crane valves', 'fluids/fittings.py'), ('ATMOSPHERE_1976', 'fluids/atmosphere.py')],
     'global value numbering of driver expressions over several public functions with everything inlined; formulas of the paths taken at the same inputs compared by random interpretation',
     'Relations which end in iteration or interpolation are not decided. Twelve random points per relation.')

prop('N06', 'Polynomial and quadrature kernels meet their error bounds',
     'Root finders, polynomial evaluation, double-double arithmetic and quadrature return results within their stated error.',
     ['inputs'], 'all inputs', 'Tests sample points.', ['fluids/numerics/*.py'], [('kernels', 'fluids/numerics')],
     na='Floating-point error bound; would need numeric analysis or symbolic execution, outside this family; the algebraic part is K01.')

if __name__ == '__main__':
    import sys
    have = [p for p in CLAIM if os.path.exists(os.path.join(V, 'fsa', 'checks', p.lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q fsa check.py',
           'checks': [{'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --thorough',
                       'technique': CLAIM[i][0], 'level': 'other', 'level_note': CLAIM[i][1]} for i in have],
           'not_applicable': [{'property': i, 'reason': r} for i, r in NA.items()]
           + [{'property': i, 'reason': 'check under construction'} for i in CLAIM if i not in have]}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties;', len(have), 'claimed')
