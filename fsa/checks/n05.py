"""N05: discrete particle size distributions are normalised and agree between their bases."""
from __future__ import annotations
import math

from .. import kernels as kn
from .. import laws
from ..nf import Undecided
from ..pool import pmap
from ..randint import K, draw

M = 'fluids.particle_size_distribution'
RES = 'psd.fractions, psd.number_fractions, psd.length_fractions, psd.area_fractions, psd.fraction_cdf, psd.number_cdf, psd.length_cdf, psd.area_cdf, psd.Dis'


def power(ds, classes, i, r):
    """Mean of d**r in a bin."""
    if not classes:
        return ds[i] ** r
    return (ds[i + 1] ** (r + 1) - ds[i] ** (r + 1)) / ((ds[i + 1] - ds[i]) * (r + 1))


def norm(xs):
    s = sum(xs)
    return [x / s for x in xs]


def cum(xs):
    return [sum(xs[:i + 1]) for i in range(len(xs))]


def args(arg, n, classes):
    return [arg(f'ds.{i}') for i in range(n + classes)], [arg(f'fractions.{i}') for i in range(n)]


def volume(ds, fr, classes, order):
    return norm([f * power(ds, classes, i, 3 - order) for i, f in enumerate(fr)])


def basis(ds, vol, classes, k):
    return norm([v / power(ds, classes, i, 3 - k) for i, v in enumerate(vol)])


def bases(n, classes, order):
    def law(r, arg):
        ds, fr = args(arg, n, classes)
        v = volume(ds, fr, classes, order)
        b = [v] + [basis(ds, v, classes, k) for k in (0, 1, 2)]
        return list(zip(r[:4], b)) + list(zip(r[4:8], map(cum, b))) + [(r[8], [power(ds, classes, i, 1) for i in range(n)])]
    return law


def cumulative(n, classes):
    def law(r, arg):        # volume fractions of a cumulative input, and the same cumulative input again
        ds, fr = args(arg, n, classes)
        if not classes:
            return [(r[0], [0.0] + [fr[i] - fr[i - 1] for i in range(1, n)])]
        return [(r[0], [fr[0]] + [fr[i] - fr[i - 1] for i in range(1, n)]), (r[1], fr)]
    return law


def again(n, classes):
    def law(r, arg):        # rebuilt from its own fractions of another basis
        return [(r[0], r[1])]
    return law


def mean(n, classes, swap=False):
    def law(r, arg):
        ds, fr = args(arg, n, classes)
        p, q = arg('p'), arg('q')
        if swap:
            p = p + q
        v = volume(ds, fr, classes, 3)
        num = basis(ds, v, classes, 0)
        s = [sum(x * power(ds, classes, i, e) for i, x in enumerate(num)) for e in (p, q)]
        if abs(p - q) < 1e-12:
            raise ValueError
        return [(r[0], (s[0] / s[1]) ** (1 / (p - q)))]
    return law


def geometric(n, classes):
    def law(r, arg):        # p = q: moment-weighted mean of the logarithm
        ds, fr = args(arg, n, classes)
        p = arg('p')
        num = basis(ds, volume(ds, fr, classes, 3), classes, 0)
        w = [x * power(ds, classes, i, p) for i, x in enumerate(num)]
        return [(r[0], math.exp(sum(x * math.log(power(ds, classes, i, 1)) for i, x in enumerate(w)) / sum(w)))]
    return law


def surface(n, classes):
    def law(r, arg):
        ds, fr = args(arg, n, classes)
        return [(r[0], sum(6 * f / power(ds, classes, i, 1) for i, f in enumerate(volume(ds, fr, classes, 3))))]
    return law


def sums(n, classes):
    def law(r, arg):
        return [([sum(x) for x in r[:4]], [1.0] * 4), ([x[-1] for x in r[4:8]], [1.0] * 4)]
    return law


HEAD = 'def d(ds, fractions, p, q):\n    psd = ParticleSizeDistribution(ds, fractions{})\n    return ({},)\n'


def jobs():
    for classes in (0, 1):
        for n in (2, 3, 4):
            sh = {'ds': (n + classes,), 'fractions': (n,)}
            for order in (0, 1, 2, 3):
                yield f'fractions of order {order}', HEAD.format(f', order={order}', RES), sh, bases(n, classes, order), n, classes
                yield f'sums of order {order}', HEAD.format(f', order={order}', RES), sh, sums(n, classes), n, classes
            yield 'cumulative input', HEAD.format(', cdf=True', 'psd.fractions, psd.fraction_cdf'), sh, cumulative(n, classes), n, classes
            for k, a in enumerate(('number', 'length', 'area')):
                yield (f'rebuilt from {a} fractions', HEAD.format('', f'psd.fractions, ParticleSizeDistribution(ds, psd.{a}_fractions, order={k}).fractions'), sh, again(n, classes), n, classes)
            yield 'mean size', HEAD.format('', 'psd.mean_size(p, q)'), sh, mean(n, classes), n, classes
            yield 'mean size of ISO', HEAD.format('', 'psd.mean_size_ISO(p, q)'), sh, mean(n, classes, True), n, classes
            yield 'mean size of equal orders', HEAD.format('', 'psd.mean_size(p, p)'), sh, geometric(n, classes), n, classes
            yield 'specific surface', HEAD.format('', 'psd.vssa'), sh, surface(n, classes), n, classes


def analyse(prog, job):
    name, src, shapes, law, n, classes = job
    run = laws.drive(prog, M, src, shapes)
    if run is None or run.over:
        return None
    return [laws.verdict(run, o, out, law) for o, out in run.paths]


# ------------------------------------------------------------------ continuous distributions
FAMILIES = (('PSDLognormal(c, s', False), ('PSDGatesGaudinSchuhman(c, s', True), ('PSDRosinRammler(c, s', False))
ORDERS = ('axbc', 'axcb')


def continuous():
    for fam, bounded in FAMILIES:
        for low, up in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for n in ('None', '1', '2', '4') if 'Rosin' not in fam else ('None',):
                lim = ', d_min=a' * low + ', d_max=b' * up
                yield f'{fam.split("(")[0]}{" truncated" if lim else ""}{" from below" * (low and not up)}{" from above" * (up and not low)}, basis {n if n != "None" else "of its own"}', (
                    f'def d(x, a, b, c, s):\n    psd = {fam}, order=3{lim})\n    return (psd.cdf(x, {n}), psd.pdf(x, {n}))\n'), low, up, bounded


def holds(o, base):
    """Which of the points satisfy the conditions of a path (those which can be evaluated)."""
    ok = [True] * K
    for (a, b), rel in o.st.rel.items():
        x, y = known(a, base), known(b, base)
        for j in range(K):
            if x and y and x[j] is not None and y[j] is not None:
                d = x[j] - y[j]
                if ('=' if abs(d) <= 1e-12 * abs(x[j]) else '<' if d < 0 else '>') not in rel:
                    ok[j] = False
    for n, f in o.st.facts.items():
        x = known(n, base)
        for j in range(K):
            if x and isinstance(x[j], float) and not f.lo <= x[j] <= f.hi:
                ok[j] = False
    return ok


def known(n, base):
    try:
        return kn.vector(laws.number(n), base)
    except (Undecided, ValueError, OverflowError, ZeroDivisionError, TypeError):
        return None


def density(prog, job):
    """{what: verdict} of a distribution given by a formula: the density is the slope of the cumulative, which runs from zero to one."""
    name, src, low, up, bounded = job
    run = laws.drive(prog, M, src, {})
    if run is None or run.over:
        return {}
    got = {}
    for o, out in run.paths:
        nums, other = kn.numbers(run, o)
        if other or 'result.0' not in out or 'result.1' not in out:
            continue
        for order in ORDERS:
            cols = [sorted(t) for t in zip(*(draw(p) for p in order))]
            base = {**nums, **{p: [t[i] for t in cols] for i, p in enumerate(order)}}
            try:
                v, slope = kn.dual(out['result.0'], 'x', base)
                p = kn.vector(out['result.1'], base)
                ok = holds(o, base)
                ends = [('one at its upper end', kn.vector(out['result.0'], {**base, 'x': [min(b, c) if up and bounded else b if up else c for b, c in zip(base['b'], base['c'])]}), 1.0)] if up or bounded else []
                if low:
                    ends.append(('zero at its lower end', kn.vector(out['result.0'], {**base, 'x': base['a']}), 0.0))
            except (Undecided, TypeError):
                continue
            pts = [j for j in range(K) if ok[j] and None not in (v[j], slope[j], p[j]) and abs(slope[j]) > 1e-9 and abs(p[j]) > 1e-9]
            if len(pts) < 3:
                continue
            got.setdefault(('the slope of the cumulative is the density', order), []).append(sum(abs(slope[j] - p[j]) > 1e-6 * abs(p[j]) for j in pts) <= len(pts) // 4)
            for what, e, want in ends:
                js = [j for j in pts if e[j] is not None]
                if len(js) >= 3:
                    got.setdefault(('the cumulative is ' + what, order), []).append(sum(abs(e[j] - want) > 1e-6 for j in js) <= len(js) // 4)
    return {k: all(any(v) for (w, _), v in got.items() if w == k) for k, _ in got}     # other paths are those of caught exceptions


def moments():
    """Mean sizes of the power law distribution, whose moments are powers."""
    head = 'def d(a, b, c, s, p, q):\n    psd = PSDGatesGaudinSchuhman(c, s, order=3{})\n    return ({},)\n'
    for low, up in ((0, 0), (1, 0), (0, 1), (1, 1)):
        lim = ', d_min=a' * low + ', d_max=b' * up

        def moment(arg, n, low=low, up=up):
            e = arg('s') + n - 3
            hi = min(arg('b'), arg('c')) if up else arg('c')
            if e < 0 and not low or low and arg('a') > hi:
                raise ValueError
            return (hi ** e - (arg('a') ** e if low else 0.0)) / e

        def mean_of(p, q, moment=moment):
            def law(r, arg):
                x, y = p(arg), q(arg)
                if abs(x - y) < 1e-6:
                    raise ValueError
                return [(r[0], (moment(arg, x) / moment(arg, y)) ** (1 / (x - y)))]
            return law
        for what, call, law in (('mean size', 'psd.mean_size(p + 3, q + 3)', mean_of(lambda a: a('p') + 3, lambda a: a('q') + 3)),
                                ('mean size of ISO', 'psd.mean_size_ISO(p, q + 3)', mean_of(lambda a: a('p') + a('q') + 3, lambda a: a('q') + 3)),
                                ('specific surface', '6/psd.vssa', mean_of(lambda a: 3.0, lambda a: 2.0))):
            yield f'{what} of PSDGatesGaudinSchuhman{lim}', head.format(lim, call), law


def listed():
    """Methods on lists of diameters, and meshes."""
    c = 'PSDRosinRammler(c, s)'
    yield 'delta_cdf', f'def d(x, y, c, s):\n    psd = {c}\n    return (psd.delta_cdf(x, y), psd.cdf(y) - psd.cdf(x))\n', {}, again(0, 0)
    yield 'cdf_discrete', f'def d(ds, c, s):\n    psd = {c}\n    return (psd.cdf_discrete(ds), [psd.cdf(x) for x in ds])\n', {'ds': (3,)}, again(0, 0)
    yield ('fractions_discrete', f'def d(ds, c, s):\n    psd = {c}\n    return (psd.fractions_discrete(ds), [psd.cdf(x) for x in ds])\n', {'ds': (3,)},
           lambda r, arg: [(cum(r[0]), r[1])])

    def spaced(f):
        def law(r, arg):
            lo, hi = f(arg('d_min')), f(arg('d_max'))
            return [([f(x) for x in r[0]], [lo + (hi - lo) * i / 3 for i in range(4)])]
        return law
    yield 'logarithmic mesh', "def d(d_min, d_max):\n    return (psd_spacing(d_min, d_max, 4, 'logarithmic'),)\n", {}, spaced(math.log)
    yield 'linear mesh', "def d(d_min, d_max):\n    return (psd_spacing(d_min, d_max, 4, 'linear'),)\n", {}, spaced(float)
    yield 'Renard mesh upwards', "def d(d_min):\n    return (psd_spacing(d_min=d_min, pts=4, method='R5'),)\n", {}, lambda r, arg: [(r[0], [arg('d_min') * 10 ** (i / 5) for i in range(4)])]
    yield 'Renard mesh downwards', "def d(d_max):\n    return (psd_spacing(d_max=d_max, pts=4, method='R5'),)\n", {}, lambda r, arg: [(r[0], [arg('d_max') * 10 ** ((i - 3) / 5) for i in range(4)])]


def plain(prog, job):
    run = laws.drive(prog, M, job[1], job[2])
    if run is None or run.over:
        return []
    return [laws.verdict(run, o, out, job[3]) for o, out in run.paths]


def check_continuous(c, prog):
    js = list(continuous())
    for (name, *_), got in zip(js, pmap(lambda j: density(prog, j), js)):
        cls = name.replace(',', '').split()[0]
        c.count('distributions' if got else 'distributions_not_decided')
        c.count('laws_of_distributions', len(got))
        for what, v in got.items():
            if not v:
                fi = prog.cls(f'{M}.{cls}', False)
                c.violation('density', f'{name}|{what}', fi.loc, f'{name}: it does not hold that {what}')
    for jobs_, where in (([(n, s, {}, law) for n, s, law in moments()], 'ParticleSizeDistributionContinuous'), (list(listed()), None)):
        for job, res in zip(jobs_, pmap(lambda j: plain(prog, j), jobs_)):
            res = [v for v in res if v is not None]
            c.count('laws_of_lists' if res else 'laws_of_lists_not_decided')
            if not res:
                c.notes.append(f'not decided: {job[0]}')
            if res and False in res:
                fi = prog.cls(f'{M}.ParticleSizeDistributionContinuous', False) if 'mesh' not in job[0] else prog.func(M + '.psd_spacing', False)
                c.violation('law', job[0], fi.loc, f'{job[0]}: not as defined')
    c.floor('laws_of_distributions', 15)
    c.floor('laws_of_lists', 9)


def check(c, prog):
    check_continuous(c, prog)
    js = list(jobs())
    for job, res in zip(js, pmap(lambda j: analyse(prog, j), js)):
        name, _, _, _, n, classes = job
        form = f'{n} fractions and {n + classes} diameters'
        if not res or all(v is None for v in res):
            c.count('laws_not_decided')
            c.notes.append(f'not decided: {name}, {form}')
            continue
        c.count('laws')
        c.count('paths', sum(v is not None for v in res))
        c.count('paths_undecided', sum(v is None for v in res))
        if False in res:
            fi = prog.cls(M + '.ParticleSizeDistribution')
            c.violation('law', f'{name}|{form}', fi.loc, f'ParticleSizeDistribution: {name} are not those of the definition ({form})')
    c.floor('laws', 60)
    fi = next(j for j in js)
    wrong = analyse(prog, (fi[0], fi[1], fi[2], bases(2, 0, 1), 2, 0))
    c.self_test(bool(wrong) and False in wrong, 'another basis is told apart')
    c.rules = ['law: a relation between the results of an object built from symbolic diameters and fractions does not hold identically: fractions of every basis sum to one and are those of the definition, '
               'the cumulative ones are their running sums, cumulative input is differenced, an object rebuilt from its own number, length or area fractions is the same, mean sizes are ratios of moments',
               'density: the density of a continuous distribution is not the slope of its cumulative distribution, which does not run from zero to one, in some basis or truncation; its mean sizes are not those of its moments']
    c.explanation = ('Small driver programs over ParticleSizeDistribution are analysed with lists of two to four symbolic diameters and fractions, as as many diameters as fractions and as size classes, for every basis; '
                     'constructor, properties and methods are inlined, and the results compared, as formulas in the symbols, with the defining sums written in this check.')
    c.assumptions = ['two to four bins', 'inputs which sum to exactly one, a condition between the symbols, are not decided apart (the general path is)']
