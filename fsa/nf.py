"""Normal form of formulae: sums of monomials over atoms, divided by a product of primitive sums.

Decides identity of expressions built from + - * / powers, exp, log and uninterpreted functions, for positive values of
the variables. Numbers are floating point, compared with a relative tolerance. Anything outside raises Undecided."""
from __future__ import annotations
import math

TOL = 2e-8
LIMIT = 1500
WHOLE = 6         # sums to this power or higher are not expanded


class Undecided(Exception):
    pass


def close(x, y, tol=TOL):
    return abs(x - y) <= tol * max(abs(x), abs(y))


def rnd(e):
    i = round(e)
    if i:
        return i if abs(e - i) < 1e-7 else float('%.9g' % e)
    return 0 if abs(e) < 1e-13 else float('%.9g' % e)


class NF:
    """num: {monomial: coefficient}, monomial = ((atom, exponent), ...) sorted; den: {sum atom: positive integer}."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


class CAS:
    def __init__(self, tol=TOL):
        self.tol = tol
        self.atoms = []     # (kind, payload)
        self.index = {}     # cheap key -> [atom ids]

    # ---- atoms
    def _find(self, kind, payload, key, same):
        for i in self.index.get((kind, key), ()):
            if same(self.atoms[i][1], payload):
                return i
        self.atoms.append((kind, payload))
        i = len(self.atoms) - 1
        self.index.setdefault((kind, key), []).append(i)
        return i

    def sym(self, name):
        i = self._find('sym', name, name, lambda a, b: a == b)
        return NF({((i, 1),): 1.0})

    def fn(self, name, *args):
        """Uninterpreted function of normal forms (and hashable tags)."""
        key = (name, len(args))
        i = self._find('fn', (name, args), key, lambda a, b: all(
            self.equal(x, y) if isinstance(x, NF) and isinstance(y, NF) else (not isinstance(x, NF) and not isinstance(y, NF) and x == y)
            for x, y in zip(a[1], b[1])))
        return NF({((i, 1),): 1.0})

    def _exp_atom(self, m, den):
        v = NF({m: 1.0}, den)
        return self._find('E', v, tuple(a for a, _ in m), lambda a, b: self.equal(a, b))

    def _sum_atom(self, p):
        """Primitive sum (content removed)."""
        return self._find('P', p, frozenset(p), lambda a, b: all(close(a[k], b[k], self.tol) for k in a))

    def _log_atom(self, a):
        return self._find('L', a, a, lambda x, y: x == y)

    # ---- polynomials
    def num(self, c):
        c = float(c)
        if c != c or math.isinf(c):
            raise Undecided('not finite')
        return NF({(): c} if c else {})

    def _madd(self, m1, m2):
        """Product of two monomials: (monomial, [sum atoms to multiply in])"""
        if not m1:
            return m2, ()
        if not m2:
            return m1, ()
        d = dict(m1)
        extra = []
        for a, e in m2:
            e = rnd(d.get(a, 0) + e)
            if self.atoms[a][0] == 'P' and e < WHOLE:
                k = math.floor(e + 1e-9)
                e = rnd(e - k)
                if k > 0:
                    extra += [a] * k
                elif k < 0:
                    raise Undecided('negative sum power')
            if e:
                d[a] = e
            else:
                d.pop(a, None)
        return tuple(sorted(d.items())), extra

    def _padd(self, p, q, f=1.0):
        r = dict(p)
        for m, c in q.items():
            x = r.get(m)
            if x is None:
                r[m] = c * f
            else:
                s = x + c * f
                if abs(s) <= self.tol * 0.05 * max(abs(x), abs(c * f)):
                    del r[m]
                else:
                    r[m] = s
        return r

    def _pmul(self, p, q):
        r = {}
        if len(p) * len(q) > 40 * LIMIT:
            raise Undecided('too large')
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, extra = self._madd(m1, m2)
                if extra:
                    t = {m: c1 * c2}
                    for a in extra:
                        t = self._pmul(t, self.atoms[a][1])
                    r = self._padd(r, t)
                else:
                    r = self._padd(r, {m: c1 * c2})
        if len(r) > LIMIT:
            raise Undecided('too large')
        return r

    def _ppow(self, a, k):
        r = {(): 1.0}
        for _ in range(k):
            r = self._pmul(r, self.atoms[a][1])
        return r

    def content(self, p):
        """p = c * m * s with s primitive (a sum atom id) or None for a single term."""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, None
        # least exponent of each atom over the terms
        its = list(p)
        low = {}
        first = dict(its[0])
        for a, e in first.items():
            low[a] = e
        for m in its[1:]:
            d = dict(m)
            for a in set(low) | set(d):
                low[a] = min(low.get(a, 0), d.get(a, 0))
        low = {a: e for a, e in low.items() if e and self.atoms[a][0] != 'P'}
        sh = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in low.items():
                x = rnd(d.get(a, 0) - e)
                if x:
                    d[a] = x
                else:
                    d.pop(a, None)
            sh[tuple(sorted(d.items()))] = c
        lead = min(sh)
        c = sh[lead]
        # keep the sign of a sum in the sum when it is not clearly negative
        c = abs(c)
        if all(x < 0 for x in sh.values()):
            c = -c
        s = {m: x / c for m, x in sh.items()}
        return c, tuple(sorted(low.items())), self._sum_atom(s)

    def _mono(self, m, q):
        return tuple((a, rnd(e * q)) for a, e in m if rnd(e * q))

    # ---- expressions
    def _make(self, num, den):
        if not num:
            return NF({})
        if den:
            den = {a: k for a, k in den.items() if k}
            while den and len(num) > 1:
                c, m, s = self.content(num)
                hit = s if s in den else None
                if hit is None:
                    neg = {k: -v for k, v in self.atoms[s][1].items()}
                    for a in den:
                        p = self.atoms[a][1]
                        if p.keys() == neg.keys() and all(close(p[k], neg[k], self.tol) for k in p):
                            hit, c = a, -c
                            break
                if hit is None:
                    break
                num = {m: c}
                den = dict(den)
                den[hit] -= 1
                if not den[hit]:
                    del den[hit]
        return NF(num, den)

    def mul(self, x, y):
        if not x.num or not y.num:
            return NF({})
        den = dict(x.den)
        for a, k in y.den.items():
            den[a] = den.get(a, 0) + k
        nx, ny = x.num, y.num
        # cancel before expanding
        for n, other in ((x.num, 'x'), (y.num, 'y')):
            if len(n) > 1 and den:
                c, m, s = self.content(n)
                if s in den:
                    den[s] -= 1
                    if not den[s]:
                        del den[s]
                    if other == 'x':
                        nx = {m: c}
                    else:
                        ny = {m: c}
        return self._make(self._pmul(nx, ny), den)

    def neg(self, x):
        return NF({m: -c for m, c in x.num.items()}, x.den)

    def add(self, x, y):
        if not x.num:
            return y
        if not y.num:
            return x
        den = dict(x.den)
        for a, k in y.den.items():
            den[a] = max(den.get(a, 0), k)
        n1, n2 = x.num, y.num
        for a, k in den.items():
            d1, d2 = k - x.den.get(a, 0), k - y.den.get(a, 0)
            if d1:
                n1 = self._pmul(n1, self._ppow(a, d1))
            if d2:
                n2 = self._pmul(n2, self._ppow(a, d2))
        return self._make(self._padd(n1, n2), den)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def inv(self, x):
        return self.pow(x, -1)

    def div(self, x, y):
        return self.mul(x, self.inv(y))

    def const(self, x):
        """The number x is, or None."""
        if not x.num:
            return 0.0
        if not x.den and len(x.num) == 1 and () in x.num:
            return x.num[()]
        return None

    def cpow(self, c, q):
        if c < 0 and q != int(q):
            raise Undecided('root of a negative number')
        try:
            return float(c) ** q
        except (OverflowError, ZeroDivisionError):
            raise Undecided('overflow')

    def pow(self, x, q):
        q = rnd(q)
        if q == 0:
            return self.num(1)
        if q == 1:
            return x
        if not x.num:
            if q < 0:
                raise Undecided('division by zero')
            return NF({})
        c, m, s = self.content(x.num)
        # the monomial may itself contain fractional sums
        syms = [(a, e) for a, e in m if self.atoms[a][0] != 'P']
        sums = [(a, e) for a, e in m if self.atoms[a][0] == 'P']
        if s is not None:
            sums.append((s, 1))
        sums += [(a, -k) for a, k in x.den.items()]
        tot = {}
        for a, e in sums:
            tot[a] = tot.get(a, 0) + e
        num = {self._mono(syms, q): self.cpow(c, q)}
        den = {}
        for a, e in tot.items():
            e = rnd(e * q)
            if not e:
                continue
            if e < 0:
                k = math.ceil(-e - 1e-9)
                den[a] = den.get(a, 0) + k
                e = rnd(e + k)
            k = math.floor(e + 1e-9)
            fr = rnd(e - k)
            if k >= WHOLE:
                num = self._pmul(num, {((a, e),): 1.0})
                continue
            if k:
                num = self._pmul(num, self._ppow(a, k))
            if fr:
                num = self._pmul(num, {((a, fr),): 1.0})
        return self._make(num, den)

    def power(self, x, y):
        c = self.const(y)
        if c is not None:
            return self.pow(x, c)
        return self.exp(self.mul(y, self.log(x)))

    def exp(self, x):
        r = self.num(1)
        for m, c in x.num.items():
            if not m and not x.den:
                try:
                    r = self.mul(r, self.num(math.exp(c)))
                except OverflowError:
                    raise Undecided('overflow')
                continue
            if not x.den and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'L':
                a = self.atoms[m[0][0]][1]
                base = NF({((a, 1),): 1.0}) if self.atoms[a][0] != 'P' else NF(dict(self.atoms[a][1]))
                r = self.mul(r, self.pow(base, c))
                continue
            r = self.mul(r, NF({((self._exp_atom(m, x.den), rnd(c)),): 1.0}))
        return r

    def log(self, x):
        if not x.num:
            raise Undecided('log of zero')
        c, m, s = self.content(x.num)
        if c <= 0:
            raise Undecided('log of a negative number')
        r = self.num(math.log(c))
        parts = list(m) + ([(s, 1)] if s is not None else []) + [(a, -k) for a, k in x.den.items()]
        for a, e in parts:
            if self.atoms[a][0] == 'E':
                r = self.add(r, self.mul(self.num(e), self.atoms[a][1]))
            else:
                r = self.add(r, NF({((self._log_atom(a), 1),): float(e)}))
        return r

    def sign(self, x):
        """(sign, x normalised to a positive leading coefficient)"""
        if x.num and x.num[min(x.num)] < 0:
            return -1, self.neg(x)
        return 1, x

    def call(self, name, *args):
        """Interpreted and uninterpreted functions of one or more arguments."""
        x = args[0] if args else None
        cs = [self.const(a) if isinstance(a, NF) else None for a in args]
        if len(args) == 1 and cs[0] is not None and name in NUMERIC:
            try:
                return self.num(NUMERIC[name](cs[0]))
            except (ValueError, OverflowError):
                raise Undecided(name)
        if name == 'sqrt':
            return self.pow(x, 0.5)
        if name == 'cbrt':
            return self.pow(x, 1 / 3)
        if name == 'exp':
            return self.exp(x)
        if name == 'expm1':
            return self.sub(self.exp(x), self.num(1))
        if name in ('log', 'ln') and len(args) == 1:
            return self.log(x)
        if name == 'log' and len(args) == 2:
            return self.div(self.log(x), self.log(args[1]))
        if name == 'log10':
            return self.mul(self.log(x), self.num(1 / math.log(10)))
        if name == 'log2':
            return self.mul(self.log(x), self.num(1 / math.log(2)))
        if name == 'log1p':
            return self.log(self.add(self.num(1), x))
        if name == 'pow' and len(args) == 2:
            return self.power(x, args[1])
        if name == 'hypot' and len(args) == 2:
            return self.pow(self.add(self.mul(x, x), self.mul(args[1], args[1])), 0.5)
        if name == 'radians':
            return self.mul(x, self.num(math.pi / 180))
        if name == 'degrees':
            return self.mul(x, self.num(180 / math.pi))
        if name in ('abs', 'fabs'):
            if not x.num:
                return x
            c, m, s = self.content(x.num)
            r = NF({m: abs(c)})
            if s is not None:
                p = self.atoms[s][1]
                if all(v > 0 for v in p.values()):
                    r = self.mul(r, NF(dict(p)))
                else:
                    sg, pn = self.sign(NF(dict(p)))
                    r = self.mul(r, self.fn('abs', pn))
            for a, k in x.den.items():
                p = self.atoms[a][1]
                d = NF(dict(p)) if all(v > 0 for v in p.values()) else self.fn('abs', self.sign(NF(dict(p)))[1])
                r = self.mul(r, self.pow(d, -k))
            return r
        if name == 'tan':
            return self.div(self.call('sin', x), self.call('cos', x))
        if name == 'tanh':
            # kept whole, odd
            s, y = self.sign(x)
            r = self.fn('tanh', y)
            return r if s > 0 else self.neg(r)
        if name == 'sinh':
            return self.mul(self.num(0.5), self.sub(self.exp(x), self.exp(self.neg(x))))
        if name == 'cosh':
            return self.mul(self.num(0.5), self.add(self.exp(x), self.exp(self.neg(x))))
        if name in ('sin', 'asin', 'atan', 'erf', 'arcsin', 'arctan'):
            s, y = self.sign(x)
            r = self.fn({'arcsin': 'asin', 'arctan': 'atan'}.get(name, name), y)
            return r if s > 0 else self.neg(r)
        if name == 'cos':
            return self.fn('cos', self.sign(x)[1])
        if name == 'erfc':
            return self.sub(self.num(1), self.call('erf', x))
        if name in ('min', 'max'):
            flat = []
            for a in args:
                if not any(self.equal(a, b) for b in flat):
                    flat.append(a)
            if len(flat) == 1:
                return flat[0]
            flat.sort(key=lambda a: (sorted(a.num), sorted(a.den)))
            return self.fn(name, *flat)
        return self.fn(name, *args)

    def equal(self, x, y, tol=None):
        tol = tol or self.tol
        if x is y:
            return True
        n1, n2 = x.num, y.num
        if x.den != y.den:
            for a in set(x.den) | set(y.den):
                k = y.den.get(a, 0) - x.den.get(a, 0)
                if k > 0:
                    n1 = self._pmul(n1, self._ppow(a, k))
                elif k < 0:
                    n2 = self._pmul(n2, self._ppow(a, -k))
        big = max([abs(c) for c in n1.values()] + [abs(c) for c in n2.values()] + [0.0])
        for m in set(n1) | set(n2):
            a, b = n1.get(m, 0.0), n2.get(m, 0.0)
            if not close(a, b, tol) and (m in n1) + (m in n2) == 2:
                return False
            if ((m in n1) != (m in n2)) and abs(a - b) > tol * 1e-4 * big:
                return False
        return True

    # ---- printing
    def show(self, x, depth=0):
        def mono(m):
            out = []
            for a, e in m:
                k, p = self.atoms[a]
                if k == 'sym':
                    s = str(p)
                elif k == 'P':
                    s = f'({self.poly(p)})'
                elif k == 'E':
                    s = f'exp({self.show(p)})'
                elif k == 'L':
                    q = self.atoms[p]
                    s = 'log(' + (self.show(NF({((p, 1),): 1.0}))) + ')'
                else:
                    s = f'{p[0]}({", ".join(self.show(z) if isinstance(z, NF) else str(z) for z in p[1])})'
                out.append(s if e == 1 else f'{s}^{e:.6g}')
            return '*'.join(out)
        self_mono = mono

        def poly(p):
            out = []
            for m, c in sorted(p.items()):
                t = self_mono(m)
                out.append(f'{c:.7g}' if not t else t if c == 1 else f'{c:.7g}*{t}')
            return ' + '.join(out).replace('+ -', '- ')
        s = poly(x.num) if x.num else '0'
        if x.den:
            s = f'({s})/' + '/'.join(f'({poly(self.atoms[a][1])})' + (f'^{k}' if k > 1 else '') for a, k in x.den.items())
        return s

    def poly(self, p):
        return self.show(NF(p))


NUMERIC = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'exp': math.exp, 'log': math.log,
           'ln': math.log, 'log10': math.log10, 'sqrt': math.sqrt, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh, 'erf': math.erf,
           'abs': abs, 'fabs': abs, 'gamma': math.gamma, 'log1p': math.log1p, 'expm1': math.expm1, 'radians': math.radians, 'degrees': math.degrees}
