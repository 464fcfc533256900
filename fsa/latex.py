"""Formulae of the documentation: math directives of a docstring, parsed to expression trees."""
from __future__ import annotations
import re
import textwrap

NAMES = ['Re', 'We', 'Fr', 'Eu', 'Ga', 'Ar', 'Nu', 'Pr', 'Sc', 'De', 'Dn', 'Co', 'Bo', 'Su', 'Mo', 'Ca', 'La', 'Ma', 'Kn', 'Pe', 'Gr', 'Gz', 'Fo', 'Le', 'Sh', 'St',
         'Bi', 'Ja', 'Ra', 'Be', 'Oh', 'Hag', 'Cp', 'Cv', 'Kv', 'Av', 'SG', 'MW', 'Po', 'Ne', 'Bd', 'Gl', 'Eo', 'Ec', 'Bm', 'COV', 'CoV', 'Dean', 'Conf', 'Lp', 'Xtt', 'NPSH', 'IMEP', 'eD', 'fd',
         'dP', 'mph', 'Kd', 'PR', 'VR', 'SA', 'exp', 'ln', 'log', 'sin', 'cos', 'tan', 'sqrt', 'Avo', 'Ri', 'Di', 'Do', 'pitch', 'size', 'open', 'width', 'time', 'HW', 'FL', 'LMTD', 'NTU']
FUNCS = {'exp', 'ln', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan', 'min', 'max', 'erf', 'erfc', 'cot', 'csc', 'sec', 'asin', 'acos', 'atan', 'sgn'}
IGNORE = {'left', 'right', 'displaystyle', 'bigg', 'Bigg', 'big', 'Big', 'limits', 'nonumber', 'mathop', 'rm', 'it'}
STYLE = {'text', 'mathrm', 'textrm', 'mathit', 'operatorname', 'bar', 'overline', 'hat', 'tilde', 'dot', 'vec', 'mbox', 'boldsymbol', 'mathbf', 'textit', 'underline'}
RELS = {'=', '<', '>', '\\le', '\\leq', '\\ge', '\\geq', '\\approx', '\\ll', '\\gg', '\\ne', '\\neq', '\\sim', '\\simeq', '\\equiv', '\\to', '\\propto', '\\cong', '\\lt', '\\gt', '\\geqslant', '\\leqslant', '\\pm'}


class Bad(Exception):
    pass


def blocks(doc):
    """Bodies of the math directives (and inline math is left out)."""
    lines = (doc or '').expandtabs().split('\n')
    out, i = [], 0
    while i < len(lines):
        m = re.match(r'(\s*)\.\. math::\s*(.*)$', lines[i])
        if not m:
            i += 1
            continue
        ind, first = len(m.group(1)), m.group(2)
        body = [first] if first else []
        i += 1
        while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > ind):
            body.append(lines[i])
            i += 1
        out.append(textwrap.dedent('\n'.join(body)).strip('\n'))
    return out


def statements(block):
    """Separate equations of a block (blank lines and line breaks; breaks inside environments are kept)."""
    out = []
    for part in re.split(r'\n\s*\n', block):
        part = re.sub(r'\\(begin|end)\{(align\*?|aligned|gather\*?|equation\*?|split|eqnarray\*?|array)\}(\{[lcr|]*\})?', '', part)
        depth, cur = 0, ''
        toks = re.split(r'(\\begin\{[^}]*\}|\\end\{[^}]*\}|\\\\)', part)
        for t in toks:
            if t.startswith('\\begin'):
                depth += 1
            elif t.startswith('\\end'):
                depth -= 1
            if t == '\\\\' and depth == 0:
                out.append(cur)
                cur = ''
            else:
                cur += t
        out.append(cur)
    # a line without a relation continues the one before
    res = []
    for s in out:
        s = ' '.join(s.split())
        if not s:
            continue
        if res and (re.match(r'^[-+=]', s) or not re.search(r'=|<|>|\\le|\\ge|\\approx', s)):
            res[-1] += ' ' + s
        else:
            res.append(s)
    return res


TOKEN = re.compile(r'''\s+|(\\begin\{[^}]*\}|\\end\{[^}]*\})|(\\[a-zA-Z]+)|(\\[^a-zA-Z])|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([a-zA-Z])|(.)''', re.X | re.S)


def tokens(s, names=NAMES):
    s = re.sub(r'(?<=\d)\{,\}(?=\d)', '', s)
    s = re.sub(r'(?<=\d) (?=\d)', '', s)
    s = s.replace("^{\\circ}", '\\degsym ').replace('^\\circ', '\\degsym ').replace('&', ' ')
    out, i = [], 0
    names = sorted(names, key=len, reverse=True)
    while i < len(s):
        if s[i].isalpha():
            for n in names:
                if s.startswith(n, i) and not (i + len(n) < len(s) and s[i + len(n)].islower() and n in ('De', 'Co', 'Re', 'La') and s[i + len(n):i + len(n) + 3] in ('ans',)):
                    out.append(('id', n))
                    i += len(n)
                    break
            else:
                out.append(('id', s[i]))
                i += 1
            continue
        m = TOKEN.match(s, i)
        if m is None:
            raise Bad('token')
        i = m.end()
        if m.group(1):
            out.append(('env', m.group(1)))
        elif m.group(2):
            c = m.group(2)[1:]
            if c in IGNORE:
                continue
            out.append(('cmd', c))
        elif m.group(3):
            c = m.group(3)
            if c in ('\\{', '\\}'):
                out.append(('op', '(' if c == '\\{' else ')'))
            elif c == '\\\\':
                out.append(('op', '\\\\'))
            elif c == '\\%':
                out.append(('op', '%'))
        elif m.group(4):
            out.append(('num', float(m.group(4)) if 'e' in m.group(4).lower() or '.' in m.group(4) else int(m.group(4))))
        elif m.group(6):
            out.append(('op', m.group(6)))
    return out


OPEN = {'(': ')', '[': ']'}


class Parser:
    def __init__(self, toks, names=NAMES, funcs=()):
        self.t, self.i, self.names = toks, 0, names
        self.funcs = set(funcs)

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('end', '')

    def take(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        x = self.take()
        if x[1] != v:
            raise Bad(f'expected {v}, got {x[1]}')

    def group(self):
        """A braced group or one token, as an expression."""
        x = self.peek()
        if x == ('op', '{'):
            self.take()
            e = self.expr()
            self.expect('}')
            return e
        if x[0] == 'num' and isinstance(x[1], int) and x[1] > 9:
            # \frac12 style is not used in these documents; a power without braces takes one digit
            self.take()
            return ('num', x[1])
        return self.atom()

    def raw(self):
        """Text of a braced group or token."""
        x = self.take()
        if x != ('op', '{'):
            return x[1] if x[0] != 'num' else str(x[1])
        out, depth = [], 1
        while True:
            y = self.take()
            if y[0] == 'end':
                raise Bad('unbalanced')
            if y == ('op', '{'):
                depth += 1
            elif y == ('op', '}'):
                depth -= 1
                if not depth:
                    break
            elif y[0] == 'cmd' and y[1] in STYLE:
                continue
            elif not (y[0] == 'op' and y[1] in ' '):
                out.append(str(y[1]))
        return ''.join(out)

    def expr(self):
        neg = False
        while self.peek() in (('op', '-'), ('op', '+')):
            neg ^= self.take()[1] == '-'
        e = self.term()
        if neg:
            e = ('neg', e)
        while True:
            x = self.peek()
            if x in (('op', '+'), ('op', '-')):
                self.take()
                f = self.term()
                e = (x[1], e, f)
            else:
                return e

    def starts(self, x):
        return (x[0] in ('num', 'id') or x in (('op', '('), ('op', '['), ('op', '{'), ('op', '|'))
                or x[0] == 'cmd' and '\\' + x[1] not in RELS and x[1] not in ('quad', 'qquad', 'text', 'cdot', 'times', 'div', 'ldots', 'dots', 'cdots')
                or x[0] == 'cmd' and x[1] in ('text',) and self.text_symbol())

    def text_symbol(self):
        """\text{...} used as a symbol: no blanks of prose."""
        j = self.i + 1
        return j < len(self.t) and self.t[j] == ('op', '{')

    def term(self):
        e = self.factor()
        while True:
            x = self.peek()
            if x in (('cmd', 'cdot'), ('cmd', 'times'), ('op', '*')):
                self.take()
                f = self.signed()
                e = ('*', e, f)
            elif x in (('op', '/'), ('cmd', 'div')):
                self.take()
                f = self.signed()
                e = ('/', e, f)
            elif x == ('cmd', 'bar_open'):
                raise Bad('bar')
            elif self.starts(x) and x != ('op', '|'):
                f = self.factor()
                e = ('*', e, f)
            else:
                return e

    def signed(self):
        if self.peek() == ('op', '-'):
            self.take()
            return ('neg', self.factor())
        return self.factor()

    def factor(self):
        e = self.atom()
        while True:
            x = self.peek()
            if x == ('op', '^'):
                self.take()
                y = self.peek()
                if y in (('op', '*'), ('op', '+'), ("op", "'"), ('cmd', 'star'), ('cmd', 'prime')):
                    self.take()
                    e = self.suffix(e, y[1])
                    continue
                if y == ('op', '{') and self.peek(1) in (('op', '*'), ('op', '+'), ("op", "'"), ('cmd', 'star'), ('cmd', 'prime')) and self.peek(2) == ('op', '}'):
                    self.take()
                    e = self.suffix(e, self.take()[1])
                    self.take()
                    continue
                if y == ('op', '-'):
                    self.take()
                    e = ('^', e, ('neg', self.group()))
                else:
                    e = ('^', e, self.group())
            elif x == ('op', "'"):
                self.take()
                e = self.suffix(e, "'")
            elif x == ('op', '_') and e[0] == 'paren':
                self.take()
                e = ('sym', 'group_' + clean(self.raw()))
            elif x == ('op', '_') and e[0] == 'sym':
                self.take()
                e = ('sym', e[1] + '_' + clean(self.raw()))
            elif x == ('cmd', 'degsym'):
                self.take()
            else:
                return e

    def suffix(self, e, c):
        if e[0] != 'sym':
            raise Bad('suffix')
        return ('sym', e[1] + {'star': '*', 'prime': "'"}.get(c, c))

    def atom(self):
        x = self.take()
        if x[0] == 'num':
            return ('num', x[1])
        if x[0] == 'op' and x[1] in OPEN:
            e = self.expr()
            if self.peek() == ('op', ','):
                es = [e]
                while self.peek() == ('op', ','):
                    self.take()
                    es.append(self.expr())
                self.close()
                return ('tuple', *es)
            self.close()
            return ('paren', e)
        if x == ('op', '{'):
            e = self.expr()
            self.expect('}')
            return ('paren', e)
        if x == ('op', '|'):
            e = self.expr()
            self.expect('|')
            return ('fn', 'abs', e)
        if x[0] == 'id':
            if x[1] in FUNCS and x[1] != 'min':
                return self.function(x[1])
            if x[1] == 'sqrt':
                return ('fn', 'sqrt', self.group())
            return self.symbol(x[1])
        if x[0] == 'cmd':
            c = x[1]
            if c in ('frac', 'dfrac', 'tfrac', 'cfrac'):
                a = self.group()
                return ('/', a, self.group())
            if c == 'sqrt':
                if self.peek() == ('op', '['):
                    self.take()
                    n = self.expr()
                    self.expect(']')
                    return ('^', self.group(), ('/', ('num', 1), n))
                return ('fn', 'sqrt', self.group())
            if c in FUNCS:
                return self.function(c)
            if c == 'pi':
                if self.peek() == ('op', '_'):
                    return self.symbol('pi')
                return ('pi',)
            if c in STYLE:
                return self.symbol(clean(self.raw()))
            if c == 'Delta' or c == 'delta' and self.peek()[0] == 'id' and self.peek()[1] == 'P':
                y = self.peek()
                if y[0] == 'id':
                    self.take()
                    return self.symbol('Delta' + y[1])
                if y[0] == 'cmd' and y[1] not in FUNCS and y[1] not in ('cdot', 'times', 'frac', 'quad') and '\\' + y[1] not in RELS:
                    self.take()
                    return self.symbol('Delta' + y[1])
                return self.symbol('Delta')
            if '\\' + c in RELS or c in ('quad', 'qquad', 'begin', 'sum', 'int', 'infty', 'partial', 'prod', 'lim', 'cases', 'ldots', 'dots', 'cdots', 'degsym', 'lfloor', 'iint', 'oint', 'ne', 'forall', 'nabla'):
                raise Bad('\\' + c)
            return self.symbol(c)
        raise Bad(f'unexpected {x[1]}')

    def close(self):
        # mismatched bracket styles are accepted
        x = self.take()
        if x[1] not in (')', ']'):
            raise Bad(f'expected a closing bracket, got {x[1]}')

    def symbol(self, name):
        while True:
            if self.peek() == ('op', '_'):
                self.take()
                name += '_' + clean(self.raw())
            elif self.peek() == ('op', "'"):
                self.take()
                name += "'"
            else:
                break
        if name in self.funcs and self.peek() == ('op', '('):
            self.take()
            depth = 1
            while depth:
                y = self.take()
                if y[0] == 'end':
                    raise Bad('unbalanced')
                depth += (y[1] == '(') - (y[1] == ')')
        return ('sym', name)

    def function(self, f):
        f = {'ln': 'log', 'arcsin': 'asin', 'arccos': 'acos', 'arctan': 'atan'}.get(f, f)
        nat = self.t[self.i - 1][1] == 'ln'
        power = base = None
        while self.peek() in (('op', '_'), ('op', '^')):
            o = self.take()[1]
            if o == '_':
                base = self.raw()
            else:
                power = ('neg', self.group()) if self.peek() == ('op', '-') and self.take() else self.group()
        if f == 'log' and not nat:
            f = 'log10' if base in ('10', None, '1 0') else 'log' if base == 'e' else 'log2' if base == '2' else None
            if f is None:
                raise Bad('log base')
        if self.peek()[1] in ('(', '['):
            self.take()
            args = [self.expr()]
            while self.peek() == ('op', ','):
                self.take()
                args.append(self.expr())
            self.close()
            if self.peek() == ('op', '^') and power is None:
                pass    # f(x)^2 is (f(x))^2, handled by factor()
        else:
            x = self.peek()
            if x in (('op', '-'), ('op', '+')):
                self.take()
                args = [('neg', self.argterm())] if x[1] == '-' else [self.argterm()]
            else:
                args = [self.argterm()]
        if power == ('neg', ('num', 1)) and f in ('sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh'):
            return ('fn', 'a' + f, *args)
        e = ('fn', f, *args)
        return ('^', e, power) if power is not None else e

    def argterm(self):
        """Argument without brackets: a product of simple factors."""
        e = self.factor()
        while True:
            x = self.peek()
            if x in (('cmd', 'cdot'), ('cmd', 'times')):
                self.take()
                e = ('*', e, self.factor())
            elif x == ('op', '/'):
                self.take()
                e = ('/', e, self.factor())
            elif x[0] in ('num', 'id') and not (x[0] == 'id' and x[1] in FUNCS) or x[0] == 'cmd' and x[1] in GREEK:
                e = ('*', e, self.factor())
            elif x[0] == 'cmd' and x[1] == 'frac' and e[0] == 'num':
                e = ('*', e, self.factor())
            else:
                return e


GREEK = {'alpha', 'beta', 'gamma', 'delta', 'epsilon', 'varepsilon', 'zeta', 'eta', 'theta', 'kappa', 'lambda', 'mu', 'nu', 'xi', 'pi', 'rho', 'sigma', 'tau',
         'phi', 'varphi', 'chi', 'psi', 'omega', 'Gamma', 'Omega', 'Phi', 'Psi', 'Lambda', 'Theta'}


def clean(s):
    return re.sub(r'[\s{},]', '', s.replace('\\', ''))


def cut(s):
    """Drop trailing remarks: text, conditions after a comma or a wide space."""
    s = re.split(r'\\q?quad|\\text\{\s*(?:if|for|where|when|,)|\\;\s*\\text|\\text\{[^}]* [^}]*\}|~~|\\hspace', s)[0]
    return s.strip().rstrip('.,;\\ ')


def equation(s, names=NAMES, funcs=()):
    """[sides] of a chain of equalities, or None for an inequality."""
    s = cut(s)
    toks = tokens(s, names)
    depth, parts, cur = 0, [], []
    for k, v in toks:
        if k == 'op' and v in '([{':
            depth += 1
        elif k == 'op' and v in ')]}':
            depth -= 1
        if k == 'op' and v == '=' or k == 'cmd' and v in ('approx', 'equiv'):
            parts.append(cur)
            cur = []
        elif k == 'op' and v in '<>' or k == 'cmd' and '\\' + v in RELS:
            return None
        elif k == 'op' and v == ',' and depth == 0:
            break
        else:
            cur.append((k, v))
    parts.append(cur)
    if len(parts) < 2:
        return None
    out = []
    for p in parts:
        if not p:
            continue
        q = Parser(p, names, funcs)
        e = q.expr()
        if q.peek()[0] != 'end':
            raise Bad(f'left over: {q.peek()[1]}')
        out.append(e)
    return out


def cases(s):
    """Alternatives of a cases environment, or [s]."""
    m = re.search(r'\\begin\{cases\}(.*?)\\end\{cases\}', s)
    if not m:
        m = re.search(r'\\left\\\{\s*\\begin\{(?:matrix|array)\}(?:\{[^}]*\})?(.*?)\\end\{(?:matrix|array)\}', s)
    if not m:
        return [s]
    out = []
    for row in m.group(1).split('\\\\'):
        if row.strip():
            out.append(s[:m.start()] + ' ' + row.split('&')[0].rstrip(' ,') + ' ' + s[m.end():])
    return out


def equations(doc, names=NAMES, funcs=()):
    """[(text, sides or None or Bad)] of every equation of a docstring."""
    out = []
    for b in blocks(doc):
        for st in statements(b):
            for c in cases(st):
                try:
                    out.append((c, equation(c, names, funcs)))
                except Bad as e:
                    out.append((c, e))
    return out
