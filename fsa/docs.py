"""numpydoc sections and physical units, parsed from docstrings (statically)."""
from __future__ import annotations
import re
from fractions import Fraction as Fr

SECTION = re.compile(r'^[ \t]*([A-Z][A-Za-z ]+?)[ \t]*\n[ \t]*(-{3,})[ \t]*$', re.M)
ENTRY = re.compile(r'^([ \t]*)([A-Za-z_*][\w*]*(?:\s*,\s*[A-Za-z_*][\w*]*)*)[ \t]*:(?:[ \t]+(.*)|[ \t]*)$')
UNIT = re.compile(r'\[([a-zA-Z0-9().\\/*^\- ]*)\]')


class Entry:
    __slots__ = ('name', 'type', 'desc', 'unit', 'line')

    def __init__(self, name, typ, desc, line):
        self.name, self.type, self.desc, self.line = name, typ, desc, line
        m = UNIT.findall(typ + '\n' + desc)
        self.unit = m[-1].strip() if m else None

    def __repr__(self):
        return f'{self.name}:{self.unit}'


def sections(doc):
    """dict section name -> text (in order)."""
    out = {}
    ms = list(SECTION.finditer(doc))
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(doc)
        out[m.group(1).strip()] = doc[m.end():end]
    return out


def entries(text):
    lines = text.split('\n')
    # indentation of entries: the minimum indentation of non-blank lines
    ind = [len(l) - len(l.lstrip()) for l in lines if l.strip()]
    if not ind:
        return []
    base = min(ind)
    out, cur = [], None
    for ln, l in enumerate(lines):
        if not l.strip():
            if cur:
                cur[2].append('')
            continue
        if len(l) - len(l.lstrip()) == base:
            m = ENTRY.match(l)
            if m:
                cur = [m.group(2), m.group(3) or '', [], ln]
                out.append(cur)
                continue
        if cur:
            cur[2].append(l.strip())
    res = []
    for n, t, d, ln in out:
        for nm in n.split(','):
            res.append(Entry(nm.strip(), t, '\n'.join(d), ln))
    return res


_cache = {}


def parse(doc):
    """{'Parameters': [Entry], 'Other Parameters': [...], 'Returns': [...], ...}"""
    if doc is None:
        return None
    if doc in _cache:
        return _cache[doc]
    out = {}
    for k, v in sections(doc).items():
        if k in ('Parameters', 'Other Parameters', 'Returns', 'Attributes'):
            out[k] = entries(v)
    _cache[doc] = out
    return out


# ---- units -> dimensions -------------------------------------------------
# base dimensions: kg m s K mol A cd  plus 'deg' (plane angle in degrees)
def D(**k):
    return {a: Fr(b) for a, b in k.items() if b}


NAMED = {
    'm': D(m=1), 'meter': D(m=1), 'metre': D(m=1), 'meters': D(m=1), 's': D(s=1), 'second': D(s=1), 'seconds': D(s=1),
    'kg': D(kg=1), 'K': D(K=1), 'kelvin': D(K=1), 'mol': D(mol=1), 'A': D(A=1), 'amp': D(A=1), 'V': D(kg=1, m=2, s=-3, A=-1),
    'volt': D(kg=1, m=2, s=-3, A=-1), 'cd': D(cd=1),
    'Pa': D(kg=1, m=-1, s=-2), 'J': D(kg=1, m=2, s=-2), 'W': D(kg=1, m=2, s=-3), 'N': D(kg=1, m=1, s=-2),
    'Hz': D(s=-1), 'hertz': D(s=-1), 'rad': D(), 'radians': D(), 'radian': D(), 'degrees': D(deg=1), 'degree': D(deg=1), 'deg': D(deg=1),
    'count': D(), 'dimensionless': D(), '-': D(), '': D(), 'ohm': D(kg=1, m=2, s=-3, A=-2), 'g': D(kg=1),
}
TOK = re.compile(r'\s*([A-Za-z]+|\d+\.?\d*|\*\*|\^|[()*/\-])')


class UnitError(Exception):
    pass


def unit_dims(u):
    """Dimension dict of a documented unit, or None when the unit names no
    fixed dimension ('various', 'base SI', non SI scales such as hour)."""
    if u is None:
        return None
    u = u.strip().replace('\\', '')
    if u in ('-', ''):
        return {}
    if u in ('various', 'base SI'):
        return None
    toks, i = [], 0
    while i < len(u):
        m = TOK.match(u, i)
        if not m:
            if u[i:].strip() == '':
                break
            raise UnitError(u)
        toks.append(m.group(1))
        i = m.end()
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take():
        nonlocal pos
        pos += 1
        return toks[pos - 1]

    def number():
        sign = 1
        if peek() == '(':
            take()
            v = number()
            if peek() == '/':
                take()
                v = v / number()
            if peek() != ')':
                raise UnitError(u)
            take()
            return v
        if peek() == '-':
            take()
            sign = -1
        return sign * Fr(take())

    def factor():
        t = peek()
        if t is None:
            raise UnitError(u)
        if t == '(':
            take()
            d = expr()
            if peek() != ')':
                raise UnitError(u)
            take()
        elif t[0].isdigit():
            take()
            if Fr(t) != 1:
                raise UnitError(u)
            d = {}
        else:
            take()
            if t not in NAMED:
                raise UnitError(u)
            d = dict(NAMED[t])
        if peek() in ('^', '**'):
            take()
            p = number()
            d = {k: v * p for k, v in d.items()}
        return d

    def expr():
        d = factor()
        while peek() in ('*', '/') or (peek() and (peek()[0].isalpha() or peek() == '(')):
            op = take() if peek() in ('*', '/') else '*'
            e = factor()
            s = 1 if op == '*' else -1
            for k, v in e.items():
                d[k] = d.get(k, 0) + s * v
        return {k: v for k, v in d.items() if v}
    r = expr()
    if pos != len(toks):
        raise UnitError(u)
    return r


def safe_dims(u):
    try:
        return unit_dims(u)
    except (UnitError, ValueError, IndexError):
        return None


def fmt(d):
    if d is None:
        return '?'
    if not d:
        return '1'
    return '*'.join(f'{k}^{v}' if v != 1 else k for k, v in sorted(d.items(), key=lambda t: str(t[0])))
