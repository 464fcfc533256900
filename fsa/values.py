"""Abstract values of the interpreter: a product of constant propagation,
None-ness, intervals, congruence (value numbers), provenance labels and
(optionally) physical dimensions."""
from __future__ import annotations
import itertools
import math

INF = math.inf
EMPTY = frozenset()
_ctr = itertools.count(1)
_vn = {}


def fresh():
    return next(_ctr)


def vnum(*key):
    """Hash-consed value number for an operation applied to value numbers."""
    r = _vn.get(key)
    if r is None:
        r = _vn[key] = next(_ctr)
    return r


class Val:
    __slots__ = ()
    deps = EMPTY


class Const(Val):
    """Known immutable Python scalar."""
    __slots__ = ('v', 'deps', 'dim')

    def __init__(self, v, deps=EMPTY, dim=None):
        self.v, self.deps, self.dim = v, deps, dim

    def __repr__(self):
        return f'C({self.v!r})'


NONE = Const(None)


class Sym(Val):
    """Unknown value. kind: 'num' (a number, never None), 'str', 'bool',
    'obj' (not None), 'any'. iv: interval (lo, hi) known on creation."""
    __slots__ = ('vn', 'deps', 'dim', 'kind', 'iv', 'tag')

    def __init__(self, vn=None, deps=EMPTY, dim=None, kind='any', iv=None, tag=None):
        self.vn = fresh() if vn is None else vn
        self.deps, self.dim, self.kind, self.iv, self.tag = deps, dim, kind, iv, tag

    def __repr__(self):
        return f'S{self.vn}:{self.kind}{sorted(map(str, self.deps)) if self.deps else ""}'


class Lit(Val):
    """Frozen nested literal data (module tables)."""
    __slots__ = ('v', 'deps', 'origin')

    def __init__(self, v, origin=None):
        self.v, self.origin, self.deps = v, origin, EMPTY

    def __repr__(self):
        return f'Lit({type(self.v).__name__}:{len(self.v)})'


class TupV(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def deps(self):
        d = EMPTY
        for i in self.items:
            d |= i.deps
        return d

    def __repr__(self):
        return f'T{self.items}'


class ListV(Val):
    """items: list of values, or None when the length is unknown (then elem)."""
    __slots__ = ('items', 'elem', 'xdeps')

    def __init__(self, items=None, elem=None, xdeps=EMPTY):
        self.items, self.elem, self.xdeps = (list(items) if items is not None else None), elem, xdeps

    @property
    def deps(self):
        d = self.xdeps
        for i in self.items or ():
            d |= i.deps
        if self.elem is not None:
            d |= self.elem.deps
        return d

    def __repr__(self):
        return f'L{self.items if self.items is not None else self.elem}'


class DictV(Val):
    """items: key constant -> value; complete: no other keys."""
    __slots__ = ('items', 'complete', 'xdeps')

    def __init__(self, items, complete=True, xdeps=EMPTY):
        self.items, self.complete, self.xdeps = dict(items), complete, xdeps

    @property
    def deps(self):
        d = self.xdeps
        for i in self.items.values():
            d |= i.deps
        return d

    def __repr__(self):
        return f'D{self.items}{"" if self.complete else "+"}'


class Inst(Val):
    __slots__ = ('cls', 'attrs', 'open')

    def __init__(self, cls, attrs=None, open_=False):
        self.cls, self.attrs, self.open = cls, dict(attrs or {}), open_

    @property
    def deps(self):
        d = EMPTY
        for v in self.attrs.values():
            if not isinstance(v, Ref):
                d |= v.deps
        return d

    def __repr__(self):
        return f'I<{self.cls.name if self.cls else "?"}>{self.attrs}'


class Ref(Val):
    """Reference to a heap slot of the current state."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f'@{self.id}'


class Fn(Val):
    __slots__ = ('fi', 'frame', 'self_', 'partial')

    def __init__(self, fi, frame=None, self_=None, partial=None):
        self.fi, self.frame, self.self_, self.partial = fi, frame, self_, partial

    def __repr__(self):
        return f'F<{self.fi.fq}>'


class Ext(Val):
    __slots__ = ('name', 'self_')

    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return f'X<{self.name}>'


class Cls(Val):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __repr__(self):
        return f'Cls<{self.ci.name}>'


class Mod(Val):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return f'M<{self.m.name}>'


class Slice(Val):
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    @property
    def deps(self):
        d = EMPTY
        for p in self.parts:
            d |= p.deps
        return d


def join_deps(vals):
    d = EMPTY
    for v in vals:
        d |= v.deps
    return d
