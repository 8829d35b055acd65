"""Symbolic values. Scalars are z3 terms (f32/f64 as Real, integers as Int, bool as Bool); everything else is one of the classes below.
Unknown composite values are terms of one uninterpreted sort, their fields uninterpreted functions of the term (expanded lazily)."""
import re
from z3 import *

Term = DeclareSort('Obj')
INTS = {'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128'}
FLOATS = {'f32', 'f64'}


class Unsupported(Exception): pass


def is_scalar(v): return isinstance(v, ExprRef) and v.sort() != Term


def scalar_sort(t):
    if t in FLOATS: return RealSort()
    if t in INTS: return IntSort()
    if t == 'bool': return BoolSort()
    if re.match(r'^(ordered_float::)?NotNan<f(32|64)>$', t): return RealSort()
    return None


class Undef:
    def __eq__(self, o):
        if self is o: return True
        raise Unsupported('undefined value')
    __hash__ = object.__hash__
    def __repr__(self): return 'undef'


UNDEF = Undef()


def _noeq(self, o):
    if self is o: return True
    raise Unsupported(f'comparison of {self!r} and {o!r}')


class Agg:
    """struct / tuple / known enum variant / closure / fixed array"""
    __eq__, __hash__ = _noeq, object.__hash__
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, fields, variant=None):
        self.ty, self.fields, self.variant = ty, list(fields), variant     # variant: (index, name)

    def __repr__(self): return f'{self.ty}{"::" + self.variant[1] if self.variant else ""}({", ".join(map(repr, self.fields))})'


class Obj:
    __eq__, __hash__ = _noeq, object.__hash__
    __slots__ = ('term', 'ty', 'upd')

    def __init__(self, term, ty, upd=None):
        self.term, self.ty, self.upd = term, ty, upd or {}

    def __repr__(self): return f'{self.term}:{self.ty}{self.upd or ""}'


class Ite:
    __eq__, __hash__ = _noeq, object.__hash__
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f'ite({self.c}, {self.a}, {self.b})'


class Ref:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def __repr__(self): return f'&{self.cell}{list(self.path) or ""}'


class It:
    """iterator: kind + python attributes (functional updates through replace)"""

    def __init__(self, kind, **kw): self.kind = kind; self.__dict__.update(kw)
    parts = None                              # the iterators that a chain is made of (dropped by every change that does not carry them over)
    def rep(self, **kw): d = dict(self.__dict__); d.pop('parts', None); d.update(kw); return It(**d)
    def __repr__(self): return f'It{self.__dict__}'


class FnItem:
    __eq__, __hash__ = _noeq, object.__hash__
    def __init__(self, name): self.name = name
    def __repr__(self): return f'fn {self.name}'


def same(a, b):
    if a is b: return True
    if type(a) is not type(b) and not (isinstance(a, ExprRef) and isinstance(b, ExprRef)): return False
    if isinstance(a, ExprRef): return a.sort() == b.sort() and a.eq(b)
    if isinstance(a, Agg): return a.ty == b.ty and a.variant == b.variant and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Obj): return a.term.eq(b.term) and a.upd.keys() == b.upd.keys() and all(same(a.upd[k], b.upd[k]) for k in a.upd)
    if isinstance(a, Ref): return a.cell == b.cell and len(a.path) == len(b.path) and all(same_p(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, It): return a.__dict__.keys() == b.__dict__.keys() and all(x == y if not isinstance(x, (ExprRef, Agg, Obj, Ref, It, Ite)) else same(x, y) for x, y in ((a.__dict__[k], b.__dict__[k]) for k in a.__dict__))
    if isinstance(a, FnItem): return a.name == b.name
    if isinstance(a, Ite): return a.c.eq(b.c) and same(a.a, b.a) and same(a.b, b.b)
    return a == b


def same_p(x, y):
    return x[0] == y[0] and all((p.eq(q) if isinstance(p, ExprRef) and isinstance(q, ExprRef) else p == q) for p, q in zip(x[1:], y[1:]))


def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is UNDEF: return b
    if b is UNDEF: return a
    if same(a, b): return a
    if is_scalar(a) and is_scalar(b):
        if a.sort() != b.sort(): raise Unsupported(f'merge of {a} and {b}')
        return If(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.variant == b.variant and len(a.fields) == len(b.fields):
        return Agg(a.ty, [ite(c, x, y) for x, y in zip(a.fields, b.fields)], a.variant)
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.__dict__.keys() == b.__dict__.keys():
        d = {}
        for k in a.__dict__:
            x, y = a.__dict__[k], b.__dict__[k]
            d[k] = x if (x is y or (not isinstance(x, (ExprRef, Agg, Obj, Ref, It, Ite)) and x == y)) else ite(c, x, y)
        return It(**d)
    return Ite(c, a, b)
