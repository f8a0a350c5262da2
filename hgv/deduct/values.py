"""Symbolic values: numbers, sequences, geometry objects.

A template is a tree of Python objects with z3 leaves; `subst` rebuilds it.
"""
import enum

import z3

from .core import NoneError, Unsupported, PathEnd, engine, forall, index_context

INT, REAL = z3.IntSort(), z3.RealSort()


def is_sym(v):
    return isinstance(v, (SNum, Sym, SList, SeqView))


class SNum:
    """A mathematical integer or an exact scalar (ordered field element)."""
    __slots__ = ('e',)
    __hash__ = None

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return z3.is_int(self.e)

    # arithmetic
    def _lift(self, o):
        if isinstance(o, SOpt):
            o = o.get()
        if isinstance(o, SNum):
            return o.e
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            o = int(o)
            return (z3.IntVal(o) if self.is_int else z3.RealVal(o))
        return None

    def _bin(self, o, f):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if z3.is_int(a) != z3.is_int(b):
            a, b = ((z3.ToReal(a) if z3.is_int(a) else a),
                    (z3.ToReal(b) if z3.is_int(b) else b))
        return SNum(z3.simplify(f(a, b), som=z3.is_int(a)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, SOpt):
            o = o.get()
        if not isinstance(o, (int, SNum)):
            return NotImplemented
        r = self._bin(o, lambda a, b: a * b)
        if isinstance(o, SNum) and self.is_int and o.is_int:
            product_lemmas(self.e, o.e)
        return r

    __rmul__ = __mul__

    def __neg__(self):
        return SNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        return floordiv(self, o)[0]

    def __mod__(self, o):
        return floordiv(self, o)[1]

    def __rfloordiv__(self, o):
        return floordiv(num(o), self)[0]

    def __rmod__(self, o):
        return floordiv(num(o), self)[1]

    def __truediv__(self, o):
        b = self._lift(o)
        if b is None or self.is_int:
            raise Unsupported('true division')
        engine().prove('division by zero', b != 0, 'raise')
        return SNum(self.e / b)

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o == 1:
            return SNum(self.e % 2)
        raise Unsupported('bitwise and')

    def __or__(self, o):
        if isinstance(o, int) and o == 1:
            return SNum(z3.If(self.e % 2 == 1, self.e, self.e + 1))
        raise Unsupported('bitwise or')

    def bit_length(self):
        raise Unsupported('bit_length')

    # comparison
    def _cmp(self, o, f):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if z3.is_int(a) != z3.is_int(b):
            a, b = ((z3.ToReal(a) if z3.is_int(a) else a),
                    (z3.ToReal(b) if z3.is_int(b) else b))
        return engine().branch(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return engine().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic integer used as an index')

    def __repr__(self):
        return f'<{self.e}>'

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self


class Sym:
    """Immutable symbolic object; FIELDS are substituted structurally."""
    FIELDS = ()

    def rebuild(self, f):
        new = object.__new__(type(self))
        for k, v in self.__dict__.items():
            new.__dict__[k] = f(v) if k in self.FIELDS else v
        return new


class SOpt(Sym):
    """A number or None."""
    FIELDS = ('none', 'value')

    def __init__(self, none, value):
        self.none, self.value = none, value

    def is_none(self):
        return engine().branch(self.none)

    def get(self):
        if self.is_none():
            raise NoneError('None instead of a number')
        return SNum(self.value)

    def __bool__(self):
        return not self.is_none() and bool(SNum(self.value))

    def __eq__(self, o):
        if o is None:
            return self.is_none()
        if isinstance(o, SOpt):
            if self.is_none():
                return o.is_none()
            return not o.is_none() and self.get() == o.get()
        return not self.is_none() and SNum(self.value) == o

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return f'<{self.value} or None if {self.none}>'

    __hash__ = None

    def __format__(self, spec):
        return repr(self)


def _forward(name):
    def method(self, *args):
        return getattr(self.get(), name)(
            *[a.get() if isinstance(a, SOpt) else a for a in args])
    return method


for _name in ('add radd sub rsub mul rmul neg pos abs floordiv mod rfloordiv '
              'rmod truediv and or lt le gt ge index').split():
    setattr(SOpt, f'__{_name}__', _forward(f'__{_name}__'))


def none_of(v):
    """Formula: the value is None."""
    if v is None:
        return z3.BoolVal(True)
    return v.none if isinstance(v, SOpt) else z3.BoolVal(False)


def value_of(v):
    """Number term of a value that is not None."""
    return v.value if isinstance(v, SOpt) else num(v).e


def at_most(n, hi):
    """Formula: hi is None or n <= hi."""
    if hi is None:
        return z3.BoolVal(True)
    f = n <= value_of(hi)
    return z3.Or(hi.none, f) if isinstance(hi, SOpt) else f


class SEnum(SNum):
    """A member of an enumeration of integers."""


def num(v):
    if isinstance(v, SNum):
        return v
    if isinstance(v, SOpt):
        return v.get()
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return SNum(z3.IntVal(int(v)))
    raise Unsupported(f'not a number: {type(v).__name__}')


def ie(v):
    """z3 expression of an integer."""
    return num(v).e


def concrete(v):
    """int or None."""
    if isinstance(v, int):
        return int(v)
    if isinstance(v, SNum):
        s = z3.simplify(v.e)
        if z3.is_int_value(s):
            return s.as_long()
    return None


Remainder = z3.Function('Remainder', INT, INT, INT)


def floordiv(a, b):
    """Quotient and remainder by a positive divisor, with multiplication
    lemmas for the products already in play."""
    a, b = num(a), num(b)
    if not (a.is_int and b.is_int):
        raise Unsupported('floor division of scalars')
    e = engine()
    cb = concrete(b)
    if cb is not None and cb > 0:
        return SNum(a.e / cb), SNum(a.e % cb)
    e.prove('division by zero', b.e != 0, 'raise')
    if not e.entailed(b.e > 0):
        raise Unsupported('division by a possibly negative number')
    key = ('div', a.e.sexpr(), b.e.sexpr(),
           tuple(p.sexpr() for p in e.premises()))
    cache = divisions()
    if key not in cache:
        q = e.fresh('quot', INT)
        r = e.fresh('rem', INT)
        e.assume(z3.And(a.e == b.e * q + r, r >= 0, r < b.e,
                        r == Remainder(a.e, b.e)))
        e.assume(z3.Implies(a.e >= 0, z3.And(q >= 0, q <= a.e)))
        e.assume(z3.Implies(a.e >= b.e, q >= 1))
        e.assume(z3.Implies(z3.And(a.e >= 0, a.e < b.e),
                            z3.And(q == 0, r == a.e)))
        e.assume(z3.Implies(z3.And(a.e >= b.e, a.e < 2 * b.e),
                            z3.And(q == 1, r == a.e - b.e)))
        # m * b <= a  <=>  m <= q, for the multiples of b in play
        for m in multiples(b.e):
            e.assume((m * b.e <= a.e) == (m <= q))
        # b2 <= a // b1  <=>  b1 * b2 <= a  <=>  b1 <= a // b2
        for a1, b1, q1, _ in cache.values():
            if a1.eq(z3.simplify(a.e)):
                e.assume((b.e <= q1) == (b1 <= q))
        cache[key] = z3.simplify(a.e), b.e, q, r
    _, _, q, r = cache[key]
    return SNum(q), SNum(r)


def divisions():
    """Divisions by symbolic numbers on the current path."""
    e = engine()
    cache = e.__dict__.setdefault('_div', {})
    if getattr(e, '_div_path', None) is not e.solver:
        e._div_path = e.solver
        cache.clear()
    return cache


def product_lemmas(x, y):
    e = engine()
    if getattr(e, 'solver', None) is None:
        return
    if z3.is_int_value(z3.simplify(x)) or z3.is_int_value(z3.simplify(y)):
        return
    for a, b, q, _ in list(divisions().values()):
        for m, d in ((x, y), (y, x)):
            if d.eq(b):
                e.assume((m * b <= a) == (m <= q))
    e.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(
        x * y >= 0, z3.Implies(y >= 1, x * y >= x),
        z3.Implies(x >= 1, x * y >= y))))


def multiples(b):
    """Cofactors of b in products occurring in the path condition."""
    out, seen = [], set()
    key = b.get_id()
    stack = list(engine().pc)
    found = {}
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            ch = t.children()
            if t.decl().kind() == z3.Z3_OP_MUL and any(
                    c.get_id() == key for c in ch):
                rest = [c for c in ch if c.get_id() != key]
                if len(rest) >= 1:
                    m = rest[0]
                    for c in rest[1:]:
                        m = m * c
                    found[m.get_id()] = m
            stack.extend(ch)
    return list(found.values())[:8]


def subst(v, pairs):
    """Replaces z3 constants in a template."""
    if isinstance(v, SNum):
        return type(v)(z3.substitute(v.e, *pairs))
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (int, str, float, bool)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Sym):
        return v.rebuild(lambda x: subst(x, pairs))
    if isinstance(v, SeqView):
        return SeqView([p.subst(pairs) for p in v.parts])
    if isinstance(v, SList):
        return SList(subst(v.view, pairs))
    if callable(v) or isinstance(v, type):
        return v
    if isinstance(v, enum.Enum):
        return v
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    raise Unsupported(f'template with {type(v).__name__}')


def leaves(v, out=None):
    out = [] if out is None else out
    if isinstance(v, SNum):
        out.append(v.e)
    elif isinstance(v, tuple):
        for x in v:
            leaves(x, out)
    elif isinstance(v, Sym):
        for k in v.FIELDS:
            leaves(v.__dict__[k], out)
    elif isinstance(v, SeqView):
        for p in v.parts:
            if isinstance(p, Elem):
                leaves(p.value, out)
            else:
                out.append(p.size)
                leaves(p.template, out)
    elif isinstance(v, SList):
        leaves(v.view, out)
    return out


def merge_values(cases):
    """[(conds, value)] -> one value (If-merged); shapes must agree."""
    if not cases:
        raise PathEnd
    conds0, v0 = cases[0]
    rest = cases[1:]
    if not rest:
        return v0
    values = [v for _, v in cases]
    if all(v is None for v in values):
        return None
    if all(v is None or isinstance(v, (int, SNum, SOpt)) for v in values) and (
            any(v is None or isinstance(v, SOpt) for v in values)):
        some = [value_of(v) for v in values if v is not None]
        none, r = None, None
        for c, v in cases[::-1]:
            n = none_of(v)
            x = some[0] if v is None else value_of(v)
            none = n if none is None else z3.If(z3.And(*c), n, none)
            r = x if r is None or r.eq(x) else z3.If(z3.And(*c), x, r)
        none = z3.simplify(none)
        if z3.is_false(none):
            return SNum(r)
        return SOpt(none, r)
    if all(isinstance(v, (bool, z3.BoolRef)) for v in values):
        return z3.Or(*[z3.And(*c, v if isinstance(v, z3.BoolRef)
                              else z3.BoolVal(v)) for c, v in cases])
    if all(isinstance(v, (enum.Enum, SEnum)) for v in values):
        if all(v is v0 for v in values):
            return v0
        es = [ie(v) for v in values]
        r = es[-1]
        for (c, _), e in list(zip(cases, es))[-2::-1]:
            r = z3.If(z3.And(*c), e, r)
        return SEnum(r)
    if all(isinstance(v, (int, SNum)) for v in values):
        es = [num(v).e for v in values]
        r = es[-1]
        for (c, _), e in list(zip(cases, es))[-2::-1]:
            r = z3.If(z3.And(*c), e, r)
        return SNum(r)
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in values):
        return tuple(merge_values([(c, v[i]) for c, v in cases])
                     for i in range(len(v0)))
    if all(v is v0 for v in values):
        return v0
    if all(type(v) is type(v0) and isinstance(v, Sym) for v in values):
        new = object.__new__(type(v0))
        for k in v0.__dict__:
            if k in v0.FIELDS:
                new.__dict__[k] = merge_values(
                    [(c, v.__dict__[k]) for c, v in cases])
            else:
                if any(v.__dict__[k] is not v0.__dict__[k] for v in values):
                    raise Unsupported('merge of different objects')
                new.__dict__[k] = v0.__dict__[k]
        return new
    raise Unsupported('merge of values of different shapes')


# -- sequences --------------------------------------------------------------
class Elem:
    __slots__ = ('value',)

    def __init__(self, value):
        self.value = value

    def subst(self, pairs):
        return Elem(subst(self.value, pairs))

    @property
    def size(self):
        return z3.IntVal(1)


STATIC = {'valid', 'clockwise'}              # tags that survive substitution


class Block:
    """`size` elements; the one at position t is template[var := t+off]."""
    __slots__ = ('size', 'var', 'template', 'off', 'tags')

    def __init__(self, size, var, template, off=None, tags=None):
        self.size, self.var, self.template = size, var, template
        self.off = z3.IntVal(0) if off is None else off
        self.tags = {} if tags is None else tags

    def at(self, t):
        return subst(self.template,
                     [(self.var, z3.simplify(t + self.off))])

    def subst(self, pairs):
        return Block(z3.substitute(self.size, *pairs), self.var,
                     subst(self.template, pairs),
                     z3.substitute(self.off, *pairs),
                     {k: v for k, v in self.tags.items() if k in STATIC})


class SeqView:
    """An immutable sequence: concrete elements and symbolic blocks."""
    __slots__ = ('parts',)
    __hash__ = None

    def __init__(self, parts):
        self.parts = parts

    @classmethod
    def of(cls, values):
        return cls([Elem(v) for v in values])

    @property
    def is_concrete(self):
        return all(isinstance(p, Elem) for p in self.parts)

    @property
    def values(self):
        return [p.value for p in self.parts]

    @property
    def size(self):
        """z3 term or int."""
        n = sum(isinstance(p, Elem) for p in self.parts)
        r = None
        for p in self.parts:
            if not isinstance(p, Elem):
                r = p.size if r is None else r + p.size
        if r is None:
            return n
        return z3.simplify(r + n) if n else r

    def length(self):
        s = self.size
        return s if isinstance(s, int) else simple(SNum(s))

    def expanded(self):
        """Equivalent concrete view, or None."""
        if self.is_concrete:
            return self
        parts = []
        for p in self.parts:
            if isinstance(p, Elem):
                parts.append(p)
                continue
            n = concrete(SNum(p.size))
            if n is None:
                n = entailed_size(p.size)
            if n is None:
                return None
            parts.extend(Elem(p.at(z3.IntVal(i))) for i in range(n))
        return SeqView(parts)

    def __iter__(self):
        c = self.expanded()
        if c is None:
            raise Unsupported('iteration over a symbolic sequence')
        return iter(c.values)

    def __len__(self):
        if not self.is_concrete:
            raise Unsupported('len() of a symbolic sequence')
        return len(self.parts)

    def __bool__(self):
        s = self.size
        return s > 0 if isinstance(s, int) else engine().branch(s > 0)

    def __getitem__(self, i):
        return self.slice(i) if isinstance(i, slice) else self.get(i)

    def __add__(self, o):
        return SeqView(self.parts + view(o).parts)

    def get(self, i):
        e = engine()
        n = ie(self.length())
        t = ie(i)
        c = concrete(i)
        if self.is_concrete and c is not None:
            k = len(self.parts)
            if not -k <= c < k:
                raise IndexError('list index out of range')
            return self.parts[c].value
        if c is not None:
            neg = c < 0
        elif e.entailed(t >= 0):
            neg = False
        else:
            neg = e.branch(t < 0)
        pos = n + t if neg else t
        inside = z3.And(pos >= 0, pos < n)
        if not e.entailed(inside):
            if not e.branch(inside):
                raise IndexError('list index out of range')
        return self.at(z3.simplify(pos))

    def at(self, pos):
        """Element at an in-range position (z3 term)."""
        if len(self.parts) == 1 and isinstance(self.parts[0], Block):
            return self.parts[0].at(pos)
        e = engine()
        start = z3.IntVal(0)
        for k, p in enumerate(self.parts):
            end = z3.simplify(start + p.size)
            last = k == len(self.parts) - 1
            if last or e.branch(pos < end):
                if isinstance(p, Elem):
                    return p.value
                return p.at(z3.simplify(pos - start))
            start = end
        raise IndexError

    def slice(self, s):
        if s.step is not None and concrete(s.step) != 1:
            if self.is_concrete and all(
                    x is None or concrete(x) is not None
                    for x in (s.start, s.stop, s.step)):
                return SeqView(self.parts[
                    slice(*(x if x is None else concrete(x)
                            for x in (s.start, s.stop, s.step)))])
            stop = None if s.stop is None else concrete(s.stop)
            if concrete(s.step) == -1 and s.start is None and (
                    s.stop is None or stop is not None and stop >= 0):
                return reverse(self if stop is None
                               else self.slice(slice(stop + 1, None)))
            raise Unsupported('slice step')
        if self.is_concrete and all(
                x is None or concrete(x) is not None
                for x in (s.start, s.stop)):
            return SeqView(self.parts[
                slice(*(x if x is None else concrete(x)
                        for x in (s.start, s.stop)))])
        if s.stop is None and (s.start is None or concrete(s.start) == 0):
            return self
        n = ie(self.length())
        lo = self._bound(s.start, n, z3.IntVal(0))
        hi = self._bound(s.stop, n, n)
        e = engine()
        if not e.entailed(lo <= hi):
            if not e.branch(lo <= hi):
                return SeqView([])
        return self.cut(z3.simplify(lo), z3.simplify(hi))

    def _bound(self, b, n, default):
        if b is None:
            return default
        e = engine()
        t = ie(b)
        c = concrete(b)
        if (c is not None and c < 0) or (
                c is None and not e.entailed(t >= 0) and e.branch(t < 0)):
            t = n + t
            if not e.entailed(t >= 0):
                return t if e.branch(t >= 0) else z3.IntVal(0)
            return t
        if not e.entailed(t <= n):
            return t if e.branch(t <= n) else n
        return t

    def cut(self, lo, hi):
        """parts between positions lo <= hi, both in [0, n]."""
        e = engine()
        result = []
        start = z3.IntVal(0)
        for p in self.parts:
            end = z3.simplify(start + p.size)
            if isinstance(p, Elem):
                if decide(e, z3.And(lo <= start, end <= hi)):
                    result.append(p)
            else:
                a = lo if decide(e, lo > start) else start
                b = hi if decide(e, hi < end) else end
                if a is start and b is end:
                    result.append(p)
                elif decide(e, a < b):
                    result.append(Block(
                        z3.simplify(b - a), p.var, p.template,
                        z3.simplify(p.off + (a - start))))
            start = end
        return SeqView(result)

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of symbolic sequences')

    def __repr__(self):
        return f'SeqView({[type(p).__name__ for p in self.parts]})'


def entailed_size(size):
    e = engine()
    for n in range(5):
        if e.settled(size == n):
            return n
    return None


def decide(e, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    return e.branch(cond)


def simple(n):
    s = z3.simplify(n.e)
    if z3.is_int_value(s):
        return s.as_long()
    return SNum(s)


def born(o):
    """Numbers a mutable object."""
    SList.born += 1
    o.serial = SList.born


def touch(o):
    """Records the change of a mutable object."""
    e = engine()
    if e.merges:
        raise Unsupported('mutation in a local exploration')
    e.__dict__.setdefault('touched', []).append(o)


class SList:
    """A mutable list (identity preserved across loop havoc)."""
    __hash__ = None
    born = 0

    def __init__(self, values=()):
        born(self)
        self.view = values if isinstance(values, SeqView) else SeqView.of(
            list(values))
        self.version = 0
        log = getattr(engine(), 'lists', None) if engine() else None

    def _touch(self):
        self.version += 1
        touch(self)

    def havoc(self, make):
        self.view = view(make(self))

    def append(self, v):
        self._touch()
        self.view = SeqView(self.view.parts + [Elem(v)])

    def extend(self, vs):
        self._touch()
        self.view = SeqView(self.view.parts + view(vs).parts)

    def insert(self, i, v):
        if concrete(i) == 0:
            self._touch()
            self.view = SeqView([Elem(v)] + self.view.parts)
        else:
            raise Unsupported('insert')

    def pop(self, i=-1):
        v = self.view.get(i)
        self.__delitem__(i)
        return v

    def copy(self):
        return SList(self.view)

    def sort(self, *, key=None, reverse=False):
        from .seqs import sorted_
        self._touch()
        self.view = view(sorted_(self, key=key, reverse=reverse))

    def reverse(self):
        self._touch()
        self.view = reverse(self.view)

    def __delitem__(self, i):
        self._touch()
        if isinstance(i, slice):
            n = self.view.length()
            lo = 0 if i.start is None else i.start
            hi = n if i.stop is None else i.stop
            if i.step is not None:
                raise Unsupported('del with step')
            self.view = SeqView(self.view.slice(slice(0, lo)).parts
                                + self.view.slice(slice(hi, None)).parts)
            return
        c = concrete(i)
        if self.view.is_concrete and c is not None:
            parts = list(self.view.parts)
            del parts[c]
            self.view = SeqView(parts)
            return
        n = ie(self.view.length())
        e = engine()
        t = ie(i)
        if (c is not None and c < 0) or (
                c is None and not e.entailed(t >= 0) and e.branch(t < 0)):
            t = n + t
        inside = z3.And(t >= 0, t < n)
        if not e.entailed(inside) and not e.branch(inside):
            raise IndexError('list assignment index out of range')
        t = z3.simplify(t)
        self.view = SeqView(
            self.view.cut(z3.IntVal(0), t).parts
            + self.view.cut(z3.simplify(t + 1), n).parts)

    def __setitem__(self, i, v):
        self._touch()
        c = concrete(i)
        if self.view.is_concrete and c is not None and not isinstance(
                i, slice):
            parts = list(self.view.parts)
            parts[c] = Elem(v)
            self.view = SeqView(parts)
            return
        if isinstance(i, slice) or len(self.view.parts) != 1:
            raise Unsupported('item assignment')
        b = self.view.parts[0]
        t = ie(i)
        e = engine()
        inside = z3.And(t >= 0, t < b.size)
        if not e.entailed(inside) and not e.branch(inside):
            raise Unsupported('assignment at a possibly negative index')
        new = Block(b.size, b.var, merge_values(
            [([b.var + 0 == t + b.off], v), ([], b.template)]), b.off)
        if 'total' in b.tags:
            new.tags['total'] = z3.simplify(
                b.tags['total'] + ie(v) - ie(b.at(t)))
        self.view = SeqView([new])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SList(self.view.slice(i))
        return self.view.get(i)

    def __iter__(self):
        return iter(self.view)

    def __len__(self):
        return len(self.view)

    def __bool__(self):
        return bool(self.view)

    def __add__(self, o):
        if isinstance(o, (SList, SeqView, list)):
            return SList(SeqView(self.view.parts + view(o).parts))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SList(SeqView(view(o).parts + self.view.parts))
        return NotImplemented

    def __mul__(self, n):
        from .seqs import repeat_list
        return repeat_list(self, n)

    __rmul__ = __mul__

    def __contains__(self, v):
        from .seqs import contains
        return contains(self, v)

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of lists')

    def __repr__(self):
        return f'SList({self.view!r})'


def view(v):
    if isinstance(v, SeqView):
        return v
    if isinstance(v, SList):
        return v.view
    if isinstance(v, (list, tuple, range)):
        return SeqView.of(list(v))
    if isinstance(v, Sym) and hasattr(v, 'as_view'):
        return v.as_view()
    if hasattr(v, '__iter__'):
        return SeqView.of(list(v))
    raise Unsupported(f'not a sequence: {type(v).__name__}')


def reverse(v):
    parts = []
    for p in reversed(v.parts):
        if isinstance(p, Elem):
            parts.append(p)
        else:
            j = z3.Int(engine().name('rev'))
            parts.append(Block(p.size, j, p.at(p.size - 1 - j)))
    return SeqView(parts)


def fresh_index(base='i'):
    return z3.Int(engine().name(base))


def fresh_block(size, make, tags=None):
    """A block whose generic element make() builds in an index context."""
    j = fresh_index('k')
    with index_context(j, z3.And(j >= 0, j < size)):
        template = make()
    return Block(size, j, template, None, tags)


def fresh_int(base, lo=None, hi=None):
    e = engine()
    v = e.fresh(base, INT)
    if lo is not None:
        e.assume(v >= ie(lo))
    if hi is not None:
        e.assume(v <= ie(hi))
    return SNum(v)


def fresh_real(base):
    return SNum(engine().fresh(base, REAL))


# -- quantified formulas over sequences ---------------------------------------
def each(seq, f):
    """Formula: f(element, index term) for every element."""
    result = []
    start = z3.IntVal(0)
    for p in view(seq).parts:
        if isinstance(p, Elem):
            result.append(f(p.value, z3.simplify(start)))
        else:
            # quantify over the position in the underlying block
            i = fresh_index('q')
            body = f(subst(p.template, [(p.var, i)]),
                     z3.simplify(i - p.off + start))
            result.append(forall([i], z3.Implies(
                z3.And(i >= p.off, i < p.off + p.size), body)))
        start = z3.simplify(start + p.size)
    return z3.And(*result) if result else z3.BoolVal(True)


def each_pair(seq, f):
    """Formula: f(earlier element, later element) for all pairs."""
    parts = view(seq).parts
    result = []
    for n, p in enumerate(parts):
        if isinstance(p, Block):
            i, j = fresh_index('q'), fresh_index('q')
            a, b = (subst(p.template, [(p.var, i)]),
                    subst(p.template, [(p.var, j)]))
            result.append(forall([i, j], z3.Implies(
                z3.And(i >= p.off, i < j, j < p.off + p.size), f(a, b))))
        for q in parts[n + 1:]:
            result.append(each(SeqView([p]), lambda a, _: each(
                SeqView([q]), lambda b, _: f(a, b))))
    return z3.And(*result) if result else z3.BoolVal(True)
