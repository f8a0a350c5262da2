"""Hypothesis strategies as specifications.

draw() returns an arbitrary value the strategy may produce (decisions split
the run, values are fresh constants).  Argument checks of the real strategies
are obligations.  Trusted: that Hypothesis' strategies produce no other values
(see TRUSTED in run.py).
"""
import functools
import inspect
import itertools
import sys
import types
import warnings

import z3

from . import seqs
from .core import PathEnd, Unsupported, engine, forall, index_context
from .seqs import SFun, SIter, SSet, equal, flat, iterate, permuted, rename
from .values import (Block, Elem, INT, REAL, SList, SNum, SOpt, SeqView, Sym,
                     at_most,
                     concrete, decide, each, each_pair, fresh_block,
                     fresh_index, fresh_int, fresh_real, ie, merge_values,
                     num, simple, view)

BOUNDS = frozenset({'C06'})


class SearchStrategy:
    cap = None                     # number of distinct values, None: infinite

    def __class_getitem__(cls, item):
        return cls

    def draw(self):
        raise NotImplementedError

    def map(self, f):
        return Mapped(self, f)

    def filter(self, f):
        return Filtered(self, f)

    def flatmap(self, f):
        return FlatMapped(self, f)

    def __or__(self, other):
        if not isinstance(other, SearchStrategy):
            raise ValueError('Cannot | with a non-strategy')
        return OneOf(self, other)

    def example(self):
        raise Unsupported('example()')


def check_strategy(s, what):
    if not isinstance(s, SearchStrategy):
        engine().prove(f'{what} is given a strategy', z3.BoolVal(False),
                       'bound', BOUNDS)
        raise PathEnd


class Coord(SearchStrategy):
    """An arbitrary strategy of exact scalars."""

    def __init__(self, name):
        e = engine()
        self.name = name
        self.pred = z3.Function(f'In_{name}', REAL, z3.BoolSort())
        self.lo, self.hi = z3.Real(f'lo_{name}'), z3.Real(f'hi_{name}')

    def draw(self):
        v = fresh_real(f'{self.name}_value')
        engine().assume(z3.And(self.pred(v.e), self.lo <= v.e,
                               v.e <= self.hi))
        return v

    def member(self, v):
        return self.pred(num(v).e)

    def within(self, v):
        return z3.And(self.lo <= num(v).e, num(v).e <= self.hi)


class Mapped(SearchStrategy):
    def __init__(self, s, f):
        self.s, self.f = s, f

    def draw(self):
        return self.f(self.s.draw())


class Filtered(SearchStrategy):
    def __init__(self, s, f):
        self.s, self.f = s, f

    @property
    def cap(self):
        return self.s.cap

    def draw(self):
        v = self.s.draw()
        r = self.f(v)
        if not (engine().branch(r) if isinstance(r, z3.BoolRef) else r):
            raise PathEnd
        return v


class FlatMapped(SearchStrategy):
    def __init__(self, s, f):
        self.s, self.f = s, f

    def draw(self):
        s = self.f(self.s.draw())
        check_strategy(s, 'flatmap')
        return s.draw()


class OneOf(SearchStrategy):
    def __init__(self, *alternatives):
        self.alternatives = alternatives

    def draw(self):
        i = engine().choose(len(self.alternatives), 'one_of')
        return self.alternatives[i].draw()


class Builds(SearchStrategy):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def draw(self):
        args = [a.draw() for a in self.args]
        kwargs = {k: v.draw() for k, v in self.kwargs.items()}
        return self.f(*args, **kwargs)


class Integers(Sym, SearchStrategy):
    FIELDS = ('lo', 'hi')

    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def draw(self):
        e = engine()
        for b in (self.lo, self.hi):
            if b is not None and not isinstance(
                    b, (int, SNum, SOpt)):
                raise Unsupported('bound of integers()')
        if isinstance(self.lo, SOpt):
            self.lo = None if self.lo.is_none() else self.lo.get()
        if self.lo is not None and self.hi is not None:
            e.prove('integers(): min_value <= max_value',
                    at_most(ie(self.lo), self.hi), 'bound', BOUNDS)
            if concrete(self.lo) is not None and (
                    concrete(self.lo) == concrete(self.hi)):
                return concrete(self.lo)
        r = fresh_int('drawn', self.lo)
        e.assume(at_most(r.e, self.hi))
        if e.ctx and r.e.num_args() == 1:
            from .core import _vars_in
            ids = {v.get_id() for v, _ in e.ctx}
            if not any(b is not None and (isinstance(b, SOpt) or _vars_in(
                    ie(b), ids)) for b in (self.lo, self.hi)):
                e.__dict__.setdefault('drawn', {})[
                    r.e.decl().name()] = self.lo, self.hi
        return r


class Lists(SearchStrategy):
    def __init__(self, s, lo, hi, unique):
        self.s, self.lo, self.hi, self.unique = s, lo, hi, unique

    def draw(self):
        e = engine()
        lo = ie(self.lo)
        e.prove('lists(): min_size >= 0', lo >= 0, 'bound', BOUNDS)
        if self.hi is not None:
            e.prove('lists(): min_size <= max_size', at_most(lo, self.hi),
                    'bound', BOUNDS)
        if self.unique and self.s.cap is not None:
            e.prove('lists(): enough distinct elements for min_size',
                    lo <= self.s.cap, 'bound', BOUNDS)
        n = None
        if self.hi is not None and not isinstance(self.hi, SOpt):
            clo, chi = concrete(self.lo), concrete(self.hi)
            if clo is not None and clo == chi:
                n = clo
            elif e.entailed(lo == ie(self.hi)):
                n = self.lo
        if n is None:
            n = fresh_int('size', self.lo)
            e.assume(at_most(n.e, self.hi))
            if self.unique and self.s.cap is not None:
                e.assume(n.e <= self.s.cap)
        if isinstance(n, int) and n <= 4:
            r = SList([self.s.draw() for _ in range(n)])
        else:
            t = ie(n)
            r = SList(SeqView([fresh_block(t, lambda: draw_generic(self.s))]))
        if self.unique:
            e.assume(each_pair(r.view, lambda a, b: z3.Not(equal(a, b))))
        return r


def draw_generic(s):
    """A drawn element in an index context."""
    e = engine()
    cases = e.merge(s.draw)
    if not cases:
        raise PathEnd
    if any(c for c, _ in cases):
        e.assume(z3.Or(*[z3.And(*c) for c, _ in cases]))
    return merge_values(cases)


class SampledFrom(Sym, SearchStrategy):
    FIELDS = ('values',)

    def __init__(self, values):
        self.values = values

    @property
    def cap(self):
        # elements are known to be distinct where this matters
        return ie(view(self.values).length())

    def draw(self):
        e = engine()
        v = iterate(self.values)
        n = ie(v.length())
        e.prove('sampled_from(): at least one element', n > 0, 'bound',
                BOUNDS)
        if v.is_concrete and not e.ctx and not e.merges:
            return v.values[e.choose(len(v.parts), 'sampled_from')]
        i = fresh_int('sampled', 0)
        e.assume(i.e < n)
        b = flat(v)
        return b.at(i.e)

    def member(self, x):
        b = flat(self.values)
        i = fresh_index('m')
        return z3.Exists([i], z3.And(
            i >= 0, i < b.size, num(b.at(i)).e == num(x).e))

    def within(self, x):
        b = flat(self.values)
        i, j = fresh_index('m'), fresh_index('m')
        return z3.Exists([i, j], z3.And(
            i >= 0, i < b.size, j >= 0, j < b.size,
            num(b.at(i)).e <= num(x).e, num(x).e <= num(b.at(j)).e))


class Just(SearchStrategy):
    def __init__(self, v):
        self.v = v

    def draw(self):
        return self.v


class Tuples(SearchStrategy):
    def __init__(self, parts):
        self.parts = parts

    def draw(self):
        if isinstance(self.parts, SeqView):
            out = []
            for p in self.parts.parts:
                if isinstance(p, Elem):
                    out.append(Elem(p.value.draw()))
                else:
                    j = fresh_index('k')
                    with index_context(j, z3.And(j >= 0, j < p.size)):
                        s = p.at(j)
                        t = draw_generic(s)
                    r = Block(p.size, j, t)
                    if 'range' in p.tags and isinstance(t, SNum) and (
                            not engine().ctx):
                        # induction: the sum of draws from ranges is between
                        # the sums of their ends
                        lo, hi = p.tags['range']
                        total = engine().fresh('total', INT)
                        engine().assume(z3.And(lo <= total, total <= hi))
                        r.tags['total'] = total
                    out.append(r)
            return SeqView(out)
        return tuple(s.draw() for s in self.parts)


class Permutations(SearchStrategy):
    def __init__(self, values):
        self.values = values

    def draw(self):
        return SList(permuted(iterate_copy(self.values)))


def iterate_copy(v):
    return view(v) if not isinstance(v, SIter) else iterate(v)


class Randoms(SearchStrategy):
    def draw(self):
        return SRandom()


class SRandom:
    """random.Random with arbitrary behaviour."""

    def getrandbits(self, n):
        return fresh_int('bits', 0)

    def choice(self, seq):
        v = view(seq)
        e = engine()
        if v.is_concrete:
            if not v.parts:
                raise IndexError('choice from an empty sequence')
            return v.values[e.choose(len(v.parts), 'choice')]
        return v.get(fresh_int('choice', 0))

    def shuffle(self, seq):
        seq._touch()
        seq.view = permuted(seq.view, 'shuffle')

    def __getattr__(self, name):
        raise Unsupported(f'random.{name}')


class Composite(SearchStrategy):
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs

    def draw(self):
        def draw(s, *a, **k):
            check_strategy(s, 'draw')
            return s.draw()
        return self.f(draw, *self.args, **self.kwargs)


class Abstract(SearchStrategy):
    """A strategy known by contract only."""

    def __init__(self, make, name='', args=None):
        self.make, self.name, self.args = make, name, args

    def draw(self):
        return self.make()


def composite(f):
    @functools.wraps(f)
    def accept(*args, **kwargs):
        return Composite(f, args, kwargs)
    return accept


class TuplesFn:
    accepts_star = True

    def __call__(self, *parts):
        for p in parts:
            check_strategy(p, 'tuples')
        return Tuples(parts)

    def star(self, v):
        return Tuples(v)


def lists(elements, *, min_size=0, max_size=None, unique=False,
          unique_by=None):
    if unique_by is not None:
        raise Unsupported('unique_by')
    check_strategy(elements, 'lists')
    return Lists(elements, min_size, max_size, bool(unique))


def builds(target, /, *args, **kwargs):
    for a in args + tuple(kwargs.values()):
        check_strategy(a, 'builds')
    return Builds(target, args, kwargs)


def integers(min_value=None, max_value=None):
    return Integers(min_value, max_value)


def one_of(*args):
    if len(args) == 1 and not isinstance(args[0], SearchStrategy):
        args = tuple(iterate(args[0]))
    return OneOf(*args)


def strategies_module():
    m = types.ModuleType('hypothesis.strategies')
    m.SearchStrategy = SearchStrategy
    m.lists, m.builds, m.integers, m.one_of = lists, builds, integers, one_of
    m.tuples = TuplesFn()
    m.sampled_from = SampledFrom
    m.just = Just
    m.permutations = Permutations
    m.randoms = lambda **k: Randoms()
    m.composite = composite
    m.booleans = lambda: SampledFrom(SeqView.of([False, True]))
    m.DrawFn = object
    return m
