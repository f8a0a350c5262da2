"""Contracts of hypothesis_geometry._core.base and what it calls."""
import z3

from .contract import Args, Contract
from .core import (CHAIN, Unsupported, engine, forall, index_context,
                   has_quantifier, matched_by)
from .geometry import (SBox, SContext, SContour, SEmpty, SMix, SMultipoint,
                       SMultipolygon, SMultisegment, SPoint, SPolygon,
                       SSegment, after, before, det, edges, same_context)
from .instrument import LoopSpec
from .seqs import (SIter, SNested, Undefined, contains, equal, flat, iterate, key_le,
                   lower_bound_total, prefix, single, total)
from .strategies import Coord, SampledFrom, SearchStrategy, SRandom
from .values import (Block, Elem, INT, REAL, Remainder, SList, SNum, SOpt, SeqView,
                     at_most, divisions, each,
                     each_pair, fresh_block, fresh_index, fresh_int,
                     fresh_real, ie, none_of, num, simple, subst, value_of, view)

CONTRACTS = {}
LOOPS = {}
IsP = z3.Function('IsP', INT, z3.BoolSort())       # utils._is_prime's result
NextP = z3.Function('NextP', INT, INT)
PriorP = z3.Function('PriorP', INT, INT)
T, F = z3.BoolVal(True), z3.BoolVal(False)


def contract(key, params, **kw):
    CONTRACTS[key] = Contract(key, params, **kw)


# -- generic arguments -------------------------------------------------------
class CappedCoord(Coord):
    """A coordinate strategy with `cap` distinct values (arbitrary)."""

    def __init__(self, name):
        super().__init__(name)
        self.cap = z3.Int(f'cap_{name}')
        engine().assume(self.cap >= 0)


def coordinate_args(capped=True):
    make = CappedCoord if capped else Coord
    x = make('x')
    y = None if engine().choose(2, 'y strategy') else make('y')
    return x, y


def pair(name, lo, hi):
    """Generic size bounds."""
    e = engine()
    a = SNum(z3.Int(lo))
    if hi is None:
        return {lo: a}
    b = SOpt(z3.Bool(hi + '_none'), z3.Int(hi))
    return {lo: a, hi: b}


def base_args(*pairs, capped=True):
    def args():
        x, y = coordinate_args(capped)
        kw = dict(context=SContext())
        for lo, hi in pairs:
            kw.update(pair('', lo, hi))
        return (x, y), kw
    return args


XY = ['x_coordinate_strategy', 'y_coordinate_strategy', 'context']


def axes(a):
    x = a.x_coordinate_strategy
    y = a.y_coordinate_strategy
    return x, (x if y is None else y)


def exact(a, p):
    x, y = axes(a)
    return z3.And(x.member(p.x), y.member(p.y))


def ranged(a, p):
    x, y = axes(a)
    return z3.And(x.within(p.x), y.within(p.y))


def bounds(lo, hi, least):
    """lo >= least and (hi is None or lo <= hi)."""
    f = ie(lo) >= least
    return z3.And(f, at_most(ie(lo), hi))


def at_least(hi, n):
    """Formula: hi is None or hi >= n."""
    return T if hi is None else z3.Or(none_of(hi), value_of(hi) >= n)


def within(n, lo, hi):
    n = ie(n)
    f = n >= ie(lo)
    return z3.And(f, at_most(n, hi))


def size(v):
    return view(v).length()


def cap_at_least(s, n):
    return T if s.cap is None else s.cap >= n


def ctx_ok(a, r):
    return ('built by the given context', {'C16'},
            z3.BoolVal(same_context(r, a.context)))


def isa(r, cls):
    if isinstance(r, cls):
        return
    raise TypeError(f'{type(r).__name__} instead of {cls.__name__}')


# -- generic results -----------------------------------------------------------
def fresh_point(ctx):
    return SPoint(ctx, fresh_real('px'), fresh_real('py'))


def fresh_points(ctx, n=None):
    n = fresh_int('npoints', 0).e if n is None else n
    return SList(SeqView([fresh_block(n, lambda: fresh_point(ctx))]))


def fresh_vertices_view(ctx):
    n = engine().fresh('nvert', INT)
    engine().assume(n >= 0)
    return SeqView([fresh_block(n, lambda: fresh_point(ctx),
                                {'valid': True})])


def fresh_contour(ctx, axis=None):
    return SContour(ctx, fresh_vertices_view(ctx),
                    axis() if axis else None)


def fresh_contours(ctx, axis=None):
    n = engine().fresh('ncont', INT)
    engine().assume(n >= 0)
    return SeqView([fresh_block(n, lambda: fresh_contour(ctx, axis))])


def fresh_polygon(ctx):
    return SPolygon(ctx, fresh_contour(ctx), fresh_contours(ctx))


def fresh_segment(ctx):
    return SSegment(ctx, fresh_point(ctx), fresh_point(ctx))


def fresh_segments(ctx, n=None):
    n = fresh_int('nseg', 0).e if n is None else n
    return SList(SeqView([fresh_block(n, lambda: fresh_segment(ctx))]))


def all_points(vs, f):
    return each(view(vs), lambda p, _: f(p))


def polygon_points(poly, f):
    return z3.And(all_points(poly.border.vertices, f),
                  each(poly.holes, lambda h, _: all_points(h.vertices, f)))


def polygon_edges(poly, f):
    return z3.And(
        each(edges(poly.border.vertices), lambda e, _: f(*e)),
        each(poly.holes,
             lambda h, _: each(edges(h.vertices), lambda e, _: f(*e))))


def distinct(seq):
    return each_pair(view(seq), lambda a, b: z3.Not(equal(a, b)))


# -- utils -------------------------------------------------------------------
# IsP(n): what utils._is_prime answers for odd n (1 and 5 are accepted, 3 is
# not); Bertrand's postulate in terms of IsP is proved in lemmas/Primes.lean.
Bertrand = z3.Function('Bertrand', INT, INT)


def bertrand(v):
    b = Bertrand(v)
    e = engine()
    e.assumed.add('Bertrand: an odd number accepted by _is_prime lies in '
                  '[v, 2 v - 1] for v > 2')
    e.assume(z3.Implies(v > 2, z3.And(
        b >= v, b <= 2 * v - 1, b % 2 == 1, IsP(b))))
    return b


def one_int(name):
    def args():
        v = z3.Int(name)
        bertrand(v)
        return (SNum(v),), {}
    return args


# IsP is defined by the absence of divisors 3 and 6 j +- 1 up to the root;
# that those are the odd primes above 3, and 1, is arithmetic.
HasDivisor = z3.Function('HasDivisor', INT, INT, z3.BoolSort())
Witness = z3.Function('Witness', INT, INT)


def is_p_defined(v):
    """The definition of IsP at v."""
    e = engine()
    j, k = z3.Int('j!isp'), Witness(v)
    e.assume(z3.ForAll([j], HasDivisor(v, j) == z3.Or(
        Remainder(v, 6 * j - 1) == 0, Remainder(v, 6 * j + 1) == 0),
        patterns=[HasDivisor(v, j)]))
    tried = lambda j: z3.And(j >= 1, (6 * j - 1) * (6 * j - 1) <= v)
    e.assume(z3.Implies(IsP(v), z3.And(v % 3 != 0, z3.ForAll(
        [j], z3.Implies(tried(j), z3.Not(HasDivisor(v, j))),
        patterns=[HasDivisor(v, j)]))))
    e.assume(z3.Implies(z3.Not(IsP(v)), z3.Or(
        v % 3 == 0, z3.And(tried(k), HasDivisor(v, k)))))


def is_prime_args():
    v = z3.Int('value')
    is_p_defined(v)
    return (SNum(v),), {}


def is_prime_ensures(a, r):
    v = ie(a.value)
    answer = r.e != 0 if isinstance(r, SNum) else z3.BoolVal(bool(r))
    return [('no divisor 3 or 6 j +- 1 up to the root', {'C06'},
             answer == IsP(v))]


def is_prime_loop(L):
    v = ie(L.entry['value'])
    L.havoc('divisor', lambda old: fresh_int('divisor'))
    at = lambda env: ie(env['divisor']) / 6
    L.inv('the next divisors', lambda env, k: z3.And(
        ie(env['divisor']) == 6 * at(env), at(env) >= 1), {'C06'})

    def none_so_far(env, k):
        j = fresh_index('q')
        return forall([j], z3.Implies(
            z3.And(j >= 1, j < at(env)), z3.Not(HasDivisor(v, j))),
            [HasDivisor(v, j)])
    L.inv('no divisor so far', none_so_far, {'C06'})
    L.fact(lambda env, k: z3.And(
        z3.Bool('divisible') == HasDivisor(v, at(env)),
        z3.Implies(at(env) * 6 == ie(env['divisor']), z3.And(
            Remainder(v, ie(env['divisor']) - 1)
            == Remainder(v, 6 * at(env) - 1),
            Remainder(v, ie(env['divisor']) + 1)
            == Remainder(v, 6 * at(env) + 1)))))
    L.variant(lambda env, k: v + 7 - ie(env['divisor']))


LOOPS['utils._is_prime', 0] = LoopSpec(is_prime_loop)

contract('utils._is_prime', ['value'], args=is_prime_args,
         requires=lambda a: [('odd', ie(a.value) % 2 == 1),
                             ('positive', ie(a.value) >= 1)],
         result=lambda a: (engine().assume(IsP(z3.IntVal(1))),
                           SNum(z3.If(IsP(ie(a.value)), 1, 0)))[1],
         ensures=is_prime_ensures)

contract(
    'utils.to_next_prime', ['value'], args=one_int('value'),
    requires=lambda a: [('value > 2', ie(a.value) > 2)],
    result=lambda a: SNum(NextP(ie(a.value))),
    ensures=lambda a, r: [
        ('not below the argument', {'C06', 'C02', 'C03'},
         ie(r) >= ie(a.value)),
        ('below twice the argument', {'C06'}, ie(r) <= 2 * ie(a.value) - 1),
        ('odd', {'C06'}, ie(r) % 2 == 1),
        ('accepted by _is_prime', {'C06'}, IsP(ie(r)))])


def next_loop(L):
    L.havoc('step', lambda old: fresh_int('step'))
    L.inv('odd and not below the argument',
          lambda env, k: z3.And(ie(env['step']) >= ie(L.entry['value']),
                                ie(env['step']) % 2 == 1), {'C06'})
    b = Bertrand(ie(L.entry['value']))
    L.inv('no accepted number is skipped',
          lambda env, k: ie(env['step']) <= b, {'C06'})
    L.variant(lambda env, k: b - ie(env['step']))


LOOPS['utils.to_next_prime', 0] = LoopSpec(next_loop)


def largest_accepted(v, p):
    q = z3.Int('q!prime')
    return z3.ForAll([q], z3.Implies(
        z3.And(IsP(q), q % 2 == 1, q <= v), q <= p), patterns=[IsP(q)])


contract(
    'utils.to_prior_prime', ['value'], args=one_int('value'),
    requires=lambda a: [('value > 2', ie(a.value) > 2)],
    result=lambda a: SNum(PriorP(ie(a.value))),
    ensures=lambda a, r: [
        ('not above the argument', {'C06', 'C03'}, ie(r) <= ie(a.value)),
        ('odd', {'C06'}, ie(r) % 2 == 1),
        ('accepted by _is_prime', {'C06'}, IsP(ie(r))),
        ('the largest accepted number', {'C06'},
         largest_accepted(ie(a.value), ie(r)))])


def prior_loop(L):
    v = ie(L.entry['value'])
    L.havoc('step', lambda old: fresh_int('step'))
    L.inv('odd, positive and not above the argument',
          lambda env, k: z3.And(ie(env['step']) <= v, ie(env['step']) >= 1,
                                ie(env['step']) % 2 == 1), {'C06'})
    L.inv('no accepted number is skipped',
          lambda env, k: largest_accepted(v, ie(env['step'])), {'C06'})
    L.variant(lambda env, k: ie(env['step']))


LOOPS['utils.to_prior_prime', 0] = LoopSpec(prior_loop)


def pairs_of(v):
    """Consecutive pairs of a sequence."""
    v = view(v)
    c = v.expanded()
    if c is not None:
        xs = c.values
        return SeqView.of(list(zip(xs, xs[1:])))
    b = flat(v)
    j = fresh_index('k')
    n = z3.simplify(b.size - 1)
    if not engine().entailed(n >= 0):
        n = z3.If(n > 0, n, 0)
    return SeqView([Block(n, j, (b.at(j), b.at(z3.simplify(j + 1))))])


def pairwise_args():
    n = fresh_int('n', 0)
    xs = SeqView([fresh_block(n.e, lambda: fresh_real('x'))])
    return (xs,), {}


def same_sequence(u, v, eq=equal):
    """Formula: sequences are equal element by element."""
    u, v = view(u), view(v)
    m, n = ie(u.length()), ie(v.length())
    b = flat(v)
    if b is None:
        return m == 0
    if isinstance(u, SeqView) and not u.parts:
        return n == 0
    c = flat(u)
    i = fresh_index('q')
    return z3.And(m == n, forall([i], z3.Implies(
        z3.And(i >= 0, i < m), eq(c.at(i), b.at(i)))))


contract('utils.pairwise', ['iterable'], args=pairwise_args,
         result=lambda a: SIter(pairs_of(iterate(a.iterable))),
         ensures=lambda a, r: [
             ('consecutive pairs', {'C11'},
              T if a.iterable is None or not isinstance(
                  a.iterable, SeqView) else same_sequence(
                  iterate_once(r), pairs_of(a.iterable)))])


def iterate_once(r):
    return r.view if isinstance(r, SIter) else view(r)


def pairwise_loop(L):
    src = view(L.entry['iterable'])

    def make(old):
        n = fresh_int('done', 0)
        return SeqView([fresh_block(n.e, lambda: (fresh_real('a'),
                                                  fresh_real('b')))])
    L.mutate('__out__', make)
    L.havoc('element', lambda old: fresh_real('element'))

    def done(env, k):
        out = view(env['__out__'])
        f = [ie(out.length()) == k]
        if out.parts:
            b, s = flat(out), flat(src)
            i = fresh_index('q')
            f.append(forall([i], z3.Implies(
                z3.And(i >= 0, i < k), z3.And(
                    equal(b.at(i)[0], s.at(i)),
                    equal(b.at(i)[1], s.at(z3.simplify(i + 1)))))))
        return z3.And(*f)
    L.inv('pairs so far', done, {'C11'})
    L.inv('the element at hand', lambda env, k: equal(
        env['element'], flat(src).at(k)), {'C11'})


LOOPS['utils.pairwise', 0] = LoopSpec(pairwise_loop)


# -- elementary strategies -----------------------------------------------------
contract(
    'base.to_point_strategy', XY, args=base_args(), draws=True,
    requires=lambda a: [('a coordinate', capped(a, 1))],
    result=lambda a: fresh_point(a.context),
    ensures=lambda a, r: (isa(r, SPoint), [
        ('coordinates come from their axes', {'C05'}, exact(a, r)),
        ('coordinates lie in their ranges', {'C05'}, ranged(a, r)),
        ctx_ok(a, r)])[1])


def box_ensures(a, r):
    isa(r, SBox)
    x, y = axes(a)
    return [
        ('min_x < max_x', {'C07'}, num(r.min_x).e < num(r.max_x).e),
        ('min_y < max_y', {'C07'}, num(r.min_y).e < num(r.max_y).e),
        ('coordinates come from their axes', {'C05'}, z3.And(
            x.member(r.min_x), x.member(r.max_x),
            y.member(r.min_y), y.member(r.max_y))),
        ('coordinates lie in their ranges', {'C05'}, z3.And(
            x.within(r.min_x), x.within(r.max_x),
            y.within(r.min_y), y.within(r.max_y))),
        ctx_ok(a, r)]


def fresh_box(a):
    return SBox(a.context, *[fresh_real('b') for _ in range(4)])


contract('base.to_box_strategy', XY, args=base_args(), draws=True,
         requires=lambda a: [('two distinct coordinates', z3.And(
             cap_at_least(axes(a)[0], 2), cap_at_least(axes(a)[1], 2)))],
         result=fresh_box, ensures=box_ensures)


contract(
    'base.to_segment_strategy', XY, args=base_args(), draws=True,
    requires=lambda a: [('a coordinate', capped(a, 1))],
    result=lambda a: fresh_segment(a.context),
    ensures=lambda a, r: (isa(r, SSegment), [
        ('endpoints differ', {'C07', 'C11'},
         z3.Not(equal(r.start, r.end))),
        ('coordinates come from their axes', {'C05'},
         z3.And(exact(a, r.start), exact(a, r.end))),
        ('coordinates lie in their ranges', {'C05'},
         z3.And(ranged(a, r.start), ranged(a, r.end))),
        ctx_ok(a, r)])[1])


contract('base.to_empty_geometry_strategy', ['context'],
         args=lambda: ((), dict(context=SContext())), draws=True,
         result=lambda a: SEmpty(a.context),
         ensures=lambda a, r: (isa(r, SEmpty), [ctx_ok(a, r)])[1])


def unique_points_ensures(a, r):
    return [
        ('size bounds', {'C02', 'C04'}, within(size(r), a.min_size,
                                               a.max_size)),
        ('points are distinct', {'C07', 'C15'}, distinct(r)),
        ('coordinates come from their axes', {'C05'},
         all_points(r, lambda p: exact(a, p))),
        ('coordinates lie in their ranges', {'C05', 'C15'},
         all_points(r, lambda p: ranged(a, p))),
        ctx_ok(a, r)]


SIZES = ['min_size', 'max_size']
def enough_points(a):
    """The Cartesian product has min_size points."""
    x, y = axes(a)
    n = ie(a.min_size)
    if x.cap is not None and y.cap is not None:
        return n <= x.cap * y.cap
    return T


contract(
    'base.to_unique_point_sequence_strategy', XY + SIZES,
    args=base_args(SIZES), draws=True,
    requires=lambda a: [
        ('0 <= min <= max', bounds(a.min_size, a.max_size, 0)),
        ('a coordinate', capped(a, 1)),
        ('enough distinct points', enough_points(a))],
    result=lambda a: fresh_points(a.context), ensures=unique_points_ensures)

contract(
    'base.to_multipoint_strategy', XY + SIZES, args=base_args(SIZES),
    draws=True,
    requires=lambda a: [
        ('0 <= min <= max', bounds(a.min_size, a.max_size, 0)),
        ('a coordinate', capped(a, 1)),
        ('enough distinct points', enough_points(a))],
    result=lambda a: SMultipoint(a.context, fresh_points(a.context)),
    ensures=lambda a, r: (isa(r, SMultipoint), unique_points_ensures(
        a, r.points) + [ctx_ok(a, r)])[1])


def triangle_ensures(a, r):
    v = view(r)
    c = v.expanded()
    n = size(r)
    if c is None or len(c.parts) != 3:
        return [('three vertices', {'C02', 'C07'}, ie(n) == 3)]
    p, q, s = c.values
    return [
        ('three vertices', {'C02', 'C07'}, T),
        ('counterclockwise', {'C07', 'C08', 'C09'}, det(p, q, s) > 0),
        ('coordinates come from their axes', {'C05'},
         all_points(r, lambda p: exact(a, p))),
        ('coordinates lie in their ranges', {'C05'},
         all_points(r, lambda p: ranged(a, p))),
        ctx_ok(a, r)]


contract('base.to_triangular_vertex_sequence_strategy', XY,
         args=base_args(), draws=True,
         requires=lambda a: [('a coordinate', capped(a, 1))],
         result=lambda a: SList([fresh_point(a.context) for _ in range(3)]),
         ensures=triangle_ensures)


def rectangle_ensures(a, r):
    v = view(r).expanded()
    if v is None or len(v.parts) != 4:
        return [('four vertices', {'C02', 'C07'}, ie(size(r)) == 4)]
    p, q, s, t = v.values
    e = lambda m, n: num(m).e == num(n).e
    return [
        ('four vertices', {'C02', 'C07'}, T),
        ('corners of an upright rectangle, counterclockwise', {
            'C07', 'C08', 'C09'}, z3.And(
            e(p.y, q.y), e(q.x, s.x), e(s.y, t.y), e(t.x, p.x),
            num(p.x).e < num(q.x).e, num(q.y).e < num(s.y).e)),
        ('coordinates come from their axes', {'C05'},
         all_points(r, lambda p: exact(a, p))),
        ('coordinates lie in their ranges', {'C05'},
         all_points(r, lambda p: ranged(a, p))),
        ctx_ok(a, r)]


contract('base.to_rectangular_vertex_sequence_strategy', XY,
         args=base_args(), draws=True,
         requires=lambda a: [('two distinct coordinates', z3.And(
             cap_at_least(axes(a)[0], 2), cap_at_least(axes(a)[1], 2)))],
         result=lambda a: SList([fresh_point(a.context) for _ in range(4)]),
         ensures=rectangle_ensures)


def cross_or_overlap(segments, ctx):
    """bentley_ottmann's predicate: uninterpreted relation per pair."""
    e = engine()
    if isinstance(segments, SNested):
        f = all_apart(segments.sequences)
    else:
        f = each_pair(view(segments), NX)
    return e.branch(z3.Not(f))


def all_apart(sequences):
    """No two segments of sequences cross or overlap."""
    return z3.And(
        each(sequences, lambda s, _: each_pair(s, NX)),
        each_pair(sequences, lambda s, t: each(
            s, lambda a, _: each(t, lambda b, _: NX(a, b)))))


_NX = z3.Function('no_cross_or_overlap', *([REAL] * 8), z3.BoolSort())


def NXP(s, t):
    engine().axiom('NX', nx_axioms)
    return _NX(*[num(c).e for p in s + t for c in (p.x, p.y)])


def nx_axioms():
    """Geometry of segments: the relation is symmetric, and segments on two
    sides of an axis-parallel line do not cross or overlap unless both lie on
    it."""
    v = [z3.Real(n) for n in ('sx', 'sy', 'tx', 'ty', 'ux', 'uy', 'vx', 'vy')]
    r = _NX(*v)
    sx, sy, tx, ty, ux, uy, vx, vy = v

    def aside(a, b, c, d):
        return z3.And(a <= c, a <= d, b <= c, b <= d, z3.Or(a != b, c != d, a != c))
    return z3.And(
        z3.ForAll(v, r == _NX(*v[4:], *v[:4]), patterns=[r]),
        z3.ForAll(v, z3.Implies(z3.Or(
            aside(sx, tx, ux, vx), aside(sy, ty, uy, vy)), r), patterns=[r]))


def NX(s, t):
    """Segments neither cross nor overlap."""
    return NXP((s.start, s.end), (t.start, t.end))



# -- general position ----------------------------------------------------------
def constants(*terms):
    """Integer constants of the terms, in a fixed order."""
    found, seen = [], set()
    work = list(terms)
    while work:
        t = work.pop(0)
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.sort() == INT and (
                t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            found.append(t)
        work.extend([t.body()] if z3.is_quantifier(t) else t.children())
    return found


def mentions_function(f, d):
    seen, work = set(), [f]
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(d):
            return True
        work.extend([t.body()] if z3.is_quantifier(t) else t.children())
    return False


def sparse_result(a):
    """Indices and residues of squares' multiples are sparse (Lean lemma).

    (i, s * i * i % p) for i < p, p an odd prime and s no multiple of p: no
    three of the i agree in any of the index, the residue, their sum and their
    difference.
    """
    e = engine()
    lv, rv = flat(a.left_indices), flat(a.right_indices)
    if lv is None or rv is None:
        raise Unsupported('index sequences of fixed length')
    p = lv.size
    i = fresh_index('q')
    inside = z3.And(i >= 0, i < p)
    if not e.entailed(z3.And(rv.size == p, p > 2, p % 2 == 1, IsP(p))):
        raise Unsupported('not a prime number of indices')
    left, right = ie(lv.at(i)), ie(rv.at(i))
    if not e.entailed(z3.Implies(inside, left == i)):
        raise Unsupported('other indices')
    facts = [f for f in e.pc if z3.is_app(right) and mentions_function(
        f, right.decl())]
    for s in constants(right, *facts):
        if s.eq(i) or s.eq(p) or not e.entailed(z3.Implies(
                inside, right == Remainder(s * (i * i), p))):
            continue
        near = [f for f in e.pc if any(s.eq(c) for c in constants(f))]
        for k in [z3.IntVal(0), *constants(*near)]:
            # strictly between two neighbouring multiples
            if not k.eq(s) and e.entailed(z3.And(
                    k * p < s, s < (k + 1) * p)):
                return True
        if e.entailed(Remainder(s, p) != 0):
            return True
        raise Unsupported('the scale may be a multiple of the prime')
    raise Unsupported('not residues of multiples of squares')


contract(
    'base.to_point_sequence_in_general_position_strategy'
    '.are_index_sequence_pair_sparse',
    ['left_indices', 'right_indices'], result=sparse_result,
    trusted='no three indices agree in row, column or diagonal: the number '
            'theory is proved in lemmas/Primes.lean, that the function '
            'counts them is seen in every bounded draw; the call is verified '
            'to pass residues of a prime and a scale that is no multiple')


def capped(a, n):
    """Both axes offer at least n values."""
    x, y = axes(a)
    return z3.And(cap_at_least(x, n), cap_at_least(y, n))


def next_prime(v):
    """The value of utils.to_next_prime at a term, with its contract."""
    e = engine()
    v = z3.simplify(v, som=True)
    r = NextP(v)
    e.assume(z3.Implies(v > 2, z3.And(
        r >= v, r <= 2 * v - 1, r % 2 == 1, IsP(r))))
    return r


def general_ensures(a, r):
    n = ie(size(r))
    low = next_prime(ie(a.min_size))
    return [
        ('at least as many points as asked for', {'C06', 'C02', 'C03'},
         n >= low),
        ('the number of points is bounded', {'C02', 'C03'},
         z3.Or(at_most(n, a.max_size), n <= low)),
        ('points are distinct', {'C09', 'C12', 'C13'}, distinct(r)),
        ('coordinates come from their axes', {'C05'},
         all_points(r, lambda p: exact(a, p))),
        ('coordinates lie in their ranges', {'C05'},
         all_points(r, lambda p: ranged(a, p))),
        ctx_ok(a, r)]


contract(
    'base.to_point_sequence_in_general_position_strategy', XY + SIZES,
    args=base_args(SIZES), draws=True,
    requires=lambda a: [
        ('min_size > 2', ie(a.min_size) > 2),
        ('enough distinct coordinates', capped(
            a, next_prime(ie(a.min_size))))],
    result=lambda a: fresh_points(a.context), ensures=general_ensures)


# -- hulls and contours ----------------------------------------------------------
def corners(vs):
    """(previous, current, next) vertices, cyclically."""
    v = view(vs)
    c = v.expanded()
    if c is not None:
        xs = c.values
        n = len(xs)
        return SeqView.of([(xs[i - 1], xs[i], xs[(i + 1) % n])
                           for i in range(n)])
    b = flat(v)
    j = fresh_index('k')
    prev, nxt = before(b.size, j), after(b.size, j)
    return SeqView([Block(b.size, j, (b.at(prev), b.at(j), b.at(nxt)))])


def turns_left(vs):
    """Every corner turns left."""
    ground = view(vs).expanded() is not None
    return each(corners(vs), lambda c, _: det(*c, define=ground) > 0)


def turns_mixed(vs):
    """Not every corner turns the way the first one does."""
    cs = flat(corners(vs))
    first = det(*cs.at(z3.IntVal(0)))
    i = fresh_index('q')
    c = det(*cs.at(i))
    same = z3.And((c > 0) == (first > 0), (c < 0) == (first < 0))
    body = z3.Implies(z3.And(i >= 0, i < cs.size), same)
    return z3.Not(forall([i], body, matched_by([i], body), CHAIN))


def valid(vs):
    """The vertices bound a simple, strict, counterclockwise contour.

    Convex triangles and quadrilaterals do; otherwise the sequence has to be
    one produced by a function whose contract promises it.
    """
    v = view(vs)
    if len(v.parts) == 1 and isinstance(v.parts[0], Block) and (
            'valid' in v.parts[0].tags):
        return T
    if len(v.parts) == 1 and isinstance(v.parts[0], Block) and (
            'clockwise' in v.parts[0].tags):
        return F
    c = v.expanded()
    if c is not None and 3 <= len(c.parts) <= 4:
        return turns_left(c)
    raise Unsupported('contour of unknown origin')


def among(p, points):
    """The point is one of the given points."""
    return z3.Not(each(view(points), lambda q, _: z3.Not(equal(p, q))))


def vertices_of(ctx, points, name='vertices', make=None):
    """Arbitrary vertices among the points, at least one."""
    e = engine()
    n = ie(size(points))
    h = fresh_int(name, 0)
    e.assume(h.e <= n)
    e.assume(z3.Implies(n > 0, h.e > 0))
    b = flat(points)
    if b is None:
        return SList(SeqView([]))
    pick = z3.Function(e.name('pick'), INT, INT)
    inv = z3.Function(e.name('pick_inv'), INT, INT)
    k = fresh_block(h.e, lambda: fresh_point(ctx))
    i = fresh_index('q')
    # distinct positions
    e.assume(forall([i], z3.Implies(z3.And(i >= 0, i < h.e), z3.And(
        pick(i) >= 0, pick(i) < n, inv(pick(i)) == i,
        equal(k.at(i), b.at(pick(i)))))))
    k.tags['valid'] = True
    return SList(SeqView([k]))


def convex_hull(ctx, points):
    """ground's points_convex_hull: distinct points' strict hull."""
    e = engine()
    v = view(points)
    key = ('hull', tuple(id(p) for p in v.parts))
    if key not in e.path_cache:
        r = vertices_of(ctx, points, 'hull')
        e.assume(z3.Implies(ie(size(r)) >= 3, turns_left(r)))
        e.path_cache[key] = r, v
    return e.path_cache[key][0]


def max_hull(a):
    e = engine()
    v = view(a.points)
    key = ('max_hull', tuple(id(p) for p in v.parts))
    if key not in e.path_cache:
        if not v.parts:
            raise Unsupported('hull of nothing')
        ctx = (v.parts[0].value if isinstance(v.parts[0], Elem)
               else v.parts[0].template).ctx
        r = vertices_of(ctx, a.points, 'max_hull')
        del r.view.parts[0].tags['valid']
        e.assume(ie(size(r)) >= ie(size(convex_hull(ctx, a.points))))
        e.path_cache[key] = r, v
    return e.path_cache[key][0]


def points_args(least, *more):
    """`least` or more distinct points, then other arguments."""
    def args():
        ctx = SContext()
        n = fresh_int('n', least)
        pts = fresh_points(ctx, n.e)
        engine().assume(distinct(pts))
        return (pts,) + tuple(m() for m in more), dict(context=ctx)
    return args


def extremes(points, f):
    """f(coordinate getter) bounds: min and max over the points."""
    return each(points, f)


def in_box_of(p, points):
    """Coordinates between those of some of the points."""
    def axis(c):
        x = num(getattr(p, c)).e
        return z3.And(
            z3.Not(each(points, lambda q, _: z3.Not(
                num(getattr(q, c)).e <= x))),
            z3.Not(each(points, lambda q, _: z3.Not(
                x <= num(getattr(q, c)).e))))
    return z3.And(axis('x'), axis('y'))


def convex_factory_result(a):
    ctx = a.context
    n = fresh_int('hull', 0)
    k = fresh_block(n.e, lambda: fresh_point(ctx))
    k.tags['valid'] = True
    return SList(SeqView([k]))


def convex_factory_ensures(a, r):
    return [
        ('vertices lie between the coordinates of the points', {'C05'},
         all_points(r, lambda p: in_box_of(p, view(a.points)))),
        ('every corner turns left', {'C08', 'C09'},
         z3.Implies(ie(size(r)) >= 3, turns_left(r))),
        ('simple, strict, counterclockwise', {'C09'},
         z3.Implies(ie(size(r)) >= 3, valid(r))),
        ctx_ok(a, r)]


contract('factories.to_convex_vertex_sequence',
         ['points', 'random', 'context'],
         args=points_args(3, lambda: SRandom()),
         requires=lambda a: [('three points', ie(size(a.points)) >= 3)],
         result=convex_factory_result, ensures=convex_factory_ensures)


def vectors_loop(L):
    def make(old):
        n = fresh_int('done', 0)
        return SeqView([fresh_block(n.e, lambda: fresh_real('v'))])
    L.mutate('result', make)
    L.havoc('last_min', lambda old: fresh_real('last_min'))
    L.havoc('last_max', lambda old: fresh_real('last_max'))
    L.inv('one vector per coordinate', lambda env, k: ie(
        size(env['result'])) == k, {'C06'})


LOOPS['factories.to_convex_vertex_sequence.to_vectors_coordinates', 0] = (
    LoopSpec(vectors_loop))


def chain_loop(L):
    def make(old):
        n = fresh_int('done', 0)
        return SeqView([fresh_block(n.e, lambda: (fresh_real('cx'),
                                                  fresh_real('cy')))])
    L.mutate('coordinates_pairs', make)
    for name in ('point_x', 'point_y', 'min_polygon_x', 'min_polygon_y'):
        L.havoc(name, lambda old: fresh_real('c'))
    L.inv('one point per vector', lambda env, k: ie(
        size(env['coordinates_pairs'])) == k, {'C06'})


LOOPS['factories.to_convex_vertex_sequence', 0] = LoopSpec(chain_loop)


def picked_ensures(a, r):
    return [
        ('vertices are among the points', {'C05'},
         all_points(r, lambda p: among(p, a.points))),
        ('simple, strict, counterclockwise', {'C09'},
         z3.Implies(ie(size(r)) >= 3, valid(r))),
        ctx_ok(a, r)]


contract('factories.to_vertex_sequence', ['points', 'size', 'context'],
         requires=lambda a: [
             ('at least one point', ie(size(a.points)) >= 1),
             ('distinct points', distinct(a.points))],
         result=lambda a: vertices_of(a.context, a.points, 'chi'),
         trusted='digging and ear removal in a Delaunay triangulation: '
                 'drawn contours go through the exact oracle (bounded)')


# -- contour strategies -----------------------------------------------------------
def contour_requires(a, small=False):
    """Argument conditions of contour strategies."""
    many = capped(a, next_prime(ie(a.min_size)))
    two = capped(a, 2)
    if small:
        many = z3.Or(z3.Not(at_least(a.max_size, 4)), many)
    return [('3 <= min <= max', bounds(a.min_size, a.max_size, 3)),
            ('enough distinct coordinates', z3.And(two, many))]


def contour_ensures(*extra, exactly=False, kinds=()):
    def ensures(a, r):
        return [
            ('size bounds', {'C02', 'C03'}, within(size(r), a.min_size,
                                                   a.max_size)),
            ('simple, strict, counterclockwise', {'C09'} | set(kinds),
             valid(r)),
            ('coordinates lie in their ranges', {'C05'},
             all_points(r, lambda p: ranged(a, p))),
        ] + ([('coordinates come from their axes', {'C05'},
               all_points(r, lambda p: exact(a, p)))] if exactly else []) + [
            (n, p, f(r)) for n, p, f in extra] + [ctx_ok(a, r)]
    return ensures


def fresh_contour_vertices(a):
    n = fresh_int('nvert', 3)
    k = fresh_block(n.e, lambda: fresh_point(a.context))
    k.tags['valid'] = True
    r = SList(SeqView([k]))
    # what "simple and strict" means
    engine().assume(distinct(r))
    engine().assume(edges_apart(r))
    return r


def contour_contract(name, small=False, **kw):
    contract(name, XY + SIZES, args=base_args(SIZES), draws=True,
             requires=lambda a: contour_requires(a, small),
             result=fresh_contour_vertices, **kw)


def edges_apart(r):
    """Edges pairwise neither cross nor overlap."""
    b = flat(edges(r))
    i, j = fresh_index('q'), fresh_index('q')
    body = z3.Implies(z3.And(i >= 0, i < j, j < b.size),
                      NXP(b.at(i), b.at(j)))
    return z3.And(forall([i, j], body),
                  forall([i, j], body, matched_by([i, j], body), CHAIN))


contour_contract(
    'base.to_convex_vertex_sequence_strategy', small=True,
    ensures=contour_ensures(
        ('every corner turns left', {'C08', 'C09'}, turns_left)))
contour_contract(
    'base.to_star_vertex_sequence_strategy',
    ensures=contour_ensures(exactly=True, kinds=('C10',)))
contour_contract(
    'base._to_vertex_sequences',
    ensures=contour_ensures(exactly=True))
contour_contract(
    'base.to_vertex_sequence_strategy', ensures=contour_ensures())
contour_contract(
    'base.to_concave_vertex_sequence_strategy',
    ensures=contour_ensures(
        ('some corner turns the other way', {'C08'}, turns_mixed),
        exactly=True))
