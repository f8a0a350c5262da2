"""Contract of mixes."""
from .spec_multipolygons import *

PC = ['min_point_count', 'max_point_count']
SC = ['min_segment_count', 'max_segment_count']
GC = ['min_polygon_count', 'max_polygon_count']
PB = ['min_polygon_border_size', 'max_polygon_border_size']
PH = ['min_polygon_hole_count', 'max_polygon_hole_count']
PS = ['min_polygon_hole_size', 'max_polygon_hole_size']


def mix_requires(a):
    least = {'point': 0, 'segment': 0, 'polygon': 0}
    return [
        ('0 <= min_point_count <= max_point_count',
         bounds(a.min_point_count, a.max_point_count, 0)),
        ('0 <= min_segment_count <= max_segment_count',
         bounds(a.min_segment_count, a.max_segment_count, 0)),
        ('0 <= min_polygon_count <= max_polygon_count',
         bounds(a.min_polygon_count, a.max_polygon_count, 0)),
        ('3 <= min_polygon_border_size <= max_polygon_border_size',
         bounds(a.min_polygon_border_size, a.max_polygon_border_size, 3)),
        ('0 <= min_polygon_hole_count <= max_polygon_hole_count',
         bounds(a.min_polygon_hole_count, a.max_polygon_hole_count, 0)),
        ('3 <= min_polygon_hole_size <= max_polygon_hole_size',
         bounds(a.min_polygon_hole_size, a.max_polygon_hole_size, 3))]


# -- separation along an axis --------------------------------------------------
def ends(s, axis):
    return axis_of(s.start, axis), axis_of(s.end, axis)


def strictly_aside(x, ys):
    return z3.Or(z3.And(*[x < y for y in ys]), z3.And(*[x > y for y in ys]))


def point_segment(p, s, axis):
    """The point lies strictly on one side of the segment."""
    return strictly_aside(axis_of(p, axis), ends(s, axis))


def point_polygon(p, g, axis):
    """The point lies strictly on one side of the border."""
    x = axis_of(p, axis)
    v = g.border.vertices
    return z3.Or(all_points(v, lambda q: x < axis_of(q, axis)),
                 all_points(v, lambda q: x > axis_of(q, axis)))


def segment_polygon(s, g, axis):
    """One lies at or before the other; the earlier one does not run along
    the line where they may meet."""
    a, b = ends(s, axis)
    v = g.border.vertices
    return z3.Or(
        all_points(v, lambda q: z3.And(
            a <= axis_of(q, axis), b <= axis_of(q, axis),
            z3.Not(z3.And(a == axis_of(q, axis), b == axis_of(q, axis))))),
        z3.And(
            all_points(v, lambda q: z3.And(axis_of(q, axis) <= a,
                                           axis_of(q, axis) <= b)),
            each(border_edges(g), lambda e, _: z3.And(*[z3.Not(z3.And(
                axis_of(e[0], axis) == c, axis_of(e[1], axis) == c))
                for c in (a, b)]))))


def crossed(us, vs, f):
    return each(us, lambda u, _: each(vs, lambda v, _: f(u, v)))


SEPARATION = [
    ('points lie aside of segments', lambda p, s, g, axis: crossed(
        p, s, lambda u, v: point_segment(u, v, axis))),
    ('points lie aside of polygons', lambda p, s, g, axis: crossed(
        p, g, lambda u, v: point_polygon(u, v, axis))),
    ('segments lie aside of polygons', lambda p, s, g, axis: crossed(
        s, g, lambda u, v: segment_polygon(u, v, axis))),
    ('polygons follow one another', lambda p, s, g, axis: each_pair(
        g, lambda u, v: axis_apart(u, v, axis)))]


# -- loops -----------------------------------------------------------------------
def partition_loop(L):
    value0 = ie(L.entry['value'])

    def make(old):
        n = fresh_int('parts', 0).e
        t = fresh_int('total').e
        return SeqView([fresh_block(n, lambda: fresh_int('part', 1),
                                    {'total': t})])
    L.mutate('result', make)
    L.havoc('value', lambda old: fresh_int('value', 0))
    L.inv('parts and the rest add up', lambda env, k: total(
        view(env['result'])) + ie(env['value']) == value0, {'C04', 'C06'})
    L.inv('parts are positive', lambda env, k: z3.And(
        ie(env['value']) >= 0,
        each(view(env['result']), lambda p, _: ie(p) >= 1)), {'C04', 'C06'})
    L.variant(lambda env, k: ie(env['value']))


LOOPS['base.to_mix_strategy.partition', 0] = LoopSpec(partition_loop)


def fresh_parts(least):
    """Positive numbers, at least `least`, with their sum."""
    n = fresh_int('parts', 0).e
    t = fresh_int('total', 0).e
    return SList(SeqView([fresh_block(n, lambda: fresh_int('part', least),
                                      {'total': t})]))


def polygon_least(c):
    """Coordinates for the smallest polygon."""
    return next_prime(ie(c.min_polygon_border_size)
                      + ie(c.min_polygon_hole_count)
                      * ie(c.min_polygon_hole_size))


def counts_ensures(a, r):
    c = Args(a.closure)
    if not isinstance(r, tuple) or len(r) != 3:
        raise TypeError('not three lists')
    p, s, g = r
    least = polygon_least(c)
    spare = ie(a.max_total_point_count)
    props = {'C04', 'C06', 'C15'}
    return [
        ('no more than there are', props,
         total(p) + total(s) + total(g) <= spare),
        ('number of points', {'C04'}, within(
            SNum(total(p)), c.min_point_count, c.max_point_count)),
        ('number of endpoints', {'C04'}, z3.And(
            total(s) >= 2 * ie(c.min_segment_count),
            z3.Or(none_of(c.max_segment_count),
                  total(s) <= 2 * value_of(c.max_segment_count))
            if c.max_segment_count is not None else T)),
        ('number of polygons', {'C04'}, within(
            size(g), c.min_polygon_count, c.max_polygon_count)),
        ('parts are positive', {'C04', 'C06'}, z3.And(*[
            each(v, lambda x, _: ie(x) >= 1) for v in r])),
        ('parts of segments are even', {'C04', 'C06'}, each(
            s, lambda x, _: ie(x) % 2 == 0)),
        ('parts suffice for polygons', {'C06'}, each(
            g, lambda x, _: ie(x) >= least))]


contract('base.to_mix_strategy.to_point_counts',
         ['draw', 'max_total_point_count'], local=True,
         requires=lambda a: [('enough coordinates', ie(
             a.max_total_point_count) >= ie(a.closure['min_point_count'])
             + 2 * ie(a.closure['min_segment_count'])
             + z3.simplify(ie(a.closure['min_polygon_count'])
                           * polygon_least(Args(a.closure)), som=True))],
         result=lambda a: tuple(fresh_parts(1) for _ in range(3)),
         ensures=counts_ensures)


def mix_sizes(env):
    """Arguments in the words of polygon_sizes."""
    e = env
    return Args(dict(
        min_size=e['min_polygon_border_size'],
        max_size=e['max_polygon_border_size'],
        min_hole_count=e['min_polygon_hole_count'],
        max_hole_count=e['max_polygon_hole_count'],
        min_hole_size=e['min_polygon_hole_size'],
        max_hole_size=e['max_polygon_hole_size']))


def same_length(v, block):
    return engine().entailed(ie(v.length()) == block.size)


def mix_loop(axis, other):
    def spec(L):
        e = L.entry
        name = axis + 's'
        ctx = e['context']
        drawers = view(e['drawers_with_point_counts'])
        if not drawers.parts:
            raise Unsupported('no parts of a mix')
        block = drawers.parts[0]
        if not isinstance(block, Block) or 'by_tag' not in block.tags:
            raise Unsupported('parts of a mix')
        if L.view.parts and not same_length(L.view, block):
            raise Unsupported('loop over something else than the parts')
        sums = {}
        for i, (o, f, c, tot, cnt) in enumerate(block.tags['by_tag']):
            for n in ('draw_points', 'draw_segments', 'draw_polygon'):
                if o is e[n]:
                    sums[n] = (i, f, c)
        zero = z3.IntVal(0)

        def used(n, k):
            return sums[n][1](k) if n in sums else zero

        def drawn(n, k):
            return sums[n][2](k) if n in sums else zero

        def next_is_points(k):
            if 'draw_points' not in sums:
                return F
            return z3.And(k < block.size, block.at(k)[0].tag.e
                          == sums['draw_points'][0])

        n0 = ie(size(e[name]))
        sizes = mix_sizes(e)
        values = view(e[name])
        across = e[other + '_coordinate_strategy']

        def lists(env):
            return [view(env[n]) for n in ('points', 'segments', 'polygons')]

        def left(env, f):
            return each(view(env[name]), lambda q, _: f(num(q).e))

        # instances of the facts about the sums
        L.fact(lambda env, k: z3.And(*[f(k) for f in block.tags['steps']]))
        L.havoc(name, lambda old: SList(SeqView([fresh_block(
            fresh_int('left', 0).e, lambda: fresh_real('coordinate'))])))
        L.mutate('points', lambda old: fresh_points(ctx))
        L.mutate('segments', lambda old: fresh_segments(ctx))
        L.mutate('polygons', lambda old: fresh_polygons(ctx))
        L.inv('enough coordinates are left', lambda env, k: ie(size(
            env[name])) >= n0 - used('draw_points', k)
            - used('draw_segments', k) - used('draw_polygon', k),
            {'C06', 'C15'})
        L.inv('coordinates left are ascending', lambda env, k: each_pair(
            view(env[name]), lambda p, q: num(p).e < num(q).e), {'C15'})
        L.inv('coordinates left are drawn ones', lambda env, k: each(
            view(env[name]), lambda q, _: drawn_value(values, q)), {'C05'})
        L.inv('number of points', lambda env, k: ie(size(
            env['points'])) == used('draw_points', k), {'C04'})
        L.inv('number of segments', lambda env, k: 2 * ie(size(
            env['segments'])) == used('draw_segments', k), {'C04'})
        L.inv('number of polygons', lambda env, k: ie(size(
            env['polygons'])) == drawn('draw_polygon', k), {'C04'})
        L.inv('border and hole size bounds', lambda env, k: each(
            view(env['polygons']), lambda p, _: polygon_sizes(sizes, p)),
            {'C04'})
        L.inv('borders are simple, strict, counterclockwise',
              lambda env, k: each(view(env['polygons']), lambda p, _: valid(
                  p.border.vertices)), {'C15', 'C09'})
        L.inv('points are distinct', lambda env, k: distinct(env['points']),
              {'C15'})
        L.inv('endpoints differ', lambda env, k: each(
            view(env['segments']), lambda s, _: z3.Not(equal(
                s.start, s.end))), {'C15'})
        L.inv('segments neither cross nor overlap', lambda env, k: each_pair(
            view(env['segments']), NX), {'C15'})
        L.inv('points precede the coordinates left', lambda env, k: each(
            view(env['points']), lambda p, _: left(
                env, lambda q: axis_of(p, axis) < q)), {'C15'})
        L.inv('segments precede the coordinates left', lambda env, k: each(
            view(env['segments']), lambda s, _: left(env, lambda q: z3.And(
                *[c <= q for c in ends(s, axis)],
                z3.Not(z3.And(*[c == q for c in ends(s, axis)]))))),
            {'C15'})
        L.inv('polygons precede the coordinates left', lambda env, k: each(
            view(env['polygons']), lambda g, _: left(
                env, lambda q: side(g, q, axis))), {'C15'})
        L.inv('nothing touches the points to come', lambda env, k: z3.Implies(
            next_is_points(k), z3.And(
                each(view(env['segments']), lambda s, _: left(
                    env, lambda q: z3.And(*[
                        c < q for c in ends(s, axis)]))),
                each(view(env['polygons']), lambda g, _: all_points(
                    g.border.vertices, lambda p: left(
                        env, lambda q: axis_of(p, axis) < q))))), {'C15'})
        for n, f in SEPARATION:
            L.inv(n, lambda env, k, f=f: f(*lists(env), axis), {'C15'})
        L.inv('coordinates come from their axes', lambda env, k: z3.And(
            all_points(env['points'], lambda q: z3.And(
                drawn_value(values, getattr(q, axis)),
                across.member(getattr(q, other)))),
            each(view(env['polygons']), lambda p, _: polygon_points(
                p, lambda q: z3.And(
                    drawn_value(values, getattr(q, axis)),
                    across.member(getattr(q, other)))))), {'C05'})
        L.inv('segments lie in the ranges of the axes', lambda env, k:
              segment_points(env['segments'], lambda q: z3.And(
                  ranged_axis(values, getattr(q, axis)),
                  across.within(getattr(q, other)))), {'C05'})
        def hints(env):
            """Everything drawn in this step lies between the first and the
            last of the coordinates given to it."""
            k = L.loop.k
            before = flat(L.loop.env[name])
            lo = num(before.at(z3.IntVal(0))).e
            hi = num(before.at(ie(block.at(k)[1]) - 1)).e
            for n, f in (('points', lambda p, g: g(p)),
                         ('segments', lambda s, g: z3.And(g(s.start),
                                                          g(s.end))),
                         ('polygons', lambda p, g: all_points(
                             p.border.vertices, g))):
                new = SeqView(view(env[n]).parts[1:])
                if new.parts:
                    engine().prove(
                        f'new {n} lie among the coordinates given',
                        each(new, lambda v, _: f(v, lambda p: z3.And(
                            lo <= axis_of(p, axis),
                            axis_of(p, axis) <= hi))), 'lemma', {'C15'})
                engine().prove(
                    f'all {n} lie before the last coordinate given',
                    each(view(env[n]), lambda v, _: f(
                        v, lambda p: axis_of(p, axis) <= hi)),
                    'lemma', {'C15'})
        L.on_end(hints)
    return LoopSpec(spec)


def ranged_axis(values, x):
    """The scalar lies between two of the values."""
    return z3.And(
        z3.Not(each(values, lambda v, _: z3.Not(num(v).e <= num(x).e))),
        z3.Not(each(values, lambda v, _: z3.Not(num(x).e <= num(v).e))))


for _x, _y in (('x', 'y'), ('y', 'x')):
    LOOPS[f'base.to_mix_strategy.{_x}s_to_mix', 0] = mix_loop(_x, _y)


# -- the strategy ----------------------------------------------------------------
def components(r):
    """Points, segments and polygons of a mix, or None for another shape."""
    isa(r, SMix)
    d, l, s = r.discrete, r.linear, r.shaped
    if isinstance(d, SEmpty):
        points = SeqView([])
    else:
        isa(d, SMultipoint)
        points = view(d.points)
    if isinstance(l, SEmpty):
        segments = SeqView([])
    elif isinstance(l, SSegment):
        segments = SeqView.of([l])
    else:
        isa(l, SMultisegment)
        segments = view(l.segments)
    if isinstance(s, SEmpty):
        polygons = SeqView([])
    elif isinstance(s, SPolygon):
        polygons = SeqView.of([s])
    else:
        isa(s, SMultipolygon)
        polygons = view(s.polygons)
    return points, segments, polygons


def mix_shape(r):
    """Only non-empty multi-geometries, with two elements or more for
    segments and polygons."""
    f = []
    if isinstance(r.discrete, SMultipoint):
        f.append(ie(size(r.discrete.points)) >= 1)
    if isinstance(r.linear, SMultisegment):
        f.append(ie(size(r.linear.segments)) >= 2)
    if isinstance(r.shaped, SMultipolygon):
        f.append(ie(size(r.shaped.polygons)) >= 2)
    return z3.And(*f) if f else T


def mix_counts(a, r):
    points, segments, polygons = components(r)
    return [
        ('numbers of points, segments, polygons', {'C04'}, z3.And(
            within(size(points), a.min_point_count, a.max_point_count),
            within(size(segments), a.min_segment_count,
                   a.max_segment_count),
            within(size(polygons), a.min_polygon_count,
                   a.max_polygon_count))),
        ('shapes of the components', {'C04'}, mix_shape(r))]


# What does not depend on the numbers of components.
MIX_REST = [
    ('border and hole size bounds', {'C04'}, lambda a, r, p, s, g: each(
        g, lambda p, _: polygon_sizes(mix_sizes(a.__dict__), p))),
    ('borders are simple, strict, counterclockwise', {'C15', 'C09'},
     lambda a, r, p, s, g: each(g, lambda p, _: valid(p.border.vertices))),
    ('points are distinct', {'C15'}, lambda a, r, p, s, g: distinct(p)),
    ('endpoints differ', {'C15'}, lambda a, r, p, s, g: each(
        s, lambda s, _: z3.Not(equal(s.start, s.end)))),
    ('segments neither cross nor overlap', {'C15'},
     lambda a, r, p, s, g: each_pair(s, NX)),
    ('parts lie aside of one another along an axis', {'C15'},
     lambda a, r, p, s, g: z3.Or(*[
         z3.And(*[f(p, s, g, axis) for _, f in SEPARATION])
         for axis in 'xy'])),
    ('coordinates come from their axes', {'C05'},
     lambda a, r, p, s, g: z3.And(
         all_points(p, lambda p: exact(a, p)),
         each(g, lambda p, _: polygon_points(p, lambda q: exact(a, q))))),
    ('segments lie in the ranges of the axes', {'C05'},
     lambda a, r, p, s, g: segment_points(s, lambda p: ranged(a, p))),
    ('built by the given context', {'C16'},
     lambda a, r, p, s, g: z3.BoolVal(same_context(r, a.context)))]
COUNTS = frozenset(PC + SC + GC)


def mix_ensures(a, r):
    parts = components(r)
    # the rest cannot look at the counts
    rest = Args({k: v for k, v in a.__dict__.items() if k not in COUNTS})
    return mix_counts(a, r) + [(n, props, f(rest, r, *parts))
                               for n, props, f in MIX_REST]


def fresh_mix(a):
    ctx = a.context
    e = engine()
    d = (SEmpty(ctx) if e.choose(2, 'discrete')
         else SMultipoint(ctx, fresh_points(ctx)))
    l = (lambda: SEmpty(ctx), lambda: fresh_segment(ctx),
         lambda: SMultisegment(ctx, fresh_segments(ctx)))[
             e.choose(3, 'linear')]()
    s = (lambda: SEmpty(ctx), lambda: fresh_polygon(ctx),
         lambda: SMultipolygon(ctx, fresh_polygons(ctx)))[
             e.choose(3, 'shaped')]()
    return SMix(ctx, d, l, s)


contract('base.to_mix_strategy', XY + PC + SC + GC + PB + PH + PS,
         args=base_args(PC, SC, GC, PB, PH, PS, capped=False), draws=True,
         requires=mix_requires, result=fresh_mix, ensures=mix_ensures,
         light=mix_counts)
