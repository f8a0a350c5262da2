"""Contract of multipolygons."""
from .spec_polygons import *

BSIZES = ['min_border_size', 'max_border_size']


def axis_of(p, axis):
    return num(getattr(p, axis)).e


def border_edges(poly):
    return edges(poly.border.vertices)


def side(poly, v, axis):
    """The border lies at or before v on the axis, no edge lies along v."""
    return z3.And(
        all_points(poly.border.vertices, lambda p: axis_of(p, axis) <= v),
        each(border_edges(poly), lambda e, _: z3.Not(z3.And(
            axis_of(e[0], axis) == v, axis_of(e[1], axis) == v))))


def axis_apart(c, d, axis):
    """Border c lies at or before border d on the axis, and no edge of c lies
    along a vertex of d."""
    return z3.And(
        all_points(c.border.vertices, lambda p: all_points(
            d.border.vertices, lambda q: axis_of(p, axis)
            <= axis_of(q, axis))),
        each(border_edges(c), lambda e, _: all_points(
            d.border.vertices, lambda q: z3.Not(z3.And(
                axis_of(e[0], axis) == axis_of(q, axis),
                axis_of(e[1], axis) == axis_of(q, axis))))))


def fresh_polygons(ctx):
    n = engine().fresh('npoly', INT)
    engine().assume(n >= 0)
    return SeqView([fresh_block(n, lambda: fresh_polygon(ctx))])


def drawn_value(values, x):
    """The scalar is one of the values."""
    return z3.Not(each(view(values), lambda v, _: num(v).e != num(x).e))


def grow(a, p, q):
    """a >= 0 and p <= q imply a p <= a q."""
    engine().lemma(z3.Implies(z3.And(a >= 0, p <= q), a * p <= a * q),
                   'monotone product')


def polygons_loop(axis, other):
    def spec(L):
        e = L.entry
        values = view(e[axis + 's'])
        b = flat(values)
        count = ie(e['coordinate_count'])
        n, least = ie(e['size']), ie(e['min_polygon_point_count'])
        ctx = e['context']
        sizes = Args(e)
        across = e[other + '_coordinate_strategy']

        L.havoc('start', lambda old: fresh_int('start'))
        L.mutate('result', lambda old: fresh_polygons(ctx))
        L.inv('enough coordinates are left', lambda env, k: z3.And(
            ie(env['start']) >= 0, count - ie(env['start'])
            >= z3.simplify((n - k) * least, som=True)), {'C06', 'C14'})
        L.inv('one polygon per step', lambda env, k: ie(
            size(env['result'])) == k, {'C03'})
        L.inv('border and hole size bounds', lambda env, k: each(
            view(env['result']), lambda p, _: polygon_sizes(
                sizes, p, BSIZES)), {'C03'})
        L.inv('borders are simple, strict, counterclockwise',
              lambda env, k: each(view(env['result']), lambda p, _: valid(
                  p.border.vertices)), {'C14', 'C09'})
        L.inv('coordinates come from their axes', lambda env, k: each(
            view(env['result']), lambda p, _: polygon_points(
                p, lambda q: z3.And(
                    drawn_value(values, getattr(q, axis)),
                    across.member(getattr(q, other))))), {'C05'})
        L.inv('polygons precede the coordinates left', lambda env, k: each(
            view(env['result']), lambda p, _: side(
                p, num(b.at(ie(env['start']))).e, axis)), {'C14'})
        L.inv('polygons follow one another', lambda env, k: each_pair(
            view(env['result']), lambda c, d: axis_apart(c, d, axis)),
            {'C14'})

        def lemmas(env):
            m = z3.simplify(n - L.loop.k - 1, som=True)
            for _, _, q, _ in list(divisions().values()):
                grow(m, least, q)
                engine().assume(z3.BoolVal(True))
        L.on_end(lemmas)
    return LoopSpec(spec)


for _x, _y in (('x', 'y'), ('y', 'x')):
    LOOPS[f'base.to_multipolygon_strategy.{_x}s_to_polygons', 0] = (
        polygons_loop(_x, _y))


def multipolygon_ensures(a, r):
    isa(r, SMultipolygon)
    v = r.polygons

    def apart(c, d):
        options = [axis_apart(c, d, 'x'), axis_apart(c, d, 'y')]
        if c.border.axis is not None:
            options.append(lex_apart(c.border, d.border))
        return options
    return [
        ('size bounds', {'C03'}, within(size(v), a.min_size, a.max_size)),
        ('border and hole size bounds', {'C03'}, each(
            v, lambda p, _: polygon_sizes(a, p, BSIZES))),
        ('borders are simple, strict, counterclockwise', {'C14', 'C09'},
         each(v, lambda p, _: valid(p.border.vertices))),
        ('polygons follow one another along an axis', {'C14'},
         one_of_orders(v, apart)),
        ('coordinates come from their axes', {'C05'}, each(
            v, lambda p, _: polygon_points(p, lambda q: exact(a, q)))),
        ctx_ok(a, r)]


def one_of_orders(v, options):
    """The same one of the orders for all pairs (the way they are made)."""
    some = [p.value if isinstance(p, Elem) else p.at(z3.IntVal(0))
            for p in v.parts[:1]]
    n = len(options(some[0], some[0])) if some else 0
    return z3.Or(*[each_pair(v, lambda c, d, i=i: options(c, d)[i])
                   for i in range(n)]) if n else T


def multipolygon_requires(a):
    return [('1 <= min_size <= max_size', bounds(a.min_size, a.max_size, 1)),
            ('3 <= min_border_size <= max_border_size',
             bounds(a.min_border_size, a.max_border_size, 3)),
            ('0 <= min_hole_count <= max_hole_count',
             bounds(a.min_hole_count, a.max_hole_count, 0)),
            ('3 <= min_hole_size <= max_hole_size',
             bounds(a.min_hole_size, a.max_hole_size, 3))]


contract('base.to_multipolygon_strategy',
         XY + SIZES + BSIZES + HCOUNT + HSIZES,
         args=base_args(SIZES, BSIZES, HCOUNT, HSIZES, capped=False),
         draws=True, requires=multipolygon_requires,
         result=lambda a: SMultipolygon(a.context,
                                        fresh_polygons(a.context)),
         ensures=multipolygon_ensures)
