"""Contracts of multicontours."""
from .spec_segments import *


def lex(axis, v, q):
    """v does not come after q: by (x, y) when axis is 0, else by (y, x)."""
    a = ie(axis)
    return z3.If(a == 0, key_le((v.x, v.y), (q.x, q.y)),
                 key_le((v.y, v.x), (q.y, q.x)))


def lex_apart(c, d):
    """No vertex of d comes before one of c on c's axis.

    Then the contours have at most one common point (see DESIGN.md).
    """
    return each(c.vertices, lambda v, _: each(
        d.vertices, lambda w, _: lex(c.axis, v, w)))


def fresh_axis():
    a = fresh_int('axis', 0, 1)
    return a


CONTOURS = [
    ('contours have at least three vertices', {'C03', 'C09', 'C12'},
     lambda points, v: each(v, lambda c, _: ie(size(c.vertices)) >= 3)),
    ('contours are simple, strict, counterclockwise', {'C12', 'C09'},
     lambda points, v: each(v, lambda c, _: valid(c.vertices))),
    ('vertices are among the points', {'C05'},
     lambda points, v: each(v, lambda c, _: all_points(
         c.vertices, lambda p: among(p, points)))),
    ('contours follow one another along an axis', {'C12', 'C14'},
     lambda points, v: each_pair(v, lex_apart))]


def contours_ensures(points, r):
    return [(n, p, f(points, view(r))) for n, p, f in CONTOURS]


def multicontour_args():
    ctx = SContext()
    n = fresh_int('n', 0)
    pts = fresh_points(ctx, n.e)
    m = fresh_int('m', 0)
    sizes = SeqView([fresh_block(m.e, lambda: fresh_int('size', 3))])
    return (pts, sizes, SRandom().choice), dict(context=ctx)


contract(
    'factories.to_multicontour', ['points', 'sizes', 'chooser', 'context'],
    args=multicontour_args,
    requires=lambda a: [
        ('distinct points', distinct(a.points)),
        ('at least three points per contour', each(
            view(a.sizes), lambda s, _: ie(s) >= 3)),
        ('enough points', total(view(a.sizes)) <= ie(size(a.points)))],
    result=lambda a: SList(fresh_contours(a.context, fresh_axis)),
    ensures=lambda a, r: contours_ensures(a.points, with_axis(r)) + [
        ctx_ok(a, r)])


def with_axis(r):
    for p in view(r).parts:
        c = p.value if isinstance(p, Elem) else p.template
        if c.axis is None:
            raise Unsupported('contour without a sorting axis')
    return r


def key_axis(key):
    """0 / 1 for a key comparing x / y first, None for no key."""
    if key is None:
        return None
    p = SPoint(None, SNum(z3.Real('key!x')), SNum(z3.Real('key!y')))
    k = key(p)
    if isinstance(k, tuple) and len(k) == 2:
        for axis, order in ((0, (p.x, p.y)), (1, (p.y, p.x))):
            if all(num(a).e.eq(b.e) for a, b in zip(k, order)):
                return axis
    raise Unsupported('sorting key')


def sums_so_far(L, name):
    """Prefix sums of the integers the loop goes over in order, by element
    or by index."""
    if not L.view.parts:
        return None
    block, over = flat(view(L.entry[name])), flat(L.view)
    if block is None:
        return None
    j = over.var
    item, own = num_or_none(over.template), num(block.at(j)).e
    if item is None or not any(
            z3.simplify(item - x).eq(z3.IntVal(0)) for x in (own, j)) or (
            not engine().entailed(over.size == block.size)):
        raise Unsupported(f'loop over something else than {name}')
    return prefix(block)


def num_or_none(v):
    return num(v).e if isinstance(v, (int, SNum)) else None


def multicontour_loop(L):
    e = engine()
    pts0 = view(L.entry['points'])
    ctx = L.entry['context']
    keys = [None, L.globals['horizontal_point_key'],
            L.globals['vertical_point_key']]
    predicates = [None, L.globals['has_vertical_leftmost_segment'],
                  L.globals['has_horizontal_lowermost_segment']]
    state = e.path_cache.setdefault(('loop', id(L.loop)), {})

    def chosen():
        if 'key' not in state:
            state['key'] = e.choose(3, 'sorting key')
        return state['key']

    L.havoc('prior_sorting_key', lambda old: keys[chosen()])
    L.havoc('predicate', lambda old: predicates[chosen()])
    L.havoc('points', lambda old: fresh_points(ctx))
    L.mutate('result', lambda old: fresh_contours(ctx, fresh_axis))
    f = sums_so_far(L, 'sizes')
    n0 = ie(size(pts0))

    def enough(env, k):
        used = z3.IntVal(0) if f is None else f(k)
        return ie(size(env['points'])) >= n0 - used

    def ordered(env, k):
        axis = key_axis(env['prior_sorting_key'])
        if axis is None:
            return T
        return each_pair(view(env['points']),
                         lambda p, q: lex(axis, p, q))

    L.inv('enough points are left', enough, {'C06', 'C12'})
    L.inv('points are the given ones', lambda env, k: all_points(
        env['points'], lambda p: among(p, pts0)), {'C05'})
    L.inv('points are distinct', lambda env, k: distinct(env['points']),
          {'C12'})
    L.inv('points are sorted', ordered, {'C12', 'C14'})
    L.inv('contours precede the points left', lambda env, k: each(
        view(env['result']), lambda c, _: each(
            c.vertices, lambda v, _: all_points(
                env['points'], lambda q: lex(c.axis, v, q)))),
        {'C12', 'C14'})
    for name, props, holds in CONTOURS:
        L.inv(f'so far {name}', lambda env, k, holds=holds: holds(
            pts0, view(env['result'])), props)

    def set_axis(env):
        axis = key_axis(env['prior_sorting_key'])
        for p in view(env['result']).parts:
            if isinstance(p, Elem) and p.value.axis is None and (
                    axis is not None):
                p.value.axis = SNum(z3.IntVal(axis))
    L.on_end(set_axis)


LOOPS['factories.to_multicontour', 0] = LoopSpec(multicontour_loop)


# -- the strategy --------------------------------------------------------------
def growing_sizes(name, count, least):
    """Loop handing out the points left: sizes only grow, by one a step."""
    def spec(L):
        n, low = ie(L.entry[count]), ie(L.entry[least])

        def make(old):
            k = ie(size(old))
            total_ = fresh_int('total').e
            return SeqView([fresh_block(k, lambda: fresh_int('max_size'),
                                        {'total': total_})])
        L.mutate(name, make)
        L.inv('one bound per element', lambda env, k: ie(
            size(env[name])) == n, {'C06', 'C03'})
        L.inv('bounds are at least the minimum', lambda env, k: each(
            view(env[name]), lambda s, _: ie(s) >= low), {'C06', 'C03'})
        L.inv('bounds add up', lambda env, k: total(
            view(env[name])) == n * low + k, {'C06', 'C03'})
    return LoopSpec(spec)


LOOPS['base.to_multicontour_strategy._to_sizes', 0] = growing_sizes(
    'max_sizes', 'size', 'min_element_size')

CSIZES = ['min_contour_size', 'max_contour_size']


def multicontour_requires(a):
    n, c = ie(a.min_size), ie(a.min_contour_size)
    need = next_prime(n * c)
    return [('1 <= min <= max', bounds(a.min_size, a.max_size, 1)),
            ('3 <= min_contour_size <= max_contour_size',
             bounds(a.min_contour_size, a.max_contour_size, 3)),
            ('enough distinct coordinates', capped(a, need))]


def multicontour_ensures(a, r):
    v = view(r)
    return [
        ('size bounds', {'C02'}, within(size(v), a.min_size, a.max_size)),
        ('contour size bounds', {'C02', 'C03'}, each(v, lambda c, _: within(
            size(c.vertices), a.min_contour_size, a.max_contour_size))),
        ('contours are simple, strict, counterclockwise', {'C12', 'C09'},
         each(v, lambda c, _: valid(c.vertices))),
        ('contours follow one another along an axis', {'C12', 'C14'},
         each_pair(v, lex_apart)),
        ('coordinates come from their axes', {'C05'},
         each(v, lambda c, _: all_points(c.vertices,
                                         lambda p: exact(a, p)))),
        ctx_ok(a, r)]


contract('base.to_multicontour_strategy', XY + SIZES + CSIZES,
         args=base_args(SIZES, CSIZES), draws=True,
         requires=multicontour_requires,
         result=lambda a: SList(fresh_contours(a.context, fresh_axis)),
         ensures=multicontour_ensures)
