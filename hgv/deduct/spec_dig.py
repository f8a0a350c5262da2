"""Contract of the polygon factory: holes first, then the border is dug out of
the hull of a Delaunay triangulation."""
from .spec_contours import *
from .spec_star import compressed_from, known, strict_corners
from .triangles import Given, Inner, On, STri, predicate, xy

HCOUNT = ['min_hole_count', 'max_hole_count']
HSIZES = ['min_hole_size', 'max_hole_size']
REALS = z3.RealSort()


def fresh_hole(ctx):
    n = engine().fresh('nhole', INT)
    engine().assume(n >= 3)
    return SContour(ctx, SeqView([fresh_block(
        n, lambda: fresh_point(ctx), {'clockwise': True})]), fresh_axis())


def fresh_holes(ctx):
    n = engine().fresh('nholes', INT)
    engine().assume(n >= 0)
    return SeqView([fresh_block(n, lambda: fresh_hole(ctx))])


def fresh_polygon(ctx):
    """A polygon its factory has made."""
    border = fresh_contour(ctx)
    engine().assume(ie(size(border.vertices)) >= 3)
    r = SPolygon(ctx, border, fresh_holes(ctx))
    r.sound = True
    return r


def sound(polygon):
    if polygon.sound is not True:
        raise Unsupported('polygon of unknown origin')
    return T


def clockwise(vs):
    v = view(vs)
    if len(v.parts) == 1 and isinstance(v.parts[0], Block) and (
            'clockwise' in v.parts[0].tags):
        return T
    if len(v.parts) == 1 and isinstance(v.parts[0], Block) and (
            'valid' in v.parts[0].tags):
        return F                        # turns the other way round
    raise Unsupported('hole of unknown origin')


# -- helpers -------------------------------------------------------------------
def reversed_args():
    ctx = SContext()
    n = fresh_int('n', 0)
    return (fresh_points(ctx, n.e),), {}


def reversed_result(a):
    v = view(a.vertices)
    b = flat(v)
    if b is None:
        return SList(SeqView([]))
    r = fresh_block(b.size, lambda: fresh_point(b.template.ctx))
    if len(v.parts) == 1 and 'valid' in b.tags:
        r.tags['clockwise'] = True
    return SList(SeqView([r]))


def reversed_ensures(a, r):
    b, c = flat(a.vertices), flat(r)
    if b is None or c is None:
        return [('as many vertices', {'C13'}, ie(size(r))
                 == ie(size(a.vertices)))]
    i = fresh_index('q')
    return [
        ('as many vertices', {'C13', 'C03'}, ie(size(r))
         == ie(size(a.vertices))),
        ('the vertices in the opposite order', {'C13', 'C05'}, z3.And(
            z3.Implies(b.size > 0, equal(c.at(z3.IntVal(0)),
                                         b.at(z3.IntVal(0)))),
            forall([i], z3.Implies(z3.And(i >= 1, i < b.size), equal(
                c.at(i), b.at(z3.simplify(b.size - i)))))))]


contract('factories._reverse_vertices', ['vertices'], args=reversed_args,
         result=reversed_result, ensures=reversed_ensures)

contract('triangular.to_boundary_edges', ['triangulation'],
         result=lambda a: edges_around(a.triangulation),
         trusted='walk around a triangulation: the hull of its points '
                 '(bounded)')


def edges_around(triangulation):
    if not isinstance(triangulation, STri):
        raise Unsupported('another triangulation')
    if triangulation.B is not None and triangulation.dug:
        return SList(triangulation.walk())
    hull = max_hull(Args(dict(points=triangulation.points)))
    return SList(triangulation.boundary(ie(size(hull))))


def apart_requires(a):
    v = view(a.contours)

    def bounding(c):
        try:
            result = valid(c.vertices)
        except Unsupported:
            result = F
        return clockwise(c.vertices) if result is F else result
    return [('contours are simple', each(v, lambda c, _: bounding(c))),
            ('contours follow one another along an axis',
             each_pair(v, lex_apart))]


def apart_args():
    """Contours that follow one another; lemma (trusted): edges of simple
    contours that have at most one common point neither cross nor overlap."""
    ctx = SContext()
    cs = fresh_contours(ctx, fresh_axis)
    engine().assume(each_pair(cs, lex_apart))
    engine().assume(all_apart(map_block(cs, ctx.contour_segments)))
    return (SList(cs), ctx.contour_segments), dict(context=ctx)


def map_block(v, f):
    b = v.parts[0]
    return SeqView([Block(b.size, b.var, f(b.template), b.off)])


contract('utils.contours_do_not_cross_or_overlap',
         ['contours', 'contour_segments_factory', 'context'],
         args=apart_args,
         requires=apart_requires, requires_props=('C06', 'C13', 'C12'),
         result=lambda a: True,
         ensures=lambda a, r: [
             ('contours apart are recognized', {'C06'}, T if r is True
              else F)])


def border_result(a):
    """Vertices of the boundary, without those between collinear edges."""
    t = a.triangulation
    e = engine()
    if not isinstance(t, STri) or t.B is None:
        raise Unsupported('another triangulation')
    n = fresh_int('border', 3).e
    edge = z3.Function(e.name('border_edge'), INT, INT)
    k = fresh_block(n, lambda: fresh_point(t.context), {'valid': True})
    i = fresh_index('q')
    e.assume(forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        t.B(edge(i)), equal(k.at(i), t.at(t.start, edge(i)))))))
    # what no edge crosses, overlaps or has its start on is not crossed or
    # overlapped by a union of edges
    v = [z3.Real(c) for c in ('ux', 'uy', 'vx', 'vy')]
    s, u = SPoint(t.context, *map(SNum, v[:2])), SPoint(
        t.context, *map(SNum, v[2:]))
    x = fresh_index('x')
    start, end = t.at(t.start, x), t.at(t.end, x)
    clear = z3.ForAll([x], z3.Implies(t.B(x), z3.And(
        NXP((start, end), (s, u)), z3.Not(On(*xy(start), *v)))),
        patterns=[t.B(x)])
    side = NXP((k.at(before(n, i)), k.at(i)), (s, u))
    e.assume(z3.ForAll([i, *v], z3.Implies(z3.And(
        i >= 0, i < n, clear), side), patterns=[side]))
    return SList(SeqView([k]))


def border_args():
    """A triangulation some edges have been deleted from."""
    ctx = SContext()
    t = STri(ctx, fresh_points(ctx, fresh_int('n', 3).e))
    t.havoc(None)
    t.dug = True
    x = fresh_index('x')
    start = t.at(t.start, x)
    engine().assume(z3.ForAll([x], z3.Implies(t.B(x), known(start)),
                              patterns=[t.B(x)]))
    engine().generic = t
    return (t,), {}


def border_ensures(a, r):
    """Lemma (trusted): the compressed walk around a triangulated disc is a
    simple strict contour, and its edges are unions of edges of the walk."""
    t = a.triangulation
    if t is not getattr(engine(), 'generic', None):
        return []
    return [
        ('vertices start boundary edges', {'C05', 'C13', 'C09'},
         all_points(r, known)),
        ('the walk around the boundary, compressed', {'C09', 'C13'},
         compressed_walk(t, r))]


def compressed_walk(t, r):
    """The result was compressed and not changed since, and what was
    compressed are the vertices of the walk in their order."""
    old = compressed_from(r)
    if old is None:
        return z3.And(strict_corners(r), walked(t, view(r)))
    return walked(t, old)


def walked(t, v):
    walk, b = getattr(t, 'walked', None), flat(v)
    if walk is None:
        raise Unsupported('boundary of another origin')
    if b is None:
        return F
    w = flat(walk)
    i = fresh_index('q')
    # from any of the vertices
    return z3.And(b.size == w.size, z3.Or([forall([i], z3.Implies(
        z3.And(i >= 0, i < w.size), equal(b.at(i), end(w.at(i)))))
        for end in (lambda e: e.start, lambda e: e.end)]))


contract('factories._triangulation_to_border_vertices', ['triangulation'],
         args=border_args, result=border_result, ensures=border_ensures)


# -- the factory ---------------------------------------------------------------
def polygon_factory_args():
    ctx = SContext()
    n = fresh_int('n', 3)
    pts = fresh_points(ctx, n.e)
    m = fresh_int('m', 0)
    sizes = SeqView([fresh_block(m.e, lambda: fresh_int('size', 3))])
    return (pts, fresh_int('border_size', 3), sizes,
            SRandom().choice), dict(context=ctx)


def polygon_factory_requires(a):
    sizes = view(a.hole_sizes)
    m = a.points
    hull = max_hull(Args(dict(points=a.points)))
    return [
        ('distinct points', distinct(a.points)),
        ('at least three points per hole', each(
            sizes, lambda s, _: ie(s) >= 3)),
        ('enough points inside the hull', total(sizes)
         <= ie(size(m)) - ie(size(hull))),
        ('border size', ie(a.border_size) >= 3)]


def polygon_factory_ensures(a, r):
    made = r.sound is True         # known from its origin
    posts = [
        ('vertices are among the points', {'C05'}, polygon_points(
            r, lambda p: among(p, a.points))),
        ('the border is simple, strict, counterclockwise', {'C13', 'C09'},
         valid(r.border.vertices)),
        ctx_ok(a, r)]
    if made:
        return posts
    return posts + [
        ('holes are simple, strict, clockwise', {'C13'}, each(
            r.holes, lambda h, _: z3.And(
                ie(size(h.vertices)) >= 3, clockwise(h.vertices)))),
        ('holes follow one another along an axis', {'C13'},
         each_pair(with_axis(r.holes), lex_apart)),
        ('edges of holes and of the border neither cross nor overlap',
         {'C13'}, each(r.holes, lambda h, _: each(
             edges(h.vertices), lambda s, _: each(
                 edges(r.border.vertices), lambda t, _: NXP(t, s)))))]


contract('factories.to_polygon',
         ['points', 'border_size', 'hole_sizes', 'chooser', 'context'],
         args=polygon_factory_args, requires=polygon_factory_requires,
         result=lambda a: fresh_polygon(a.context),
         ensures=polygon_factory_ensures)


def known(p):
    return z3.And(Given(*xy(p)), Inner(*xy(p)))


def ends(s, f):
    return z3.And(f(s.start), f(s.end))


def fresh_membership(base='member'):
    f = z3.Function(engine().name(base), REALS, REALS, z3.BoolSort())
    return lambda p: f(*xy(p))


def all_boundary(tri, f):
    x = fresh_index('x')
    return z3.ForAll([x], z3.Implies(tri.is_boundary(x), f(x)),
                     patterns=[tri.is_boundary(x)] if z3.is_app_of(
                         tri.is_boundary(x), z3.Z3_OP_UNINTERPRETED)
                     else [tri.start[0](x)])


def hole_edges(env):
    return view(env['all_hole_edges'])


def holes_loop(L):
    e = engine()
    ctx = L.entry['context']
    first = view(L.entry['inner_points'])
    last = getattr(L.loop, 'exit', False)
    keys = [None, L.globals['horizontal_point_key'],
            L.globals['vertical_point_key']]
    predicates = [None, L.globals['has_vertical_leftmost_segment'],
                  L.globals['has_horizontal_lowermost_segment']]
    state = e.path_cache.setdefault(('loop', id(L.loop)), {})

    def chosen():
        if 'key' not in state:
            state['key'] = e.choose(3, 'sorting key')
        return state['key']

    L.havoc('prior_sorting_key', lambda old: Undefined() if last
            else keys[chosen()])
    L.havoc('predicate', lambda old: Undefined() if last
            else predicates[chosen()])
    L.havoc('inner_points', lambda old: fresh_points(ctx))
    L.mutate('holes', lambda old: fresh_holes(ctx))
    L.mutate('all_hole_edges', lambda old: view(fresh_segments(ctx)))
    L.mutate('boundary_points', lambda old: fresh_membership())
    f = sums_so_far(L, 'hole_sizes')
    n0 = ie(size(first))

    def enough(env, k):
        used = z3.IntVal(0) if f is None else f(k)
        return ie(size(env['inner_points'])) >= n0 - used

    def ordered(env, k):
        axis = None if last else key_axis(env['prior_sorting_key'])
        return T if axis is None else each_pair(
            view(env['inner_points']), lambda p, q: lex(axis, p, q))

    def inner(env):
        return view(env['inner_points'])

    def holes(env):
        return view(env['holes'])

    L.inv('enough points are left', enough, {'C06', 'C13'})
    L.inv('points are given, inside the hull', lambda env, k: all_points(
        env['inner_points'], known), {'C05', 'C13'})
    L.inv('points are distinct', lambda env, k: distinct(
        env['inner_points']), {'C13'})
    # the assertion on holes rests on these as well
    L.inv('points are sorted', ordered, {'C06', 'C13'})
    L.inv('holes have at least three vertices, given, inside the hull',
          lambda env, k: each(holes(env), lambda h, _: z3.And(
              ie(size(h.vertices)) >= 3, clockwise(h.vertices),
              all_points(h.vertices, known))), {'C05', 'C13', 'C03'})
    L.inv('holes follow one another along an axis',
          lambda env, k: each_pair(holes(env), lex_apart), {'C06', 'C13'})
    L.inv('holes precede the points left', lambda env, k: each(
        holes(env), lambda h, _: each(
            h.vertices, lambda v, _: all_points(
                inner(env), lambda q: lex(h.axis, v, q)))),
        {'C06', 'C13'})
    L.inv('edges of holes end at points given, inside the hull, and '
          'reserved', lambda env, k: each(hole_edges(env), lambda s, _: ends(
              s, lambda p: z3.And(
                  known(p), env['boundary_points'].member(p)))), {'C13'})
    L.inv('edges of holes precede the points left', lambda env, k: each(
        hole_edges(env), lambda s, _: z3.Or(*[all_points(
            inner(env), lambda q: ends(s, lambda p: lex(
                axis, p, q)))
            for axis in (0, 1)])), {'C13'})
    L.inv('every edge of a hole is known', lambda env, k: each(
        holes(env), lambda h, _: each(
            edges(h.vertices), lambda s, _: z3.Not(each(
                hole_edges(env), lambda t, _: z3.Not(z3.And(
                    equal(s[0], t.start), equal(s[1], t.end))))))), {'C13'})
    L.inv('points inside the hull are left or reserved',
          lambda env, k: all_points(first, lambda p: z3.Or(
              env['boundary_points'].member(p),
              among(p, env['inner_points']))), {'C13'})
    tri = L.entry['triangulation']
    L.inv('vertices of the boundary are reserved',
          lambda env, k: all_boundary(tri, lambda x: env[
              'boundary_points'].member(tri.at(tri.start, x))), {'C13'})

    def set_axis(env):
        axis = key_axis(env['prior_sorting_key'])
        for p in holes(env).parts:
            if isinstance(p, Elem) and p.value.axis is None and (
                    axis is not None):
                p.value.axis = SNum(z3.IntVal(axis))
    L.on_end(set_axis)


LOOPS['factories.to_polygon', 0] = LoopSpec(holes_loop)


def digging_loop(L):
    tri = L.entry['triangulation']
    L.havoc('current_border_size', lambda old: fresh_int('border_size'))
    L.mutate('boundary_points', lambda old: fresh_membership())
    L.mutate('triangulation', lambda old: None)
    L.mutate('edges_neighbours', lambda old: None)
    L.mutate('edge_to_remove_candidates', lambda old: None)
    reserved = lambda env, p: env['boundary_points'].member(p)
    start = lambda x: tri.at(tri.start, x)
    end = lambda x: tri.at(tri.end, x)

    def candidates(env, k):
        x = fresh_index('x')
        c = env['edge_to_remove_candidates'].members(x)
        return z3.ForAll([x], z3.Implies(c, tri.is_boundary(x)))
    L.inv('candidates are edges of the boundary', candidates, {'C06', 'C13'})
    L.inv('neighbours of the edges of the boundary are known',
          lambda env, k: all_boundary(
              tri, env['edges_neighbours'].keys_), {'C06'})
    L.inv('vertices of the boundary are reserved', lambda env, k:
          all_boundary(tri, lambda x: reserved(env, start(x))),
          {'C13', 'C09'})
    L.inv('vertices of the boundary are given', lambda env, k:
          all_boundary(tri, lambda x: Given(*xy(start(x)))), {'C05'})
    b = flat(tri.points)

    def free(env, k):
        return each(hole_edges(env), lambda s, _: all_points(
            tri.points, lambda p: z3.Or(reserved(env, p), z3.Not(On(
                *xy(p, s.start, s.end))))))
    L.inv('points free to dig to lie on no edge of a hole', free, {'C13'})
    L.inv('edges of the boundary and of holes neither cross nor overlap',
          lambda env, k: all_boundary(tri, lambda x: each(
              hole_edges(env), lambda s, _: NXP(
                  (start(x), end(x)), (s.start, s.end)))), {'C13'})
    L.inv('edges of the boundary start and end on no edge of a hole',
          lambda env, k: all_boundary(tri, lambda x: each(
              hole_edges(env), lambda s, _: z3.And(*[z3.Not(On(
                  *xy(p, s.start, s.end))) for p in (start(x), end(x))]))),
          {'C13'})
    L.variant(lambda env, k: z3.simplify(
        3 * (ie(L.entry['border_size']) - ie(env['current_border_size']))
        + env['edge_to_remove_candidates'].n))


LOOPS['factories.to_polygon', 1] = LoopSpec(digging_loop)
