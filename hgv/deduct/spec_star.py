"""Contracts of the pruning of contours: collinear vertices, star contours."""
from .spec_base import *
from . import stubs


def same_points(a, b):
    """Two sequences have equal points at equal positions."""
    a, b = flat(a), flat(b)
    if a is None or b is None:
        return T if a is b else (a or b).size == 0
    i = fresh_index('q')
    return z3.And(a.size == b.size, forall([i], z3.Implies(
        z3.And(i >= 0, i < a.size), equal(a.at(i), b.at(i)))))


Known = z3.Function('Known', REAL, REAL, z3.BoolSort())


def known(p):
    """An arbitrary predicate true of the points given to the function."""
    return Known(num(p.x).e, num(p.y).e)


def generic(points):
    """The argument a function is verified for."""
    engine().generic = points
    engine().assume(all_points(points, known))
    return points


def lasting(old, new, ghost):
    """Distinct points stay distinct.  In the body: an arbitrary proposition
    that implies the former implies the latter."""
    if ghost is not None:
        return z3.Implies(ghost, distinct(new))
    return z3.Implies(distinct(old), distinct(new))


def lasting_ghost(points):
    ghost = engine().fresh('distinct', z3.BoolSort())
    engine().assume(z3.Implies(ghost, distinct(points)))
    engine().distinct_ghost = ghost


def part_of(vs, a, given):
    """Points are among the given ones: they have every property which all
    of those have."""
    if given is getattr(engine(), 'generic', None):
        return all_points(vs, known)
    return all_points(vs, lambda p: among(p, a.old))


def strict_corners(vs, upto=None):
    """No corner (or none that the first `upto` vertices follow) is
    straight."""
    b = flat(corners(vs))
    i = fresh_index('q')
    passed = T if upto is None else z3.If(i == b.size - 1, 0, i + 1) < upto
    return forall([i], z3.Implies(z3.And(
        i >= 0, i < b.size, passed), det(*b.at(i)) != 0))


# -- compress_contour ----------------------------------------------------------
def compress_args():
    ctx = SContext()
    n = fresh_int('n', 0)
    vs = generic(fresh_points(ctx, n.e))
    lasting_ghost(vs)
    return (vs,), dict(orienteer=ctx.angle_orientation)


def compress_requires(a):
    if not isinstance(a.vertices, SList):
        raise Unsupported('vertices of another type')
    a.old = view(a.vertices)
    return []


def compress_result(a):
    b = flat(a.old)
    if b is None:
        raise Unsupported('compression of nothing')
    if engine().branch(engine().fresh('kept', z3.BoolSort())):
        remember(a)
        return
    n = fresh_int('compressed', 0)
    engine().assume(n.e < ie(size(a.old)))
    a.vertices._touch()
    a.vertices.view = SeqView([fresh_block(
        n.e, lambda: fresh_point(b.template.ctx))])
    remember(a)


def remember(a):
    done = engine().path_cache.setdefault('compressed', [])
    done.append((a.vertices.view, a.old))


def compressed_from(vs):
    """What a compressed sequence was (None: it was not, or has changed)."""
    v, result = view(vs), None
    for now, old in reversed(engine().path_cache.get('compressed', [])):
        if v is now:
            v = result = old
    return result


def fewer(vs, old):
    n, m = ie(size(vs)), ie(size(old))
    return z3.And(n <= m, z3.Or(n == m, n >= 2))


def compress_ensures(a, r):
    n, m = ie(size(a.vertices)), ie(size(a.old))
    kept = n == m
    return [
        ('vertices are among the given ones', {'C05', 'C10'},
         part_of(a.vertices, a, a.vertices)),
        ('at least two vertices are left', {'C06', 'C10'},
         fewer(a.vertices, a.old)),
        ('distinct vertices stay so', {'C09', 'C10'}, lasting(
            a.old, a.vertices,
            engine().distinct_ghost
            if a.vertices is getattr(engine(), 'generic', None) else None)),
        ('nothing moves if nothing is removed', {'C09', 'C10'}, z3.Implies(
            kept, same_points(a.vertices, a.old))),
        ('no corner is straight if nothing is removed', {'C09', 'C10'},
         z3.Implies(z3.And(kept, n >= 3), strict_corners(a.vertices)))]


contract('factories.compress_contour', ['vertices', 'orienteer'],
         args=compress_args, requires=compress_requires,
         result=compress_result, ensures=compress_ensures)


def compress_loop(second, inner):
    def spec(L):
        # as it was before the loop
        old = L.notes.setdefault('old', view(L.entry['vertices']))
        b = flat(old)
        ctx = b.template.ctx
        n0 = ie(size(old))
        L.mutate('vertices', lambda _: fresh_points(ctx))
        L.inv('vertices are among the given ones', lambda env, k: all_points(
            env['vertices'], known), {'C05', 'C10'})
        L.inv('at least two vertices are left', lambda env, k: fewer(
            env['vertices'], old), {'C06', 'C10'})
        L.inv('distinct vertices stay so', lambda env, k: lasting(
            old, env['vertices'], engine().distinct_ghost), {'C09', 'C10'})
        L.inv('nothing moves if nothing is removed', lambda env, k:
              z3.Implies(ie(size(env['vertices'])) == n0, same_points(
                  env['vertices'], old)), {'C09', 'C10'})
        if inner and second:
            L.inv('index is not beyond the end', lambda env, k: z3.Implies(
                ie(env['index']) < n0, ie(env['index'])
                <= ie(size(env['vertices']))), {'C06'})
        if inner:
            L.variant(lambda env, k: ie(size(env['vertices'])))
            return
        L.havoc('index', lambda _: fresh_int('index'))
        if not second:
            L.inv('index is not positive', lambda env, k: z3.Or(
                n0 == 0, ie(env['index']) <= 0), {'C06', 'C10'})
            L.variant(lambda env, k: 1 - ie(env['index']))
            return
        L.inv('index is not negative', lambda env, k: ie(
            env['index']) >= 0, {'C06'})
        L.inv('corners passed are not straight if nothing is removed',
              lambda env, k: z3.Implies(
                  z3.And(ie(size(env['vertices'])) == n0, n0 >= 3),
                  strict_corners(env['vertices'], ie(env['index']))),
              {'C09', 'C10'})
        L.variant(lambda env, k: ie(size(env['vertices']))
                  - ie(env['index']) + 1)
    return LoopSpec(spec)


for _k, (_second, _inner) in enumerate([
        (False, False), (False, True), (True, False), (True, True)]):
    LOOPS['factories.compress_contour', _k] = compress_loop(_second, _inner)


# -- to_star_contour_vertices --------------------------------------------------
# Lemma (trusted): distinct points in the order of their directions from the
# mean of themselves bound a simple counterclockwise contour.  Vertices which
# are distinct, as many as the points the mean is of, and among these, are all
# of them.
def direction(c, p):
    return stubs.atan2(p.y - c.y, p.x - c.x).e


def same(a, b):
    a, b = view(a), view(b)
    return a is b or len(a.parts) == len(b.parts) and all(
        p is q for p, q in zip(a.parts, b.parts))


def subset(a, b):
    return T if same(a, b) else all_points(a, lambda p: among(p, b))


def ordered_around(vs, c):
    return each_pair(
        view(vs), lambda p, q: direction(c, p) < direction(c, q))


def sign(d):
    return z3.If(d > 0, 1, z3.If(d < 0, -1, 0))


def contains(v, p, q, c):
    """The angle at v between rays to p and q contains c."""
    angle, first, second = (sign(det(v, p, q)), sign(det(v, p, c)),
                            sign(det(q, v, c)))
    return z3.If(first == 0, second == angle, z3.If(
        second == 0, first == angle, z3.And(
            first == second, second == z3.If(angle == 0, 1, angle))))


def angle_args():
    ctx = SContext()
    return tuple(fresh_point(ctx) for _ in range(4)), dict(
        orienteer=ctx.angle_orientation)


def angle_contains(a):
    return contains(a.vertex, a.first_ray_point, a.second_ray_point, a.point)


def angle_ensures(a, r):
    if not isinstance(r, bool):
        raise Unsupported('answer of another type')
    f = angle_contains(a)
    return [('the angle contains the point', {'C10', 'C09'},
             f if r else z3.Not(f))]


contract('contracts.angle_contains_point',
         ['vertex', 'first_ray_point', 'second_ray_point', 'point',
          'orienteer'], args=angle_args,
         result=lambda a: engine().branch(angle_contains(a)),
         ensures=angle_ensures)


def facing(vs, c, upto=None):
    """Angles of the contour (of its first `upto` corners) contain c."""
    b = flat(corners(vs))
    i = fresh_index('q')
    n = b.size if upto is None else upto
    p, v, q = b.at(i)
    return forall([i], z3.Implies(z3.And(i >= 0, i < b.size, i < n),
                                  contains(v, p, q, c)))


def looked_from():
    """Names of the points directions from which the path speaks about."""
    found, seen, stack = set(), set(), list(engine().pc)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.decl().name() == 'atan2':
                found.update(c.decl().name() for c in constants(t))
            else:
                stack.extend(t.children())
    return found


def constants(t):
    if z3.is_app(t):
        if not t.num_args() and not z3.is_rational_value(t):
            yield t
        for c in t.children():
            yield from constants(c)


def sorted_around(others=()):
    """The mean directions from which were last looked at, if any."""
    names = looked_from()
    return [c for c in engine().path_cache.get('centroids', [])
            if c.kind == 'points' and not any(c is o for o in others)
            and c.x.e.decl().name() in names][-1:]


def star(vs, ghosts=None, others=()):
    """What makes the contour simple, counterclockwise and a star."""
    if ghosts is None:
        means = sorted_around(others)
        middles = [c for c in engine().path_cache.get('centroids', [])
                   if c.kind == 'region' and not any(c is o for o in others)]
    else:
        means, middles = ghosts[:1], ghosts[1:]
    return dict(
        fewer=z3.Or([F] + [subset(vs, c.of) for c in means]),
        more=z3.Or([F] + [ie(size(c.of)) <= ie(size(vs)) for c in means]),
        order=z3.Or([F] + [ordered_around(vs, c) for c in means]),
        angles=z3.Or([F] + [facing(vs, c) for c in middles]),
        corners=strict_corners(vs))


def star_args():
    ctx = SContext()
    n = fresh_int('n', 3)
    vs = generic(fresh_points(ctx, n.e))
    engine().assume(distinct(vs))
    return (vs,), dict(context=ctx)


STAR = [('fewer', {'C09', 'C10'}, 'vertices are among those their mean is of'),
        ('more', {'C09', 'C10'}, 'vertices are as many as those'),
        ('order', {'C09', 'C10'}, 'vertices are in the order of their '
                                  'directions from their mean'),
        ('angles', {'C10'}, 'angles contain the centroid'),
        ('corners', {'C09', 'C10'}, 'no corner is straight')]


def star_ensures(a, r):
    posts = [ctx_ok(a, r)]
    if a.points is not getattr(engine(), 'generic', None):
        return posts
    facts = star(r)
    big = ie(size(r)) >= 3
    return posts + [
        ('vertices are among the points', {'C05', 'C10'},
         all_points(r, known)),
        ('vertices are distinct', {'C09', 'C10'}, distinct(r))] + [
        (text, props, z3.Implies(big, facts[k])) for k, props, text in STAR]


contract('factories.to_star_contour_vertices', ['points', 'context'],
         args=star_args,
         requires=lambda a: [
             ('three points', ie(size(a.points)) >= 3),
             ('distinct points', distinct(a.points))],
         result=lambda a: vertices_of(a.context, a.points, 'star'),
         ensures=star_ensures)


def a_centroid(ctx, kind, of):
    r = fresh_point(ctx)
    r.of, r.kind = of, kind
    engine().path_cache.setdefault('centroids', []).append(r)
    return r


def star_loop(L):
    ctx = L.entry['context']
    state = L.notes

    def head():
        if 'head' not in state:
            r = state['head'] = fresh_points(ctx)
            state['ghosts'] = (a_centroid(ctx, 'points', view(r)),
                               a_centroid(ctx, 'region', view(r)))
        return state['head']

    L.havoc('result', lambda _: head())
    L.havoc('prev_size', lambda _: fresh_int('prev_size'))
    L.havoc('centroid', lambda _: a_centroid(
        ctx, 'points', view(head())))

    def mean(env, k):
        c = env['centroid']
        if getattr(c, 'kind', None) != 'points':
            raise Unsupported('centroid of unknown origin')
        r = env['result']
        return z3.Or(ie(size(r)) <= 2, z3.And(
            subset(r, c.of), ie(size(c.of)) <= ie(size(r))))

    L.inv('points are given', lambda env, k: all_points(
        env['result'], known), {'C05', 'C10'})
    L.inv('points are distinct', lambda env, k: distinct(env['result']),
          {'C09', 'C10'})
    L.inv('centroid is the mean of the points', mean, {'C09', 'C10'})
    for key, props, text in STAR:
        def fixed(env, k, key=key):
            r = env['result']
            n = ie(size(r))
            ghosts = state.get('ghosts', ())
            facts = star(r, ghosts if r is state.get('head') else None,
                         ghosts)
            return z3.Or(n <= 2, n < ie(env['prev_size']), facts[key])
        L.inv(f'if nothing was removed: {text}', fixed, props)
    L.variant(lambda env, k: ie(env['prev_size']))


def angles_loop(L):
    state = L.notes
    old = state.setdefault('old', view(L.entry['result']))
    ctx = L.entry['context']
    c = L.entry['centroid']
    n0 = ie(size(old))
    L.mutate('result', lambda _: fresh_points(ctx))
    L.havoc('index', lambda _: fresh_int('index'))
    L.inv('points are given', lambda env, k: all_points(
        env['result'], known), {'C05', 'C10'})
    L.inv('points are distinct', lambda env, k: distinct(env['result']),
          {'C09', 'C10'})
    L.inv('at least two points are left', lambda env, k: fewer(
        env['result'], old), {'C06', 'C10'})
    L.inv('index is not negative', lambda env, k: ie(env['index']) >= 0,
          {'C06'})
    L.inv('nothing moves if nothing is removed', lambda env, k: z3.Implies(
        ie(size(env['result'])) == n0, same_points(env['result'], old)),
        {'C09', 'C10'})
    means = state.setdefault('means', sorted_around())
    if means:
        L.inv('points are in the order of their directions',
              lambda env, k: ordered_around(env['result'], means[0]),
              {'C09', 'C10'})
    L.inv('angles passed contain the centroid if nothing is removed',
          lambda env, k: z3.Implies(
              ie(size(env['result'])) == n0,
              facing(env['result'], c, ie(env['index']))), {'C10'})
    L.variant(lambda env, k: ie(size(env['result'])) - ie(env['index']) + 1)


LOOPS['factories.to_star_contour_vertices', 0] = LoopSpec(star_loop)
LOOPS['factories.to_star_contour_vertices', 1] = LoopSpec(angles_loop)
