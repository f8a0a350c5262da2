"""Contracts of the maximal convex hull: chains that never turn right."""
from .spec_star import *
from .spec_base import max_hull

# Lemma (trusted): two chains of some of the points in lexicographic order,
# one from the first to the last and one back, neither turning right, and
# points left out only at right turns, are the boundary of the hull: no point
# is on both (but the ends), and every vertex of the strict hull is on one.
Before = z3.Function('Before', REAL, REAL, REAL, REAL, z3.BoolSort())


def before(p, q):
    """An arbitrary relation in whose order the points are given."""
    return Before(num(p.x).e, num(p.y).e, num(q.x).e, num(q.y).e)


def sub_hull_args():
    ctx = SContext()
    pts = generic(fresh_points(ctx, fresh_int('n', 0).e))
    engine().assume(each_pair(view(pts), before))
    return (pts,), dict(orienteer=ctx.angle_orientation)


def at(seq, k):
    return flat(seq).at(k)


def straight_or_left(vs):
    """No corner turns right."""
    b = flat(vs)
    if b is None:
        return T
    i = fresh_index('q')
    return forall([i], z3.Implies(
        z3.And(i >= 0, i + 2 < b.size),
        det(b.at(i), b.at(i + 1), b.at(i + 2)) >= 0))


def ends_with(vs, given, k):
    """The first and the last of the first k points are the ends."""
    n = ie(size(vs))
    if flat(vs) is None or flat(given) is None:
        return n == k if flat(vs) is None else T
    return z3.And(
        z3.Implies(k == 0, n == 0),
        z3.Implies(k == 1, n == 1),
        z3.Implies(k >= 2, z3.And(n >= 2, n <= k)),
        z3.Implies(k >= 1, z3.And(
            equal(at(vs, z3.IntVal(0)), at(given, z3.IntVal(0))),
            equal(at(vs, n - 1), at(given, k - 1)))))


def sub_hull_requires(a):
    a.given = view(a.points)
    return []


def sub_hull_result(a):
    b = flat(a.given)
    if b is None:
        return SList(SeqView([]))
    r = fresh_points(b.template.ctx, fresh_int('chain', 0).e)
    engine().path_cache.setdefault('chains', []).append((r.view, a.given))
    return r


def sub_hull_ensures(a, r):
    n = ie(size(a.given))
    body = a.points is getattr(engine(), 'generic', None)
    if body:
        order = each_pair(view(r), before)
    elif flat(a.given) is None:
        order = T
    else:
        order = z3.And([
            z3.Implies(each_pair(a.given, f), each_pair(view(r), f))
            for f in (ascending, lambda p, q: ascending(q, p))])
    return [
        ('points are given', {'C05', 'C13', 'C08'},
         all_points(r, known if body else lambda p: among(p, a.given))),
        ('the ends are the first and the last point', {'C06', 'C13', 'C08'},
         ends_with(r, a.given, n)),
        ('points stay in order', {'C13', 'C08'}, order),
        ('no corner turns right', {'C13', 'C08'}, straight_or_left(r))]


def ascending(p, q):
    px, py, qx, qy = (num(v).e for v in (p.x, p.y, q.x, q.y))
    return z3.Or(px < qx, z3.And(px == qx, py < qy))


contract('factories._to_sub_hull', ['points', 'orienteer'],
         args=sub_hull_args, requires=sub_hull_requires,
         result=sub_hull_result, ensures=sub_hull_ensures)


def chain(L, inner):
    given = view(L.entry['points'])
    b = flat(given)
    ctx = b.template.ctx
    L.mutate('result', lambda _: fresh_points(ctx))
    if inner:
        old = L.notes.setdefault('old', view(L.entry['result']))
        L.inv('points left are the first ones', lambda env, k: z3.And(
            ie(size(env['result'])) <= ie(size(old)),
            z3.Implies(ie(size(old)) >= 1, ie(size(env['result'])) >= 1),
            z3.Implies(ie(size(old)) >= 2, ie(size(env['result'])) >= 1),
            prefix(env['result'], old)), {'C13', 'C08'})
        L.variant(lambda env, k: ie(size(env['result'])))
        return
    i = fresh_index
    L.inv('points are given', lambda env, k: all_points(
        env['result'], known), {'C05', 'C13', 'C08'})
    L.inv('the ends are the first and the last point so far',
          lambda env, k: ends_with(env['result'], given, k),
          {'C06', 'C13', 'C08'})
    L.inv('points are in order', lambda env, k: each_pair(
        view(env['result']), before), {'C13', 'C08'})

    def precede(env, k):
        j = fresh_index('q')
        return forall([j], z3.Implies(
            z3.And(j >= k, j < b.size),
            all_points(env['result'], lambda p: before(p, b.at(j)))))
    L.inv('points precede those to come', precede, {'C13', 'C08'})
    L.inv('no corner turns right', lambda env, k: straight_or_left(
        env['result']), {'C13', 'C08'})


def prefix(a, b):
    a, b = flat(a), flat(b)
    if a is None or b is None:
        return T
    i = fresh_index('q')
    return forall([i], z3.Implies(
        z3.And(i >= 0, i < a.size), equal(a.at(i), b.at(i))))


LOOPS['factories._to_sub_hull', 0] = LoopSpec(lambda L: chain(L, False))
LOOPS['factories._to_sub_hull', 1] = LoopSpec(lambda L: chain(L, True))


# -- to_max_convex_hull ---------------------------------------------------------
def max_hull_args():
    ctx = SContext()
    pts = generic(fresh_points(ctx, fresh_int('n', 3).e))
    engine().assume(distinct(pts))
    return (pts,), dict(orienteer=ctx.angle_orientation)


def there_and_back(a, r):
    """The result is a chain from the first point to the last in
    lexicographic order and one back, each without its end."""
    chains = engine().path_cache.get('chains', [])
    if len(chains) != 2:
        raise Unsupported('hull made otherwise')
    # either chain may come first and either may be the one there
    (one, _), (two, _) = chains
    first, last = ends_of(a.points)
    back = lambda p, q: ascending(q, p)
    return z3.Or([round_trip(r, *ways, *order, *ends)
                  for ways in ((one, two), (two, one))
                  for order, ends in (((ascending, back), (first, last)),
                                      ((back, ascending), (last, first)))])


def round_trip(r, there, back, forth, reverse, first, last):
    n, m = ie(there.length()), ie(back.length())
    c, t, b = flat(r), flat(there), flat(back)
    i = fresh_index('q')
    return z3.And(
        each_pair(there, forth), straight_or_left(there),
        each_pair(back, reverse), straight_or_left(back),
        n >= 2, m >= 2, ie(size(r)) == n + m - 2,
        forall([i], z3.Implies(z3.And(i >= 0, i < n - 1),
                               equal(c.at(i), t.at(i)))),
        forall([i], z3.Implies(z3.And(i >= 0, i < m - 1),
                               equal(c.at(n - 1 + i), b.at(i)))),
        equal(t.at(z3.IntVal(0)), b.at(m - 1)),
        equal(t.at(n - 1), b.at(z3.IntVal(0))),
        first(t.at(z3.IntVal(0))), last(b.at(z3.IntVal(0))))


def ends_of(points):
    def first(p):
        return all_points(points, lambda q: z3.Or(
            equal(p, q), ascending(p, q)))

    def last(p):
        return all_points(points, lambda q: z3.Or(
            equal(p, q), ascending(q, p)))
    return first, last


def max_hull_ensures(a, r):
    if a.points is not getattr(engine(), 'generic', None):
        return []
    return [
        ('points are given', {'C05', 'C08', 'C13'}, all_points(r, known)),
        ('a chain there and a chain back', {'C06', 'C08', 'C13'},
         there_and_back(a, r))]


contract('factories.to_max_convex_hull', ['points', 'orienteer'],
         args=max_hull_args,
         requires=lambda a: [],
         result=max_hull, ensures=max_hull_ensures)
