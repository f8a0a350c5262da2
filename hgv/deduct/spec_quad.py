"""Contracts of the quad-edge structure under the triangulations: the axioms of
its algebra are an invariant of every method, rings have one start."""
from .spec_base import *
from .spec_base import iterate_once
from .heap import (Heap, Objects, Reference, Triangulated, Triangulations,
                   same, update)

PROPS = {'C09', 'C13', 'C06'}


def real_class():
    from .verify import LOADERS
    l = engine().loader
    return l.load(l.package + '.subdivisional').__dict__['QuadEdge']


def heap():
    h = Heap(SContext(), real_class())
    engine().assume(h.algebra())
    return h


def edge(h, name):
    x = engine().fresh(name, INT)
    engine().assume(h.edge(x))
    return Reference(h, x)


def agree(h, o, but=()):
    """Everything is as in o but for the fields of some."""
    x = fresh_index('q')
    return z3.And(h.count == o.count, z3.ForAll([x], z3.Implies(
        o.alive(x), z3.And(h.onext[x] == o.onext[x], h.rot[x] == o.rot[x],
                           h.primal[x] == o.primal[x],
                           same(h.start(x), o.start(x)))),
        patterns=[h.onext[x], h.rot[x], h.primal[x]]))


def remember(a, h):
    a.heap, a.old, a.called = h, h.snapshot(), False


def at_call(a, posts):
    """Of the heap given by its update only the algebra is to be known."""
    return posts[:1] if a.called else posts


def extends(h, o):
    """Edges there were are there still, with the same ends."""
    x = fresh_index('q')
    return z3.And(h.count >= o.count, z3.ForAll([x], z3.Implies(
        o.alive(x), z3.And(
            h.rot[x] == o.rot[x], h.primal[x] == o.primal[x],
            same(h.start(x), o.start(x)))),
        patterns=[h.rot[x], h.primal[x], *h.start(x)]))


def change(h):
    """Arbitrary fields of perhaps more objects."""
    e, n = engine(), h.count
    h.forget()
    e.assume(h.count >= n)


def changed(a):
    a.called = True
    change(a.heap)


# -- from_endpoints --------------------------------------------------------------
def created_args():
    h = heap()
    engine().assume(h.rings())
    engine().heap = h
    return (Objects(h), fresh_point(h.context), fresh_point(h.context)), dict(
        context=h.context)


def created_requires(a):
    remember(a, a.cls.heap if isinstance(a.cls, Objects)
             else engine().heap)
    return [('the context is that of the edges', T if
             a.context is a.heap.context else F)]


def created(o, start, end):
    """The heap with a new isolated edge."""
    h, n = o.snapshot(), o.count
    h.count = z3.simplify(n + 4)
    for k, (r, x) in enumerate(((1, 0), (2, 3), (3, 2), (0, 1))):
        h.rot = z3.Store(h.rot, n + k, n + r)
        h.onext = z3.Store(h.onext, n + k, n + x)
        h.primal = z3.Store(h.primal, n + k, z3.BoolVal(k % 2 == 0))
    h.org = [z3.Store(z3.Store(f, n, num(s).e), n + 2, num(t).e)
             for f, s, t in zip(h.org, (start.x, start.y), (end.x, end.y))]
    return h


def created_result(a):
    n = a.old.count
    a.called = True
    update(a.heap, created(a.old, a.start, a.end))
    return Reference(a.heap, n)


def isolated(h, x):
    return z3.And(h.onext[x] == x, h.onext[h.sym(x)] == h.sym(x),
                  h.onext[h.rot[x]] == h.inverse(x),
                  h.onext[h.inverse(x)] == h.rot[x])


def created_ensures(a, r):
    h, o, x = a.heap, a.old, r.id
    q = fresh_index('q')
    return at_call(a, [
        ('the algebra of edges', PROPS, h.algebra()),
        ('a new edge from start to end', PROPS, z3.And(
            h.edge(x), x >= o.count,
            same(h.start(x), (num(a.start.x).e, num(a.start.y).e)),
            same(h.start(h.sym(x)), (num(a.end.x).e, num(a.end.y).e)))),
        ('it is connected to no other', PROPS, isolated(h, x)),
        ('other edges stay', PROPS, z3.And(
            h.count >= o.count, z3.ForAll([q], z3.Implies(
                o.alive(q), z3.And(
                    h.onext[q] == o.onext[q], h.rot[q] == o.rot[q],
                    h.primal[q] == o.primal[q],
                    same(h.start(q), o.start(q)))), patterns=[
                        h.onext[q], h.rot[q], h.primal[q]])))])


contract('subdivisional.QuadEdge.from_endpoints',
         ['cls', 'start', 'end', 'context'], args=created_args,
         requires=created_requires, result=created_result,
         ensures=created_ensures)


# -- splice ----------------------------------------------------------------------
def splice_args():
    h = heap()
    return (edge(h, 'self'), edge(h, 'other')), {}


def splice_requires(a):
    remember(a, getattr(a, 'self').heap)
    h = a.heap
    return [('edges of the structure', z3.And(
        h.edge(getattr(a, 'self').id), h.edge(a.other.id)))]


def spliced(o, a, b):
    """Rings of the heap with those of a and b (and of the faces on their
    left) joined or parted."""
    n, r = o.onext, o.rot
    alpha, beta = r[n[a]], r[n[b]]
    x = z3.Store(z3.Store(n, a, n[b]), b, n[a])
    h = o.snapshot()
    h.onext = z3.Store(z3.Store(x, alpha, n[beta]), beta, n[alpha])
    return h


def splice_result(a):
    a.called = True
    update(a.heap, spliced(a.old, getattr(a, 'self').id, a.other.id))


def splice_ensures(a, r):
    h, o = a.heap, a.old
    return at_call(a, [
        ('the algebra of edges', PROPS, h.algebra()),
        ('rings are swapped', PROPS, agree(h, spliced(
            o, getattr(a, 'self').id, a.other.id)))])


contract('subdivisional.QuadEdge.splice', ['self', 'other'],
         args=splice_args, requires=splice_requires, result=splice_result,
         ensures=splice_ensures, requires_props=PROPS)


# -- connect ---------------------------------------------------------------------
def connect_args():
    h = heap()
    engine().assume(h.rings())
    return (edge(h, 'self'), edge(h, 'other')), {}


def connect_result(a):
    a.called = True
    x = a.old.count
    change(a.heap)
    return Reference(a.heap, x)


def connect_ensures(a, r):
    h, o, x = a.heap, a.old, r.id
    s, t = getattr(a, 'self').id, a.other.id
    posts = [
        ('edges stay and keep their ends', PROPS, extends(h, o)),
        ('the algebra of edges', PROPS, h.algebra()),
        ('rings have one start', PROPS, h.rings()),
        ('a new edge from the end of one to the start of the other', PROPS,
         z3.And(h.edge(x), x >= o.count,
                same(h.start(x), o.start(o.sym(s))),
                same(h.start(h.sym(x)), o.start(t)))),
        ('faces: the one goes on along the new edge, what came before the '
         'other along its opposite', PROPS,
         z3.Implies(t != o.lnext(s), z3.And(
             h.lnext(s) == x, h.lnext(x) == t,
             h.lnext(h.sym(x)) == o.lnext(s), parted(h, o, s, t, x))))]
    # merging does not ask about faces
    faces = not a.called or '_points' in engine().loader.target
    return posts if faces else posts[:-1]


def parted(h, o, s, t, x):
    q = fresh_index('q')
    return z3.ForAll([q], z3.Implies(
        z3.And(o.edge(q), q != s), h.lnext(q) == z3.If(
            o.lnext(q) == t, h.sym(x), o.lnext(q))),
        patterns=[h.inverse(q)])


contract('subdivisional.QuadEdge.connect', ['self', 'other'],
         args=connect_args, requires=splice_requires,
         result=connect_result, ensures=connect_ensures,
         requires_props=PROPS)


# -- delete ----------------------------------------------------------------------
def delete_args():
    h = heap()
    engine().assume(h.rings())
    return (edge(h, 'self'),), {}


def delete_requires(a):
    remember(a, getattr(a, 'self').heap)
    return [('edge of the structure', a.heap.edge(getattr(a, 'self').id))]


def delete_ensures(a, r):
    h, o, x = a.heap, a.old, getattr(a, 'self').id
    q = fresh_index('q')
    own = [x, o.rot[x], o.sym(x), o.inverse(x)]
    return [
        ('the algebra of edges', PROPS, h.algebra()),
        ('rings have one start', PROPS, h.rings()),
        ('the edge is connected to no other', PROPS, isolated(h, x)),
        ('edges stay and keep their ends', PROPS, extends(h, o)),
        ('rings skip the edge', PROPS, z3.ForAll([q], z3.Implies(
            z3.And(o.edge(q), q != x, q != o.sym(x)), z3.And(
                h.onext[q] != x, h.onext[q] != o.sym(x),
                z3.Implies(z3.And(o.onext[q] != x, o.onext[q] != o.sym(x)),
                           h.onext[q] == o.onext[q]))),
            patterns=[h.onext[q]])),
        ('nothing else changes', PROPS, z3.And(
            h.count == o.count, z3.ForAll([q], z3.Implies(
                o.alive(q), z3.And(h.rot[q] == o.rot[q],
                                   h.primal[q] == o.primal[q],
                                   same(h.start(q), o.start(q)))),
                patterns=[h.rot[q], h.primal[q]])))]


contract('subdivisional.QuadEdge.delete', ['self'],
         args=delete_args, requires=delete_requires,
         result=changed, ensures=delete_ensures,
         requires_props=PROPS)


# -- flip ------------------------------------------------------------------------
def triangle_on_left(h, x):
    y = h.lnext(x)
    z = h.lnext(y)
    return z3.And(h.lnext(z) == x, y != x, z != x, y != z)


def flip_args():
    h = heap()
    engine().assume(h.rings())
    x = edge(h, 'self')
    return (x,), {}


def corners_differ(h, x):
    s, t = h.start(x), h.start(h.sym(x))
    l, r = h.start(h.lnext(h.lnext(x))), h.start(
        h.lnext(h.lnext(h.sym(x))))
    return z3.And([z3.Not(same(p, q)) for p, q in (
        (s, t), (s, l), (s, r), (t, l), (t, r), (l, r))])


def flip_requires(a):
    x = getattr(a, 'self').id
    remember(a, getattr(a, 'self').heap)
    h = a.heap
    return [('edge of the structure', h.edge(x)),
            ('diagonal of a quadrilateral', z3.And(
                triangle_on_left(h, x), triangle_on_left(h, h.sym(x)),
                corners_differ(h, x)))]


def flip_ensures(a, r):
    h, o, x = a.heap, a.old, getattr(a, 'self').id
    left = o.start(o.lnext(o.lnext(x)))
    right = o.start(o.lnext(o.lnext(o.sym(x))))
    q = fresh_index('q')
    return [
        ('the algebra of edges', PROPS, h.algebra()),
        ('rings have one start', PROPS, h.rings()),
        ('the edge joins the other two corners', PROPS, z3.Or(
            z3.And(same(h.start(x), right), same(h.start(h.sym(x)), left)),
            z3.And(same(h.start(x), left), same(h.start(h.sym(x)), right)))),
        ('triangles on both sides', PROPS, z3.And(
            triangle_on_left(h, x), triangle_on_left(h, h.sym(x)))),
        ('other edges keep their ends', PROPS, z3.And(
            h.count == o.count, z3.ForAll([q], z3.Implies(
                z3.And(o.edge(q), q != x, q != o.sym(x)), z3.And(
                    h.rot[q] == o.rot[q], h.primal[q] == o.primal[q],
                    same(h.start(q), o.start(q)))),
                patterns=[h.rot[q], h.primal[q]])))]


contract('subdivisional.QuadEdge.flip', ['self'],
         args=flip_args, requires=flip_requires,
         result=changed, ensures=flip_ensures,
         requires_props=PROPS)


# -- triangulations ----------------------------------------------------------------
def sound(h):
    """The structure is in order."""
    return z3.And(h.algebra(), h.rings())


def triangulation(h, name):
    return Triangulated(edge(h, name + '_left'), edge(h, name + '_right'),
                        h.context)


def sides(t):
    h = t.heap
    return z3.And(h.edge(t.left_side.id), h.edge(t.right_side.id))


def removal_args():
    h = heap()
    engine().assume(h.rings())
    return (triangulation(h, 'self'), edge(h, 'edge')), {}


def removal_requires(a):
    t = getattr(a, 'self')
    remember(a, t.heap)
    h, r, l, x = a.heap, t.right_side.id, t.left_side.id, a.edge.id
    own = lambda y: z3.Or(x == y, h.sym(x) == y)
    nr, nl = h.sym(h.rprev(r)), h.onext[l]
    return [('edges of the structure', z3.And(h.edge(x), sides(t))),
            ('a side that is deleted has a neighbour', z3.And(
                z3.Implies(own(r), z3.Not(own(nr))),
                z3.Implies(own(l), z3.Not(own(nl)))))]


def removal_ensures(a, r):
    t, h, o, x = getattr(a, 'self'), a.heap, a.old, a.edge.id
    return [
        ('the structure is in order', PROPS, sound(h)),
        ('edges stay and keep their ends', PROPS, extends(h, o)),
        ('the edge is connected to no other', PROPS, isolated(h, x)),
        ('sides are edges left', PROPS, z3.And(sides(t), *[
            z3.And(s != x, s != h.sym(x))
            for s in (t.left_side.id, t.right_side.id)]))]


def no_result(a):
    raise Unsupported('triangulation changed by a caller')


contract('triangular.Triangulation.delete', ['self', 'edge'],
         args=removal_args, requires=removal_requires, result=no_result,
         ensures=removal_ensures, requires_props=PROPS)


# -- base cases --------------------------------------------------------------------
def base_args_(n):
    def args():
        h = heap()
        engine().assume(h.rings())
        engine().heap = h
        points = [fresh_point(h.context) for _ in range(n)]
        # sorted, distinct
        for p, q in zip(points, points[1:]):
            engine().assume(z3.And(
                *[num(p.x).e <= num(q.x).e], z3.Implies(
                    num(p.x).e == num(q.x).e, num(p.y).e < num(q.y).e)))
        return (Triangulations(), SList(SeqView.of(points)), h.context), {}
    return args


def base_requires(a):
    remember(a, engine().heap)
    return []


def base_ensures(a, t):
    h, o = a.heap, a.old
    ps = view(a.sorted_points).expanded().values
    first, last = ps[0], ps[-1]
    xy = lambda p: (num(p.x).e, num(p.y).e)
    posts = [
        ('the structure is in order', PROPS, sound(h)),
        ('edges stay and keep their ends', PROPS, extends(h, o)),
        ('sides are new edges from the first and the last point', PROPS,
         z3.And(sides(t), t.left_side.id >= o.count,
                t.right_side.id >= o.count,
                same(h.start(t.left_side.id), xy(first)),
                same(h.start(t.right_side.id), xy(last))))]
    if len(ps) == 3:
        l = t.left_side.id
        d = det(*ps)
        from .geometry import SPoint
        posts.append((
            'the walk around is counterclockwise or on one line', PROPS,
            z3.And(z3.Implies(d > 0, same(h.start(h.sym(l)), xy(ps[1]))),
                   z3.Implies(d < 0, same(h.start(h.sym(l)), xy(last))),
                   z3.Implies(d != 0, triangle_on_left(h, l)))))
    return posts


for _n, _name in ((2, 'two'), (3, 'three')):
    contract(f'triangular._triangulate_{_name}_points',
             ['cls', 'sorted_points', 'context'], args=base_args_(_n),
             requires=base_requires, result=no_result, ensures=base_ensures,
             requires_props=PROPS)


# -- merging -----------------------------------------------------------------------
def merge_args(n):
    def args():
        h = heap()
        engine().assume(h.rings())
        ts = [triangulation(h, k) for k in ('self', 'other')[:n]]
        return tuple(ts) + ((edge(h, 'base'),) if n == 1 else ()), {}
    return args


def merge_requires(a):
    t = getattr(a, 'self')
    remember(a, t.heap)
    h = a.heap
    return [('edges of the structure', z3.And(sides(t), *[
        sides(a.other)] if hasattr(a, 'other') else [
            h.edge(a.base_edge.id)]))]


def frame(a):
    h, o = a.heap, a.old
    return [('the structure is in order', PROPS, sound(h)),
            ('edges stay and keep their ends', PROPS, extends(h, o))]


def candidate_result(a):
    changed(a)
    if engine().choose(2, 'candidate'):
        return None
    return Reference(a.heap, engine().fresh('candidate', INT))


def candidate_ensures(a, r):
    if r is not None and not isinstance(r, Reference):
        return [('an edge or none', PROPS, F)]
    return frame(a) + [
        ('an edge from the end of the base or none', PROPS, T if r is None
         else a.heap.edge(r.id))]


for _side in ('left', 'right'):
    contract(f'triangular.Triangulation._to_{_side}_candidate',
             ['self', 'base_edge'], args=merge_args(1),
             requires=merge_requires, result=candidate_result,
             ensures=candidate_ensures, requires_props=PROPS)

contract('triangular.Triangulation._connect', ['self', 'base_edge'],
         args=merge_args(1), requires=merge_requires, result=changed,
         ensures=lambda a, r: frame(a), requires_props=PROPS)


def found_result(a):
    changed(a)
    h = a.heap
    for t in (getattr(a, 'self'), a.other):
        t.havoc(None, sides_only=True)
    return Reference(h, engine().fresh('base', INT))


def found_ensures(a, r):
    return frame(a) + [('edges', PROPS, z3.And(
        a.heap.edge(r.id), sides(getattr(a, 'self')), sides(a.other)))]


contract('triangular.Triangulation._find_base_edge', ['self', 'other'],
         args=merge_args(2), requires=merge_requires, result=found_result,
         ensures=found_ensures, requires_props=PROPS)

contract('triangular.Triangulation._merge', ['self', 'other'],
         args=merge_args(2), requires=merge_requires, result=no_result,
         ensures=lambda a, r: frame(a) + [
             ('sides are edges', PROPS, sides(r))], requires_props=PROPS)


def merge_loop(*names):
    def spec(L):
        t = L.entry['self']
        old = L.notes.setdefault('old', t.heap.snapshot())
        for n in ('self', 'other'):
            if n in L.entry:
                L.mutate(n, None)
        for n in names:
            L.havoc(n, lambda _: Reference(
                t.heap, engine().fresh('edge', INT)))
        L.inv('the structure is in order', lambda env, k: sound(t.heap),
              PROPS)
        L.inv('edges stay and keep their ends', lambda env, k: extends(
            t.heap, old), PROPS)
        L.inv('edges', lambda env, k: z3.And(sides(t), *[
            sides(env[n]) for n in ('other',) if n in env], *[
                t.heap.edge(env[n].id) for n in names]), PROPS)
    return LoopSpec(spec)


LOOPS['triangular.Triangulation._connect', 0] = merge_loop('base_edge')
LOOPS['triangular.Triangulation._to_left_candidate', 0] = merge_loop('result')
LOOPS['triangular.Triangulation._to_right_candidate', 0] = merge_loop(
    'result')
LOOPS['triangular.Triangulation._find_base_edge', 0] = merge_loop()


# -- the walk around a triangulation -----------------------------------------------
def walk_args():
    h = heap()
    return (triangulation(h, 'triangulation'),), {}


def walk_requires(a):
    remember(a, a.triangulation.heap)
    return [('edges of the structure', sides(a.triangulation))]


def steps(h, start, seq):
    """From an edge always to the next around the face on the right."""
    b = flat(seq)
    if b is None:
        return T
    i = fresh_index('q')
    return z3.And(
        z3.Implies(b.size > 0, b.at(z3.IntVal(0)).id == start),
        forall([i], z3.Implies(z3.And(i >= 0, i < b.size), h.edge(
            b.at(i).id))),
        forall([i], z3.Implies(
            z3.And(i >= 0, i + 1 < b.size),
            b.at(i + 1).id == h.rprev(b.at(i).id))))


def walk_ensures(a, r):
    h, v = a.heap, iterate_once(r)
    start, n = a.triangulation.left_side.id, ie(v.length())
    b = flat(v)
    if b is None:
        return [('some edge', PROPS, F)]
    return [
        ('the walk starts on the left and goes around', PROPS, z3.And(
            n > 0, steps(h, start, v))),
        ('the walk ends where it starts', PROPS,
         h.rprev(b.at(n - 1).id) == start)]


contract('triangular._to_boundary_edges', ['triangulation'], args=walk_args,
         requires=walk_requires, result=no_result, ensures=walk_ensures,
         requires_props=PROPS)


def walk_loop(L):
    t = L.entry['triangulation']
    h, start = t.heap, t.left_side.id

    def make(old):
        n = fresh_int('walked', 0)
        return SeqView([fresh_block(n.e, lambda: Reference(
            h, engine().fresh('edge', INT)))])
    # the edge at hand is already walked if some is at the start of the loop
    empty = L.notes.setdefault('empty', not view(L.entry['__out__']).parts)
    L.mutate('__out__', make)
    L.havoc('cursor', lambda _: Reference(h, engine().fresh('cursor', INT)))
    L.inv('the walk so far', lambda env, k: steps(
        h, start, env['__out__']), PROPS)

    def here(env, k):
        b, x = flat(env['__out__']), env['cursor'].id
        if b is None:
            return z3.And(h.edge(x), x == start)
        if not empty:
            return z3.And(b.size > 0, x == b.at(b.size - 1).id)
        return z3.And(h.edge(x), x == z3.If(
            b.size == 0, start, h.rprev(b.at(b.size - 1).id)))
    L.inv('the edge at hand is the next', here, PROPS)


LOOPS['triangular._to_boundary_edges', 0] = LoopSpec(walk_loop)


# -- diagonals ---------------------------------------------------------------------
def diagonal_args():
    """The common edge of two triangles."""
    h = heap()
    engine().assume(h.rings())
    x = edge(h, 'diagonal')
    engine().assume(z3.And(triangle_on_left(h, x.id),
                           triangle_on_left(h, h.sym(x.id))))
    s, r, t, l = quadrilateral(h, x.id)
    engine().assume(z3.And(det(s, t, l) > 0, det(t, s, r) > 0))
    return (x,), {}


def quadrilateral(h, x):
    return [h.point(y) for y in (
        x, h.lnext(h.lnext(h.sym(x))), h.sym(x), h.lnext(h.lnext(x)))]


def diagonal_ensures(a, r):
    h, x = a.edge.heap, a.edge.id
    c = quadrilateral(h, x)
    strict = z3.And([det(c[i - 2], c[i - 1], c[i]) > 0 for i in range(4)])
    if not isinstance(r, bool):
        raise Unsupported('result of another type')
    return [('true for strictly convex quadrilaterals only', PROPS,
             strict if r else T)]


contract('factories._is_convex_quadrilateral_diagonal', ['edge'],
         args=diagonal_args, result=no_result, ensures=diagonal_ensures)


# -- increments of the border, indices of lists of edges ---------------------------
def edge_args():
    h = heap()
    engine().assume(h.rings())
    return (edge(h, 'edge'),), {}


def increment_ensures(lo, hi):
    def ensures(a, r):
        return [(f'from {lo} to {hi}', PROPS, z3.And(ie(r) >= lo, ie(r) <= hi)
                 if isinstance(r, (int, SNum)) else F)]
    return ensures


def increment(a):
    return SNum(engine().fresh('increment', INT))


contract('factories._mouth_to_increment', ['edge'], args=edge_args,
         result=increment, ensures=increment_ensures(-1, 3))
contract('factories._ear_to_increment', ['edge'], args=edge_args,
         result=increment, ensures=increment_ensures(-3, 1))


def edges_args():
    h = heap()
    engine().assume(h.rings())
    n = fresh_int('edges', 0)
    return (SeqView([fresh_block(n.e, lambda: edge(h, 'edge'))]),), {}


def sorted_out(L):
    L.mutate('result', lambda old: old)


for _name in 'mouths', 'ears':
    contract(f'factories._to_{_name}_increments', ['edges'], args=edges_args,
             result=no_result, ensures=lambda a, r: [(
                 'a set per increment', PROPS,
                 ie(view(r).length()) >= 5)])
    LOOPS[f'factories._to_{_name}_increments', 0] = LoopSpec(sorted_out)
