"""Stand-ins around triangulations: the boundary of a triangulated region, and
the containers keyed by its edges.

An edge is an integer; functions give its ends and, for an edge of the
boundary, the corner opposite to it (apex) in the triangle on its left and the
other two sides of that triangle.  A boundary is a predicate on edges.
"""
import z3

from .core import PathEnd, Unsupported, engine, forall, index_context
from .geometry import Geometry, Orientation, SPoint, SSegment, det
from .seqs import equal, flat
from .values import (Block, Elem, INT, REAL, SList, SNum, SeqView, born,
                     fresh_index, fresh_int, ie, num, touch, view)

BOOL = z3.BoolSort()
# lies on a segment; is a side of a triangle; is one of the points; lies
# inside the hull of the points
On = z3.Function('On', *([REAL] * 6), BOOL)
Side = z3.Function('Side', *([REAL] * 4), BOOL)
Given = z3.Function('Given', REAL, REAL, BOOL)
Inner = z3.Function('Inner', REAL, REAL, BOOL)
Which = z3.Function('Which', REAL, REAL, INT)


def xy(*points):
    return [num(c).e for p in points for c in (p.x, p.y)]


def predicate(base):
    f = z3.Function(engine().name(base), INT, BOOL)
    return lambda x: f(x)


def on_axioms():
    """A point after both ends of a segment, in the order of an axis, does
    not lie on it."""
    v = [z3.Real(n) for n in ('qx', 'qy', 'ux', 'uy', 'vx', 'vy')]
    qx, qy, ux, uy, vx, vy = v

    def after(a, b, c, d):
        return z3.Or(a > c, z3.And(a == c, b > d))
    return z3.ForAll(v, z3.Implies(z3.Or(
        z3.And(after(qx, qy, ux, uy), after(qx, qy, vx, vy)),
        z3.And(after(qy, qx, uy, ux), after(qy, qx, vy, vx))),
        z3.Not(On(*v))), patterns=[On(*v)])


def reversal():
    from .spec_base import _NX
    v = [z3.Real(n) for n in ('sx', 'sy', 'tx', 'ty', 'ux', 'uy', 'vx',
                              'vy')]
    return z3.ForAll(v, _NX(*v) == _NX(*v[2:4], *v[:2], *v[4:]),
                     patterns=[_NX(*v)])


class STri:
    """A Delaunay triangulation of distinct points, not all on one line."""
    __hash__ = None

    def __init__(self, ctx, points):
        born(self)
        e = engine()
        if e.ctx or e.merges or e.path_cache.get('triangulation'):
            raise Unsupported('several triangulations')
        e.path_cache['triangulation'] = self
        self.context, self.points = ctx, view(points)
        self.block = flat(self.points)
        if self.block is None:
            raise Unsupported('triangulation of no points')
        self.B, self.dug = None, False
        name = lambda n: e.name('edge_' + n)
        self.start = [z3.Function(name(n), INT, REAL) for n in ('sx', 'sy')]
        self.end = [z3.Function(name(n), INT, REAL) for n in ('ex', 'ey')]
        self.apex = [z3.Function(name(n), INT, REAL) for n in ('ax', 'ay')]
        self.n1, self.n2 = (z3.Function(name(n), INT, INT)
                            for n in ('n1', 'n2'))
        self.corner = z3.Function(name('corner'), INT, INT)
        self.left = z3.Function(name('left'), INT, BOOL)
        e.axiom('On', on_axioms)
        e.axiom('NX reversal', reversal)
        x = z3.Int('x!tri')
        s, t, a = (self.at(f, x) for f in (self.start, self.end, self.apex))
        n1, n2, c = self.n1(x), self.n2(x), self.corner(x)
        same = lambda f, y, p: [g(y) == num(q).e
                                for g, q in zip(f, (p.x, p.y))]
        # edges with a triangle on their left
        e.assume(z3.ForAll([x], z3.Implies(self.left(x), z3.And(
            *same(self.start, n1, s), *same(self.end, n1, a),
            *same(self.start, n2, a), *same(self.end, n2, t),
            Side(*xy(s, a)), Side(*xy(a, t)), det(s, t, a) > 0,
            c >= 0, c < self.block.size, equal(self.block.at(c), a))),
            patterns=[self.apex[0](x), n1, n2]))
        j = fresh_index('q')
        e.assume(forall([j], z3.Implies(
            z3.And(j >= 0, j < self.block.size), Given(*xy(
                self.block.at(j))))))
        v = [z3.Real('qx'), z3.Real('qy')]
        w = Which(*v)
        e.assume(z3.ForAll(v, z3.Implies(Given(*v), z3.And(
            w >= 0, w < self.block.size, *[num(c).e == d for c, d in zip(
                (self.block.at(w).x, self.block.at(w).y), v)])),
            patterns=[Given(*v)]))
        e.assumed.add('Triangulation.delaunay: sides of triangles contain no '
                      'further points (the points are not all on one line)')

    def at(self, f, x):
        return SPoint(self.context, *[SNum(g(x)) for g in f])

    def boundary(self, size):
        """Edges around the hull, in order."""
        e = engine()
        if self.B is not None or e.ctx or e.merges:
            raise Unsupported('boundary edges of a changed triangulation')
        from .geometry import after
        h = fresh_int('hull_edges', 3).e
        e.assume(h <= size)
        edge = z3.Function(e.name('hull_edge'), INT, INT)
        place = z3.Function(e.name('hull_place'), INT, INT)
        spot = z3.Function(e.name('hull_spot'), INT, INT)
        self.B = self.B0 = B = predicate('B')
        i, x = fresh_index('q'), z3.Int('x!tri')
        start = lambda y: self.at(self.start, y)
        e.assume(forall([i], z3.Implies(z3.And(i >= 0, i < h), z3.And(
            B(edge(i)), place(edge(i)) == i,
            equal(self.at(self.end, edge(i)), start(edge(after(h, i)))),
            spot(i) >= 0, spot(i) < self.block.size,
            equal(start(edge(i)), self.block.at(spot(i))))), [edge(i)]))
        e.assume(z3.ForAll([x], z3.Implies(B(x), z3.And(
            place(x) >= 0, place(x) < h, edge(place(x)) == x)),
            patterns=[B(x)]))
        self.all_left()
        # points that start no edge of the hull lie inside of it
        j = fresh_index('q')
        p = self.block.at(j)
        e.assume(forall([j], z3.Implies(z3.And(
            j >= 0, j < self.block.size, forall([i], z3.Implies(
                z3.And(i >= 0, i < h), z3.Not(equal(start(edge(i)), p))))),
            Inner(*xy(p)))))
        from .spec_base import _NX
        v = [z3.Real(n) for n in ('ux', 'uy', 'vx', 'vy')]
        sides = _NX(*xy(start(x), self.at(self.end, x)), *v)
        on = On(*xy(start(x)), *v)
        inside = z3.And(B(x), Inner(*v[:2]), Inner(*v[2:]))
        e.assume(z3.ForAll([x, *v], z3.Implies(inside, sides),
                           patterns=[z3.MultiPattern(sides, B(x))]))
        e.assume(z3.ForAll([x, *v], z3.Implies(inside, z3.Not(on)),
                           patterns=[z3.MultiPattern(on, B(x))]))
        j = fresh_index('k')
        return SeqView([Block(h, j, SEdge(self, SNum(edge(j))))])

    def walk(self):
        """Edges around the region left, in order."""
        from .geometry import after
        e = engine()
        h = fresh_int('walk', 3).e
        edge = z3.Function(e.name('walk_edge'), INT, INT)
        i = fresh_index('q')
        e.assume(forall([i], z3.Implies(z3.And(i >= 0, i < h), z3.And(
            self.B(edge(i)), equal(self.at(self.end, edge(i)), self.at(
                self.start, edge(after(h, i)))))), [edge(i)]))
        j = fresh_index('k')
        self.walked = SeqView([Block(h, j, SEdge(self, SNum(edge(j))))])
        return self.walked

    def all_left(self):
        """Every edge of the boundary has a triangle on its left."""
        x = fresh_index('x')
        engine().assume(z3.ForAll([x], z3.Implies(self.B(x), self.left(x)),
                                  patterns=[self.B(x), self.left(x)]))

    def is_boundary(self, x):
        if self.B is None:
            raise Unsupported('edge of an unknown triangulation')
        return self.B(x)

    def require(self, edge):
        if not engine().entailed(self.is_boundary(ie(edge.id))):
            raise Unsupported('neighbours of an edge that is not on the '
                              'boundary')

    def delete(self, edge):
        e = engine()
        x = ie(edge.id)
        B = self.B
        e.prove('the edge deleted is on the boundary', self.is_boundary(x),
                'pre', {'C09', 'C13', 'C06'})
        touch(self)
        y = fresh_index('q')
        a = self.at(self.apex, x)
        e.prove('the triangle deleted reaches the boundary nowhere else',
                forall([y], z3.Implies(B(y), z3.Not(equal(
                    a, self.at(self.start, y)))), [B(y)]),
                'pre', {'C09', 'C13'})
        n1, n2 = self.n1(x), self.n2(x)
        e.assume(z3.And(self.left(n1), self.left(n2)))
        self.B = lambda y: z3.Or(z3.And(B(y), y != x), y == n1, y == n2)

    def havoc(self, make):
        self.B = predicate('B')
        self.all_left()


class SEdge(Geometry):
    """An edge; `base`: the one it is the first neighbour of."""
    FIELDS = ('id', 'base')

    def __init__(self, tri, id, base=None):
        self.ctx = self.tri = tri
        self.id, self.base = id, base

    def same(self, o):
        return engine().branch(ie(self.id) == ie(o.id))

    @property
    def start(self):
        return self.tri.at(self.tri.start, ie(self.id))

    @property
    def end(self):
        return self.tri.at(self.tri.end, ie(self.id))

    @property
    def left_from_start(self):
        self.tri.require(self)
        x = ie(self.id)
        return SEdge(self.tri, SNum(self.tri.n1(x)), SNum(x))

    @property
    def right_from_end(self):
        if self.base is None:
            raise Unsupported('edge.right_from_end')
        return SEdge(self.tri, SNum(self.tri.n2(ie(self.base))))

    def orientation_of(self, point):
        return self.tri.context.angle_orientation(self.start, self.end, point)

    def __getattr__(self, name):
        if name.startswith('__') or name in ('ctx', 'tri', 'id', 'base'):
            raise AttributeError(name)
        raise Unsupported(f'edge.{name}')


class STriangulation:
    """The class; checked to have the methods stood in for."""

    def __init__(self, real):
        if not all(hasattr(real, n) for n in ('delaunay', 'delete')):
            raise Unsupported('Triangulation has other methods')
        self.real = real

    def delaunay(self, points, context):
        return STri(context, points)

    def __getitem__(self, item):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported(f'Triangulation.{name}')


def edge_id(v):
    if not isinstance(v, SEdge):
        raise Unsupported('container of something else than edges')
    return ie(v.id)


class SDict:
    """Edges with their neighbours."""
    __hash__ = None

    def __init__(self, pairs):
        born(self)
        e = engine()
        if e.ctx or e.merges:
            raise Unsupported('dictionary in an index context')
        self.keys_, self.tri = (lambda x: z3.BoolVal(False)), None
        b = flat(pairs)
        if b is None:
            return
        if not isinstance(b.template, tuple):
            raise Unsupported('dictionary')
        self.check(*b.template)
        self.keys_ = K = predicate('K')
        place = z3.Function(e.name('key_place'), INT, INT)
        j, x = fresh_index('q'), z3.Int('x!tri')
        key = edge_id(b.at(j)[0])
        e.assume(forall([j], z3.Implies(z3.And(j >= 0, j < b.size), K(key))))
        e.assume(z3.ForAll([x], z3.Implies(K(x), z3.And(
            place(x) >= 0, place(x) < b.size,
            edge_id(b.at(place(x))[0]) == x)), patterns=[K(x)]))

    def check(self, key, value):
        x = edge_id(key)
        tri = key.tri
        if self.tri not in (None, tri) or not isinstance(
                value, tuple) or len(value) != 2 or not all(
                    edge_id(v).eq(n(x))
                    for v, n in zip(value, (tri.n1, tri.n2))):
            raise Unsupported('dictionary of something else than neighbours')
        self.tri = tri
        return x

    def __setitem__(self, key, value):
        x, K = self.check(key, value), self.keys_
        touch(self)
        self.keys_ = lambda y: z3.Or(K(y), y == x)

    def __contains__(self, key):
        return engine().branch(self.keys_(edge_id(key)))

    def __getitem__(self, key):
        if key not in self:
            raise KeyError(key)
        return tuple(SEdge(self.tri, SNum(n(edge_id(key))))
                     for n in (self.tri.n1, self.tri.n2))

    def pop(self, key):
        r = self[key]
        x, K = edge_id(key), self.keys_
        touch(self)
        self.keys_ = lambda y: z3.And(K(y), y != x)
        return r

    def havoc(self, make):
        self.keys_ = predicate('K')


class SKeyed:
    """A set of edges ordered by some key: edges of equal keys may get
    lost."""
    __hash__ = None
    accepts_star = True

    def __init__(self, values):
        born(self)
        e = engine()
        if e.ctx or e.merges:
            raise Unsupported('keyed set in an index context')
        self.tri = None
        b = flat(values)
        if b is None:
            self.n, self.members = z3.IntVal(0), lambda x: z3.BoolVal(False)
            return
        self.tri = b.template.tri if edge_id(b.template) is not None else 0
        self.members = C = predicate('C')
        place = z3.Function(e.name('keyed_place'), INT, INT)
        x = z3.Int('x!tri')
        e.assume(z3.ForAll([x], z3.Implies(C(x), z3.And(
            place(x) >= 0, place(x) < b.size,
            edge_id(b.at(place(x))) == x)), patterns=[C(x)]))
        self.n = fresh_int('nkeyed', 0).e
        e.assume(self.n <= b.size)

    def popmax(self):
        e = engine()
        from .heap import Heap
        if isinstance(self.tri, Heap):
            raise Unsupported('members of a set of edges')
        if not e.branch(self.n > 0):
            raise ValueError('empty set')
        touch(self)
        x, C = fresh_int('popped').e, self.members
        e.assume(C(x))
        self.members = lambda y: z3.And(C(y), y != x)
        self.n = z3.simplify(self.n - 1)
        return SEdge(self.tri, SNum(x))

    def add(self, v):
        e = engine()
        from .heap import Reference
        if isinstance(v, Reference):
            # members are not asked for
            if self.tri is not None and self.tri is not v.heap:
                raise Unsupported('set of edges of several kinds')
            self.tri = v.heap
            return
        x, C = edge_id(v), self.members
        if self.tri is None:
            self.tri = v.tri
        touch(self)
        new = e.fresh('added', BOOL)
        e.assume(z3.Implies(C(x), z3.Not(new)))
        self.members = lambda y: z3.Or(C(y), z3.And(new, y == x))
        self.n = z3.If(new, self.n + 1, self.n)

    def havoc(self, make):
        self.members = predicate('C')
        self.n = fresh_int('nkeyed', 0).e


class keyed_set:
    """dendroid's red_black.set_."""
    accepts_star = True

    def __call__(self, *values, key=None):
        return SKeyed(SeqView.of(list(values)))

    def star(self, values, key=None):
        return SKeyed(values)


class STree:
    """locus's segmental.Tree."""

    def __init__(self, segments, *, context):
        self.segments = view(segments)

    def nearest_segment(self, s):
        """Some segment t; if the ends of s are on no segment, and the
        segments' ends not on s, t crosses or overlaps s if any does."""
        from .spec_base import NX
        e = engine()
        b = flat(self.segments)
        if b is None or not e.entailed(b.size > 0):
            raise Unsupported('tree of no segments')
        k = fresh_int('nearest', 0).e
        e.assume(k < b.size)
        t = b.at(k)
        if e.ctx:
            return t
        m = fresh_index('q')
        c = b.at(m)
        off = lambda p: z3.Not(On(*xy(p), *xy(c.start, c.end)))
        inside = z3.And(m >= 0, m < b.size)
        e.assume(z3.Implies(z3.And(
            z3.Or(Side(*xy(s.start, s.end)), Side(*xy(s.end, s.start))),
            forall([m], z3.Implies(inside, z3.And(
                off(s.start), off(s.end), Given(*xy(c.start)),
                Given(*xy(c.end))))), NX(t, s)),
            forall([m], z3.Implies(inside, NX(c, s)))))
        e.assumed.add('segmental.Tree.nearest_segment: a segment no other '
                      'one of the tree is nearer than')
        return t
