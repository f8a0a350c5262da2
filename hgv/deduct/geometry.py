"""Symbolic geometry objects and the context they are built by."""
import enum

import z3

from .core import Unsupported, engine, forall
from .seqs import equal, key_le
from .values import (Block, Elem, REAL, SEnum, SList, SNum, SeqView, Sym, each, fresh_index,
                     ie, num, view)


class Orientation(enum.IntEnum):
    CLOCKWISE = -1
    COLLINEAR = 0
    COUNTERCLOCKWISE = 1


class Geometry(Sym):
    def equal_formula(self, o):
        if type(o) is not type(self):
            return z3.BoolVal(False)
        return z3.And(*[equal(getattr(self, f), getattr(o, f))
                        for f in self.FIELDS])

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not type(self):
            return NotImplemented
        return engine().branch(self.equal_formula(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None


class SPoint(Geometry):
    FIELDS = ('x', 'y')

    def __init__(self, ctx, x, y):
        self.ctx, self.x, self.y = ctx, x, y

    def sort_key(self):
        return (self.x, self.y)

    def __lt__(self, o):
        return engine().branch(z3.And(
            key_le(self, o), z3.Not(self.equal_formula(o))))


class SSegment(Geometry):
    FIELDS = ('start', 'end')

    def __init__(self, ctx, start, end):
        self.ctx, self.start, self.end = ctx, start, end


class SBox(Geometry):
    FIELDS = ('min_x', 'max_x', 'min_y', 'max_y')

    def __init__(self, ctx, min_x, max_x, min_y, max_y):
        self.ctx = ctx
        self.min_x, self.max_x, self.min_y, self.max_y = (
            min_x, max_x, min_y, max_y)


class SContour(Geometry):
    FIELDS = ('vertices', 'axis')

    def __init__(self, ctx, vertices, axis=None):
        self.ctx, self.vertices = ctx, view(vertices)
        self.axis = axis           # ghost

    def equal_formula(self, o):
        raise Unsupported('equality of contours')


class SPolygon(Geometry):
    FIELDS = ('border', 'holes')

    def __init__(self, ctx, border, holes):
        self.ctx, self.border, self.holes = ctx, border, view(holes)
        self.sound = False         # made by a function promising it


class SMultipoint(Geometry):
    FIELDS = ('points',)

    def __init__(self, ctx, points):
        self.ctx, self.points = ctx, view(points)


class SMultisegment(Geometry):
    FIELDS = ('segments',)

    def __init__(self, ctx, segments):
        self.ctx, self.segments = ctx, view(segments)


class SMultipolygon(Geometry):
    FIELDS = ('polygons',)

    def __init__(self, ctx, polygons):
        self.ctx, self.polygons = ctx, view(polygons)


class SMix(Geometry):
    FIELDS = ('discrete', 'linear', 'shaped')

    def __init__(self, ctx, discrete, linear, shaped):
        self.ctx = ctx
        self.discrete, self.linear, self.shaped = discrete, linear, shaped


class SEmpty(Geometry):
    def __init__(self, ctx):
        self.ctx = ctx

    @property
    def identity(self):
        return self


class Class:
    """A geometry class of a context."""

    def __init__(self, ctx, cls):
        self.ctx, self.cls = ctx, cls

    def __call__(self, *args, **kwargs):
        return self.cls(self.ctx, *args, **kwargs)

    def __getitem__(self, item):
        return self


Before, After = (z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort())
                 for n in ('before', 'after'))


def neighbours():
    n, j = z3.Int('n!nb'), z3.Int('j!nb')
    return z3.And(
        z3.ForAll([n, j], Before(n, j) == z3.If(j == 0, n - 1, j - 1),
                  patterns=[Before(n, j)]),
        z3.ForAll([n, j], After(n, j) == z3.If(j == n - 1, 0, j + 1),
                  patterns=[After(n, j)]))


def before(n, j):
    """Cyclic predecessor of position j of n (a function symbol, so that
    facts on edges are matched by edges, not by vertices)."""
    engine().axiom('neighbours', neighbours)
    return Before(n, j)


def after(n, j):
    engine().axiom('neighbours', neighbours)
    return After(n, j)


def edges(vertices):
    """Edges in the order of ground's contour_segments."""
    v = view(vertices)
    c = v.expanded()
    if c is not None:
        vs = c.values
        return SeqView.of([(vs[i - 1], vs[i]) for i in range(len(vs))])
    if len(v.parts) != 1:
        raise Unsupported('edges of a composite sequence')
    b = v.parts[0]
    j = fresh_index('k')
    prev = before(b.size, j)
    return SeqView([Block(b.size, j, (b.at(prev), b.at(j)))])


_D = z3.Function('det', *([REAL] * 6), REAL)


def det(a, b, c, define=False):
    """Cross product of b - a and c - a.

    A symbol, alternating in its arguments; `define` adds its polynomial for
    these (ground) arguments.
    """
    e = engine()

    def alternating():
        v = [z3.Real(n) for n in ('ax', 'ay', 'bx', 'by', 'cx', 'cy')]
        (p, q, r) = v[:2], v[2:4], v[4:]
        d = _D(*v)
        return z3.ForAll(v, z3.And(d == _D(*q, *r, *p),
                                   d == -_D(*q, *p, *r)), patterns=[d])
    e.axiom('det', alternating)
    ax, ay, bx, by, cx, cy = (num(t).e for t in (a.x, a.y, b.x, b.y,
                                                 c.x, c.y))
    d = _D(ax, ay, bx, by, cx, cy)
    if define:
        e.assume(d == (bx * cy - bx * ay - ax * cy
                       - by * cx + by * ax + ay * cx))
    return d


class SContext:
    """An arbitrary context with exact arithmetic."""

    def __init__(self, name='context'):
        self.name = name
        for attr, cls in dict(
                point_cls=SPoint, segment_cls=SSegment, contour_cls=SContour,
                polygon_cls=SPolygon, box_cls=SBox,
                multipoint_cls=SMultipoint, multisegment_cls=SMultisegment,
                multipolygon_cls=SMultipolygon, mix_cls=SMix,
                empty_cls=SEmpty).items():
            setattr(self, attr, Class(self, cls))
        self.empty = SEmpty(self)
        self.zero = SNum(z3.RealVal(0))

    def __getattr__(self, name):
        raise Unsupported(f'context.{name}')

    def angle_orientation(self, vertex, first, second):
        e = engine()
        d = det(vertex, first, second)
        if e.branch(d > 0):
            return Orientation.COUNTERCLOCKWISE
        if e.branch(d < 0):
            return Orientation.CLOCKWISE
        return Orientation.COLLINEAR

    def segments_relation(self, left, right):
        """DISJOINT or TOUCH exactly if they neither cross nor overlap."""
        from .spec_base import NX
        e = engine()
        r = e.fresh('relation', z3.IntSort())
        e.assume(z3.And(r >= 0, r <= 10, NX(left, right) == (r <= 1)))
        return SEnum(r)

    def locate_point_in_point_point_point_circle(self, *points):
        """Anything."""
        from .stubs import Location
        options = list(Location)
        return options[engine().choose(len(options), 'place')]

    def contour_segments(self, contour):
        es = edges(contour.vertices)
        parts = []
        for p in es.parts:
            if isinstance(p, Elem):
                parts.append(Elem(SSegment(self, *p.value)))
            else:
                parts.append(Block(p.size, p.var,
                                   SSegment(self, *p.template), p.off))
        return SeqView(parts)

    def multipoint_centroid(self, multipoint):
        return self.centroid(multipoint.points, 'points')

    def region_centroid(self, contour):
        return self.centroid(contour.vertices, 'region')

    def centroid(self, points, kind):
        """Some point (`of` and `kind` are ghosts)."""
        e = engine()
        if not e.entailed(ie(points.length()) > 0):
            if not e.branch(ie(points.length()) > 0):
                raise ZeroDivisionError('centroid of nothing')
        r = SPoint(self, SNum(e.fresh(kind + '_x', REAL)),
                   SNum(e.fresh(kind + '_y', REAL)))
        r.of, r.kind = points, kind
        e.path_cache.setdefault('centroids', []).append(r)
        return r

    def points_convex_hull(self, points):
        from .spec_base import convex_hull
        return convex_hull(self, points)


def same_context(v, ctx):
    """Structural check: every geometry in v was built by ctx."""
    if isinstance(v, Geometry):
        return v.ctx is ctx and all(
            same_context(getattr(v, f), ctx) for f in v.FIELDS)
    if isinstance(v, (SList, SeqView)):
        return all(same_context(
            p.value if isinstance(p, Elem) else p.template, ctx)
            for p in view(v).parts)
    if isinstance(v, (tuple, list)):
        return all(same_context(x, ctx) for x in v)
    return True
