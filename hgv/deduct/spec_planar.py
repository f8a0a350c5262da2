"""Contracts of the public factories (hypothesis_geometry.planar)."""
from . import spec_star, spec_hull, spec_quad  # noqa: F401
from .spec_mix import *
from .spec_mix import components, mix_ensures
from .spec_segments import segments_ensures
from .strategies import Abstract, Mapped, OneOf
from .geometry import Class

XYP = ['x_coordinates', 'y_coordinates', 'context']


# -- validation ------------------------------------------------------------------
def rejected(lo, hi, least):
    """The pair of sizes is refused."""
    if hi is None:
        return F
    lo, least, v = ie(lo), ie(least), value_of(hi)
    return z3.And(z3.Not(none_of(hi)),
                  z3.Or(v < least, lo > v, lo < 0))


def below(lo, least):
    return z3.If(ie(lo) < ie(least), z3.IntVal(1), z3.IntVal(0))


def validate_args():
    a = pair('', 'min_size', 'max_size')
    return (a['min_size'], a['max_size'],
            SNum(z3.Int('min_expected_size'))), {}


contract(
    'planar._validate_sizes',
    ['min_size', 'max_size', 'min_expected_size', 'min_size_name',
     'max_size_name'],
    args=validate_args, result=lambda a: None,
    requires=lambda a: [('a least size', ie(a.min_expected_size) >= 0)],
    raises=lambda a: [(ValueError, rejected(
        a.min_size, a.max_size, a.min_expected_size), {'C01'})],
    warns=lambda a: below(a.min_size, a.min_expected_size))


# -- factories -------------------------------------------------------------------
def clamped(v, least):
    v = ie(v)
    return SNum(z3.If(v > least, v, z3.IntVal(least)))


def same_strategy(s, t):
    """Formula: strategies produce the same values from the same choices."""
    if isinstance(s, Abstract) and isinstance(t, Abstract):
        if s.name != t.name:
            return F
        u, v = s.args.__dict__, t.args.__dict__
        return z3.And(*[same_argument(u[k], v[k]) for k in u])
    if isinstance(s, Mapped) and isinstance(t, Mapped):
        if not (s.f is t.f or isinstance(s.f, Class) and isinstance(
                t.f, Class) and s.f.cls is t.f.cls and s.f.ctx is t.f.ctx):
            raise Unsupported('strategies mapped by different functions')
        return same_strategy(s.s, t.s)
    if isinstance(s, OneOf) and isinstance(t, OneOf) and (
            len(s.alternatives) == len(t.alternatives)):
        return z3.And(*map(same_strategy, s.alternatives, t.alternatives))
    raise Unsupported(f'comparison of {type(s).__name__} and '
                      f'{type(t).__name__}')


def same_argument(u, v):
    if u is v:
        return T
    if isinstance(u, SOpt) or isinstance(v, SOpt):
        return z3.And(none_of(u) == none_of(v), z3.Or(
            none_of(u), value_of(u) == value_of(v)))
    if isinstance(u, (int, SNum)) and isinstance(v, (int, SNum)):
        return ie(u) == ie(v)
    return F


class Factory:
    """A public factory over strategies of hypothesis_geometry._core.base.

    groups: [(min, max, least, min of the strategy, max of the strategy)]
    """

    def __init__(self, name, base, groups, cls=None):
        self.name, self.base, self.groups = name, base, groups
        self.cls = cls

    def inner(self, a):
        """Arguments of the strategy the factory stands for."""
        r = dict(x_coordinate_strategy=a.x_coordinates,
                 y_coordinate_strategy=a.y_coordinates, context=a.context)
        for lo, hi, least, to_lo, to_hi in self.groups:
            r[to_lo] = clamped(getattr(a, lo), least)
            r[to_hi] = getattr(a, hi)
        return Args(r)

    def args(self):
        (x, y), kw = base_args(*[(lo, hi) for lo, hi, *_ in self.groups],
                               capped=False)()
        return (x, y), kw

    def again(self, a):
        kw = dict(context=a.context)
        for lo, hi, least, *_ in self.groups:
            kw[lo], kw[hi] = (clamped(getattr(a, lo), least),
                              getattr(a, hi))
        return (a.x_coordinates, a.y_coordinates), kw

    def raises(self, a):
        f = [rejected(getattr(a, lo), getattr(a, hi), least)
             for lo, hi, least, *_ in self.groups]
        return [(ValueError, z3.Or(*f) if f else F, {'C01'})]

    def warns(self, a):
        return z3.Sum([z3.IntVal(0)] + [
            below(getattr(a, lo), least)
            for lo, hi, least, *_ in self.groups])

    def ensures(self, a, r):
        b, more = self.inner(a), []
        if self.cls is not None:
            isa(r, self.cls)
            more, r = [ctx_ok(a, r)], r.vertices
        return CONTRACTS[self.base].ensures(b, r) + more

    def declare(self):
        contract('planar.' + self.name, XYP + [
            n for lo, hi, *_ in self.groups for n in (lo, hi)],
            args=self.args, raises=self.raises, warns=self.warns,
            again=self.again if self.groups else None,
            result=None, ensures=self.ensures, draws=True)


def same(lo, hi, least):
    return lo, hi, least, lo, hi


S = ('min_size', 'max_size')


def contour_factory(name, base, least=None):
    Factory(name, base, [] if least is None else [same(*S, least)],
            SContour).declare()


class Mixes(Factory):
    def kinds(self, a):
        """How many kinds of components are allowed."""
        return z3.Sum([z3.If(z3.And(
            z3.Not(none_of(getattr(a, n))), value_of(getattr(a, n)) == 0)
            if getattr(a, n) is not None else F, 0, 1)
            for n in ('max_points_size', 'max_segments_size',
                      'max_polygons_size')])

    def raises(self, a):
        (cls, f, props), = super().raises(a)
        return [(cls, z3.Or(f, self.kinds(a) < 2), props)]

    def args(self):
        engine().light = self.base
        return super().args()

    def ensures(self, a, r):
        """The counts follow from the counts of the strategy drawn from; the
        other postconditions are those of that strategy, given that it has
        the same other arguments."""
        parts = components(r)
        b = self.inner(a)
        origin = getattr(r, 'origin', None)
        if origin is None or origin[0] != self.base:
            raise Unsupported('mix of another strategy')
        u = origin[1].__dict__
        same_rest = z3.And(*[same_argument(u[k], v)
                             for k, v in b.__dict__.items()
                             if k not in COUNTS])
        return mix_counts(b, r) + [
            ('two components are not empty', {'C04'}, z3.Sum([
                z3.If(ie(size(v)) > 0, 1, 0) for v in parts]) >= 2)] + [
            (name, props, same_rest) for name, props, _ in MIX_REST]


contract('planar.empty_geometries', ['context'],
         args=lambda: ((), dict(context=SContext())), draws=True,
         raises=lambda a: [], warns=lambda a: z3.IntVal(0),
         result=None,
         ensures=lambda a, r: (isa(r, SEmpty), [ctx_ok(a, r)])[1])

Factory('points', 'base.to_point_strategy', []).declare()
Factory('segments', 'base.to_segment_strategy', []).declare()
Factory('boxes', 'base.to_box_strategy', []).declare()
Factory('multipoints', 'base.to_multipoint_strategy',
        [same(*S, 1)]).declare()
Factory('multisegments', 'base.to_multisegment_strategy',
        [same(*S, 2)]).declare()
contour_factory('contours', 'base.to_vertex_sequence_strategy', 3)
contour_factory('convex_contours',
                'base.to_convex_vertex_sequence_strategy', 3)
contour_factory('concave_contours',
                'base.to_concave_vertex_sequence_strategy', 4)
contour_factory('star_contours', 'base.to_star_vertex_sequence_strategy', 3)
contour_factory('triangular_contours',
                'base.to_triangular_vertex_sequence_strategy')
contour_factory('rectangular_contours',
                'base.to_rectangular_vertex_sequence_strategy')
Factory('multicontours', 'base.to_multicontour_strategy', [
    same(*S, 2), same('min_contour_size', 'max_contour_size', 3)]).declare()
Factory('polygons', 'base.to_polygon_strategy', [
    same(*S, 3),
    ('min_holes_size', 'max_holes_size', 0, *HCOUNT),
    same(*HSIZES, 3)]).declare()
Factory('multipolygons', 'base.to_multipolygon_strategy', [
    same(*S, 2), same(*BSIZES, 3),
    ('min_holes_size', 'max_holes_size', 0, *HCOUNT),
    same(*HSIZES, 3)]).declare()
Mixes('mixes', 'base.to_mix_strategy', [
    ('min_points_size', 'max_points_size', 0, *PC),
    ('min_segments_size', 'max_segments_size', 0, *SC),
    ('min_polygons_size', 'max_polygons_size', 0, *GC),
    same(*PB, 3),
    ('min_polygon_holes_size', 'max_polygon_holes_size', 0, *PH),
    same(*PS, 3)]).declare()
