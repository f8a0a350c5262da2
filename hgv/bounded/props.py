"""Per-property oracles over drawn values, from the property statements."""
from ..oracle import (
    contour_errors, edges, interiors_disjoint, locate, on_segment, orient,
    polygon_errors, pt, regions_errors, segment_region_errors,
    segments_errors, area2, crossing,
)
from .drive import FACTORIES, MIX_COMPONENTS
from .view import (
    all_points, contour_vertices, mix_parts, polygon_view, segment_pair,
)

CONTOUR_FACTORIES = ('contours', 'convex_contours', 'concave_contours',
                     'star_contours')
ALL_CONTOURS = (*CONTOUR_FACTORIES, 'triangular_contours',
                'rectangular_contours')


def bounds(case, prefix_min, prefix_max, intrinsic):
    lo = case.kwargs.get(prefix_min, intrinsic)
    return max(lo, intrinsic), case.kwargs.get(prefix_max)


def bound_error(what, size, lo, hi):
    if size < lo or (hi is not None and size > hi):
        return [f'{what} is {size}, not in [{lo}, {hi}]']
    return []


def _group(case, index):
    return bounds(case, *FACTORIES[case.factory][index])


def c02(o):
    case, v = o.case, o.value
    f = case.factory
    if f == 'multipoints':
        return bound_error('number of points', len(v.points), *_group(case, 0))
    if f == 'multisegments':
        return bound_error('number of segments', len(v.segments),
                           *_group(case, 0))
    if f == 'multicontours':
        result = bound_error('number of contours', len(v), *_group(case, 0))
        for c in v:
            result += bound_error('contour size', len(c.vertices),
                                  *_group(case, 1))
        return result
    return bound_error('number of vertices', len(v.vertices), *_group(case, 0))


def _polygon_sizes(case, polygon, border_index):
    result = bound_error('border size', len(polygon.border.vertices),
                         *_group(case, border_index))
    result += bound_error('number of holes', len(polygon.holes),
                          *_group(case, border_index + 1))
    for h in polygon.holes:
        result += bound_error('hole size', len(h.vertices),
                              *_group(case, border_index + 2))
    return result


def c03(o):
    if o.case.factory == 'polygons':
        return _polygon_sizes(o.case, o.value, 0)
    result = bound_error('number of polygons', len(o.value.polygons),
                         *_group(o.case, 0))
    for p in o.value.polygons:
        result += _polygon_sizes(o.case, p, 1)
    return result


def c04(o):
    points, segments, polygons = mix_parts(o.value, o.context)
    counts = (len(points), len(segments), len(polygons))
    result = []
    if sum(map(bool, counts)) < 2:
        result.append(f'fewer than two non-empty components: {counts}')
    for i, (name, size) in enumerate(zip(MIX_COMPONENTS, counts)):
        result += bound_error('number of ' + name, size, *_group(o.case, i))
    for p in polygons:
        result += _polygon_sizes(o.case, p, 3)
    c, v = o.context, o.value
    for what, part, none, one, many, size in (
        ('discrete', v.discrete, c.empty_cls, None, c.multipoint_cls,
         counts[0]),
        ('linear', v.linear, c.empty_cls, c.segment_cls, c.multisegment_cls,
         counts[1]),
        ('shaped', v.shaped, c.empty_cls, c.polygon_cls, c.multipolygon_cls,
         counts[2]),
    ):
        expected = (none if size == 0
                    else one if size == 1 and one is not None else many)
        if not isinstance(part, expected):
            result.append(f'{what} component with {size} elements is a '
                          f'{type(part).__name__}')
        elif size == 1 and one is None and not part.points:
            result.append('empty multipoint')
    return result


def c05(o):
    f = o.case.factory
    exact = f not in ('contours', 'convex_contours', 'multisegments', 'mixes')
    result = []

    def check(points, exact):
        for p in points:
            for axis, value, seen in (('x', p.x, o.xs_seen),
                                      ('y', p.y, o.ys_seen)):
                if exact and value not in seen:
                    result.append(f'{axis} coordinate {value} was not '
                                  f'produced by the {axis} strategy')
                elif not seen or not min(seen) <= value <= max(seen):
                    result.append(f'{axis} coordinate {value} is outside of '
                                  f'the produced {axis} range')
    if f == 'boxes':
        class Corner:
            pass
        lo, hi = Corner(), Corner()
        lo.x, lo.y, hi.x, hi.y = (o.value.min_x, o.value.min_y,
                                  o.value.max_x, o.value.max_y)
        check([lo, hi], True)
    elif f == 'mixes':
        points, segments, polygons = mix_parts(o.value, o.context)
        from .view import polygon_points
        check(points, True)
        check([p for s in segments for p in (s.start, s.end)], False)
        for p in polygons:
            check(polygon_points(p), True)
    else:
        check(all_points(o.value, f, o.context), exact)
    return result[:3]


def c06(o):
    return []


def c07(o):
    f, v = o.case.factory, o.value
    if f == 'boxes':
        return ([] if v.min_x < v.max_x and v.min_y < v.max_y
                else ['box is degenerate'])
    if f == 'segments':
        return ([] if pt(v.start) != pt(v.end) else ['segment is degenerate'])
    if f == 'multipoints':
        ps = [pt(p) for p in v.points]
        return [] if len(set(ps)) == len(ps) else ['points are repeated']
    if f == 'points':
        return []
    vs = contour_vertices(v)
    if f == 'triangular_contours':
        return ([] if len(vs) == 3 and orient(*vs) > 0
                else ['not a counterclockwise triangle'])
    if len(vs) != 4:
        return ['rectangle does not have four vertices']
    a, b, c, d = vs
    return ([] if a[0] < b[0] and a[1] < d[1]
            and b == (c[0], a[1]) and c == (b[0], d[1]) and d == (a[0], c[1])
            else ['not a counterclockwise rectangle from lower left corner'])


def c08(o):
    vs = contour_vertices(o.value)
    turns = [orient(vs[i - 2], vs[i - 1], vs[i]) for i in range(len(vs))]
    if o.case.factory == 'concave_contours':
        return [] if min(turns) < 0 else ['no vertex turns right']
    if min(turns) <= 0:
        return ['not strictly convex']
    # winds once: a single change of direction along x
    signs = []
    for a, b in edges(vs):
        s = (a < b)
        if not signs or signs[-1] != s:
            signs.append(s)
    if len(signs) > 1 and signs[0] == signs[-1]:
        signs.pop()
    return [] if len(signs) == 2 else ['winds more than once']


def c09(o):
    if o.case.factory == 'multicontours':
        return [f'contour {i}: {e}' for i, c in enumerate(o.value)
                for e in contour_errors(contour_vertices(c))]
    return contour_errors(contour_vertices(o.value))


def centroid(vs):
    from fractions import Fraction
    a = x = y = 0
    for p, q in edges(vs):
        w = p[0] * q[1] - p[1] * q[0]
        a += w
        x += (p[0] + q[0]) * w
        y += (p[1] + q[1]) * w
    return Fraction(x) / (3 * a), Fraction(y) / (3 * a)


def c10(o):
    vs = contour_vertices(o.value)
    result = contour_errors(vs)
    if result:
        return result
    c = centroid(vs)
    if any(orient(c, a, b) < 0 for a, b in edges(vs)):
        return [f'centroid {c} does not see some vertex']
    return []


def c11(o):
    return segments_errors([segment_pair(s) for s in o.value.segments])


def _safe(vs):
    return len(vs) > 2 and area2(vs) != 0


def _regions(views, what):
    result = []
    for i in range(len(views)):
        for j in range(i):
            if _safe(views[i]) and _safe(views[j]):
                result += regions_errors(views[j], views[i],
                                         f'{what} {j} and {i}')
    return result


def c12(o):
    return _regions([contour_vertices(c) for c in o.value], 'contours')


def c13(o):
    return polygon_errors(*polygon_view(o.value))


def polygons_separation(polygons):
    views = [polygon_view(p) for p in polygons]
    result = _regions([v[0] for v in views], 'polygons')
    for i, (b, hs) in enumerate(views):
        es = [e for h in hs for e in edges(h)]
        if es:
            for j, (c, gs) in enumerate(views):
                if i != j:
                    fs = edges(c) + [e for g in gs for e in edges(g)]
                    r = crossing(es, fs)
                    if r:
                        result.append(f'polygons {i} and {j} hole edges {r}')
    return result


def c14(o):
    return polygons_separation(o.value.polygons)


def c15(o):
    points, segments, polygons = mix_parts(o.value, o.context)
    ps = [pt(p) for p in points]
    ss = [segment_pair(s) for s in segments]
    result = []
    if len(set(ps)) != len(ps):
        result.append('points are repeated')
    result += segments_errors(ss)
    result += polygons_separation(polygons)
    views = [polygon_view(p) for p in polygons]
    for p in ps:
        if any(on_segment(a, b, p) for a, b in ss):
            result.append(f'point {p} lies on a segment')
        for border, holes in views:
            if locate(p, border) >= 0 and not any(
                    locate(p, h) > 0 for h in holes):
                result.append(f'point {p} lies in a polygon')
    for s in ss:
        for border, holes in views:
            es = [e for h in holes for e in edges(h)]
            r = crossing([s], es)
            if r:
                result.append(f'segment and hole edge {r}')
            elif _safe(border):
                result += segment_region_errors(s, border,
                                                'segment and polygon')
    return result[:4]


def _instances(value, factory, c):
    def is_(g, cls, what):
        if type(g) is not cls:
            yield f'{what} is a {type(g).__module__}.{type(g).__qualname__}'

    def points(ps):
        for p in ps:
            yield from is_(p, c.point_cls, 'point')

    def segment(s):
        yield from is_(s, c.segment_cls, 'segment')
        yield from points((s.start, s.end))

    def contour(k):
        yield from is_(k, c.contour_cls, 'contour')
        yield from points(k.vertices)

    def polygon(p):
        yield from is_(p, c.polygon_cls, 'polygon')
        for k in (p.border, *p.holes):
            yield from contour(k)

    if factory == 'empty_geometries':
        yield from is_(value, c.empty_cls, 'empty geometry')
    elif factory == 'points':
        yield from points([value])
    elif factory == 'boxes':
        yield from is_(value, c.box_cls, 'box')
    elif factory == 'segments':
        yield from segment(value)
    elif factory == 'multipoints':
        yield from is_(value, c.multipoint_cls, 'multipoint')
        yield from points(value.points)
    elif factory == 'multisegments':
        yield from is_(value, c.multisegment_cls, 'multisegment')
        for s in value.segments:
            yield from segment(s)
    elif factory == 'multicontours':
        for k in value:
            yield from contour(k)
    elif factory == 'polygons':
        yield from polygon(value)
    elif factory == 'multipolygons':
        yield from is_(value, c.multipolygon_cls, 'multipolygon')
        for p in value.polygons:
            yield from polygon(p)
    elif factory == 'mixes':
        yield from is_(value, c.mix_cls, 'mix')
        d, l, s = value.discrete, value.linear, value.shaped
        if type(d) is not c.empty_cls:
            yield from is_(d, c.multipoint_cls, 'discrete component')
            yield from points(d.points)
        if type(l) is c.segment_cls:
            yield from segment(l)
        elif type(l) is not c.empty_cls:
            yield from is_(l, c.multisegment_cls, 'linear component')
            for x in l.segments:
                yield from segment(x)
        if type(s) is c.polygon_cls:
            yield from polygon(s)
        elif type(s) is not c.empty_cls:
            yield from is_(s, c.multipolygon_cls, 'shaped component')
            for p in s.polygons:
                yield from polygon(p)
    else:
        yield from contour(value)


def c16(o):
    return list(_instances(o.value, o.case.factory, o.context))[:3]


EVERY = tuple(FACTORIES)
# property -> ((factory, weight), ...), oracle
CHECKS = {
    'C02': ((('multipoints', 1), ('multisegments', 3), ('contours', 3),
             ('convex_contours', 3), ('concave_contours', 3),
             ('star_contours', 3), ('multicontours', 4)), c02),
    'C03': ((('polygons', 3), ('multipolygons', 2)), c03),
    'C04': ((('mixes', 1),), c04),
    'C05': (tuple((f, 1) for f in EVERY if f != 'empty_geometries'), c05),
    'C06': (tuple((f, 6 if f == 'polygons' else
                   3 if f in ('mixes', 'multipolygons', 'multisegments',
                              'multicontours') else 1)
                  for f in EVERY), c06),
    'C07': ((('points', 1), ('boxes', 2), ('segments', 2), ('multipoints', 2),
             ('triangular_contours', 2), ('rectangular_contours', 2)), c07),
    'C08': ((('convex_contours', 2), ('concave_contours', 1)), c08),
    'C09': ((('contours', 3), ('convex_contours', 1),
             ('concave_contours', 3), ('star_contours', 2),
             ('multicontours', 2), ('triangular_contours', 1),
             ('rectangular_contours', 1)), c09),
    'C10': ((('star_contours', 1),), c10),
    'C11': ((('multisegments', 1),), c11),
    'C12': ((('multicontours', 1),), c12),
    'C13': ((('polygons', 1),), c13),
    'C14': ((('multipolygons', 1),), c14),
    'C15': ((('mixes', 1),), c15),
    'C16': (tuple((f, 1) for f in EVERY), c16),
}
