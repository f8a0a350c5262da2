"""Uniform views of drawn geometries."""
from ..oracle import edges, pt


def contour_vertices(contour):
    return [pt(v) for v in contour.vertices]


def segment_pair(segment):
    return (pt(segment.start), pt(segment.end))


def polygon_view(polygon):
    return (contour_vertices(polygon.border),
            [contour_vertices(h) for h in polygon.holes])


def polygon_edges(view):
    border, holes = view
    result = edges(border)
    for h in holes:
        result = result + edges(h)
    return result


def mix_parts(mix, context):
    """(points, segments, polygons) as geometry objects."""
    def kind(g, *names):
        return type(g) in [getattr(context, n) for n in names] or isinstance(
            g, tuple(getattr(context, n) for n in names))
    d, l, s = mix.discrete, mix.linear, mix.shaped
    points = [] if kind(d, 'empty_cls') else list(d.points)
    segments = ([] if kind(l, 'empty_cls')
                else [l] if kind(l, 'segment_cls') else list(l.segments))
    polygons = ([] if kind(s, 'empty_cls')
                else [s] if kind(s, 'polygon_cls') else list(s.polygons))
    return points, segments, polygons


def all_points(value, factory, context):
    """Every point nested in a drawn value."""
    if factory == 'empty_geometries':
        return []
    if factory == 'points':
        return [value]
    if factory == 'multipoints':
        return list(value.points)
    if factory == 'segments':
        return [value.start, value.end]
    if factory == 'multisegments':
        return [p for s in value.segments for p in (s.start, s.end)]
    if factory == 'multicontours':
        return [v for c in value for v in c.vertices]
    if factory == 'polygons':
        return polygon_points(value)
    if factory == 'multipolygons':
        return [v for p in value.polygons for v in polygon_points(p)]
    if factory == 'mixes':
        points, segments, polygons = mix_parts(value, context)
        return (points + [p for s in segments for p in (s.start, s.end)]
                + [v for p in polygons for v in polygon_points(p)])
    if factory == 'boxes':
        return []
    return list(value.vertices)


def polygon_points(polygon):
    return [*polygon.border.vertices,
            *(v for h in polygon.holes for v in h.vertices)]


def show(value, factory, context):
    try:
        return repr(value)
    except Exception as error:  # custom classes
        return f'<{type(value).__name__}: {error}>'
