"""Exact geometry oracle, written from the property statements only.

Works on coordinate tuples with exact (int / Fraction) arithmetic; shares no
code with hypothesis_geometry, ground or bentley_ottmann.
"""
from fractions import Fraction


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def pt(p):
    return (p.x, p.y)


def on_segment(a, b, p):
    return (
        min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
        and orient(a, b, p) == 0
    )


def relation(s, t):
    """'disjoint' | 'touch' | 'cross' | 'overlap' of two segments."""
    (a, b), (c, d) = s, t
    if (
        max(a[0], b[0]) < min(c[0], d[0])
        or max(c[0], d[0]) < min(a[0], b[0])
        or max(a[1], b[1]) < min(c[1], d[1])
        or max(c[1], d[1]) < min(a[1], b[1])
    ):
        return 'disjoint'
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 == o2 == o3 == o4 == 0:
        k = 0 if a[0] != b[0] or c[0] != d[0] else 1
        lo = max(min(a[k], b[k]), min(c[k], d[k]))
        hi = min(max(a[k], b[k]), max(c[k], d[k]))
        return 'disjoint' if lo > hi else ('touch' if lo == hi else 'overlap')
    if o1 * o2 < 0 and o3 * o4 < 0:
        return 'cross'
    if (
        on_segment(a, b, c) or on_segment(a, b, d)
        or on_segment(c, d, a) or on_segment(c, d, b)
    ):
        return 'touch'
    return 'disjoint'


def bad_relation(s, t):
    r = relation(s, t)
    return r if r in ('cross', 'overlap') else None


def edges(vs):
    return [(vs[i - 1], vs[i]) for i in range(len(vs))]


def area2(vs):
    return sum(
        vs[i - 1][0] * vs[i][1] - vs[i - 1][1] * vs[i][0]
        for i in range(len(vs))
    )


def contour_errors(vs, ccw=True):
    n = len(vs)
    if n < 3:
        return ['fewer than three vertices']
    result = []
    if len(set(vs)) != n:
        result.append('repeated vertex')
    if any(orient(vs[i - 2], vs[i - 1], vs[i]) == 0 for i in range(n)):
        result.append('three consecutive vertices are collinear')
    es = edges(vs)
    for i in range(n):
        for j in range(i + 1, n):
            r = relation(es[i], es[j])
            adjacent = j == i + 1 or (i == 0 and j == n - 1)
            if r in ('cross', 'overlap') or (r == 'touch' and not adjacent):
                result.append(f'edges {i} and {j} {r}')
                break
        if result:
            break
    if (area2(vs) > 0) is not ccw:
        result.append(
            f'orientation is not {"counterclockwise" if ccw else "clockwise"}'
        )
    return result


def locate(p, vs):
    """1 inside, 0 on the boundary, -1 outside of a simple contour."""
    inside = False
    for a, b in edges(vs):
        if on_segment(a, b, p):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]) and (b[1] > a[1]) == (
            orient(a, b, p) > 0
        ):
            inside = not inside
    return 1 if inside else -1


def crossing(es, fs):
    for s in es:
        for t in fs:
            r = bad_relation(s, t)
            if r:
                return r, s, t
    return None


def _probes(vs, others):
    for a, b in edges(vs):
        cuts = sorted({a, b, *(v for v in others if on_segment(a, b, v))})
        for u, w in zip(cuts, cuts[1:]):
            yield (Fraction(u[0] + w[0]) / 2, Fraction(u[1] + w[1]) / 2)


def region_inside(inner, outer):
    """Assumes edges do not cross."""
    return all(
        locate(p, outer) >= 0 for p in [*_probes(inner, outer), *inner]
    )


def interior_point(vs):
    """A point strictly inside a simple contour of non-zero area."""
    i = min(range(len(vs)), key=lambda k: vs[k])
    a, b, c = vs[i - 1], vs[i], vs[(i + 1) % len(vs)]
    blockers = [
        v for v in vs
        if v not in (a, b, c)
        and orient(a, b, c) != 0
        and all(
            orient(*e, v) * orient(a, b, c) >= 0
            for e in ((a, b), (b, c), (c, a))
        )
    ]
    if not blockers:
        return (Fraction(a[0] + b[0] + c[0]) / 3,
                Fraction(a[1] + b[1] + c[1]) / 3)
    def distance(v):
        return abs((c[0] - a[0]) * (v[1] - a[1])
                   - (c[1] - a[1]) * (v[0] - a[0]))
    far = max(blockers, key=distance)
    return (Fraction(b[0] + far[0]) / 2, Fraction(b[1] + far[1]) / 2)


def interiors_disjoint(first, second):
    """Assumes simple contours whose edges neither cross nor overlap."""
    if set(first) == set(second):
        return False
    return not (
        any(locate(p, second) > 0 for p in _probes(first, second))
        or any(locate(p, first) > 0 for p in _probes(second, first))
        or locate(interior_point(first), second) > 0
        or locate(interior_point(second), first) > 0
    )


def regions_errors(first, second, what):
    """Mutual separation of two filled contours."""
    r = crossing(edges(first), edges(second))
    if r:
        return [f'{what}: edges {r[0]}: {r[1]} {r[2]}']
    if not interiors_disjoint(first, second):
        return [f'{what}: interiors intersect']
    return []


def segment_region_errors(segment, contour, what):
    r = crossing([segment], edges(contour))
    if r:
        return [f'{what}: segment and edge {r[0]}: {r[1]} {r[2]}']
    a, b = segment
    cuts = sorted({a, b, *(v for v in contour if on_segment(a, b, v))})
    for u, w in zip(cuts, cuts[1:]):
        if locate((Fraction(u[0] + w[0]) / 2, Fraction(u[1] + w[1]) / 2),
                  contour) > 0:
            return [f'{what}: segment runs through the interior']
    return []


def polygon_errors(border, holes):
    result = ['border: ' + e for e in contour_errors(border)]
    for i, hole in enumerate(holes):
        result += [f'hole {i}: ' + e for e in contour_errors(hole, False)]
    if result:
        return result
    for i, hole in enumerate(holes):
        r = crossing(edges(hole), edges(border))
        if r:
            result.append(f'hole {i} and border edges {r[0]}: {r[1]} {r[2]}')
        elif not region_inside(hole, border):
            result.append(f'hole {i} is not inside of the border')
        for j in range(i):
            result += regions_errors(hole, holes[j], f'holes {j} and {i}')
    return result


def segments_errors(ss, what='segments'):
    result = []
    for i, s in enumerate(ss):
        if s[0] == s[1]:
            result.append(f'{what}: segment {i} is degenerate')
        for j in range(i):
            r = bad_relation(s, ss[j])
            if r:
                result.append(f'{what}: {j} and {i} {r}: {ss[j]} {s}')
                return result
    return result
