"""Contracts of polygons."""
from .spec_dig import *

LOOPS['base.to_polygon_strategy._to_hole_sizes', 0] = growing_sizes(
    'max_hole_point_counts', 'hole_count', 'min_hole_point_count')


def polygon_requires(a):
    need = next_prime(ie(a.min_size) + ie(a.min_hole_count)
                      * ie(a.min_hole_size))
    return [('3 <= min_size <= max_size', bounds(a.min_size, a.max_size, 3)),
            ('0 <= min_hole_count <= max_hole_count',
             bounds(a.min_hole_count, a.max_hole_count, 0)),
            ('3 <= min_hole_size <= max_hole_size',
             bounds(a.min_hole_size, a.max_hole_size, 3)),
            ('enough distinct coordinates', capped(a, need))]


def polygon_sizes(a, r, border=SIZES):
    lo, hi = (getattr(a, n) for n in border)
    return z3.And(
        within(size(r.border.vertices), lo, hi),
        within(size(r.holes), a.min_hole_count, a.max_hole_count),
        each(r.holes, lambda h, _: within(
            size(h.vertices), a.min_hole_size, a.max_hole_size)))


def polygon_ensures(a, r):
    isa(r, SPolygon)
    return [
        ('border and hole size bounds', {'C03', 'C04'},
         polygon_sizes(a, r)),
        ('the border is simple, strict, counterclockwise', {'C13', 'C09'},
         valid(r.border.vertices)),
        ('holes are simple, strict, clockwise and pairwise have at most one '
         'common point, as have a hole and the border', {'C13'}, sound(r)),
        ('coordinates come from their axes', {'C05', 'C14', 'C15'},
         polygon_points(r, lambda p: exact(a, p))),
        ctx_ok(a, r)]


contract('base.to_polygon_strategy', XY + SIZES + HCOUNT + HSIZES,
         args=base_args(SIZES, HCOUNT, HSIZES), draws=True,
         requires=polygon_requires,
         result=lambda a: fresh_polygon(a.context), ensures=polygon_ensures)
