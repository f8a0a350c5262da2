"""Contract of the segment sequence strategy (multisegments, mixes)."""
from .spec_base import *
from .spec_base import _NX


def segments_requires(a):
    n = ie(a.min_size)
    contour = next_prime(z3.If(n > 3, n, 3))
    one = capped(a, 1)
    chain = capped(a, n + 1)
    polygon = z3.And(capped(a, contour), capped(a, 2))
    m = a.max_size
    need = z3.And(z3.Implies(at_least(m, 1), one),
                  z3.Implies(at_least(m, 2), chain),
                  z3.Implies(at_least(m, 3), polygon))
    return [('0 <= min <= max', bounds(a.min_size, a.max_size, 0)),
            ('enough distinct coordinates', need)]


def segment_points(r, f):
    return each(view(r), lambda s, _: z3.And(f(s.start), f(s.end)))


def segments_ensures(a, r):
    return [
        ('size bounds', {'C02', 'C04'}, within(size(r), a.min_size,
                                               a.max_size)),
        ('endpoints differ', {'C11'}, each(view(r), lambda s, _: z3.Not(
            equal(s.start, s.end)))),
        ('segments neither cross nor overlap', {'C11'},
         each_pair(view(r), NX)),
        ('coordinates lie in their ranges', {'C05', 'C15'},
         segment_points(r, lambda p: ranged(a, p))),
        ctx_ok(a, r)]


SEGMENTS = 'base.to_non_crossing_non_overlapping_segment_sequence_strategy'
contract(SEGMENTS, XY + SIZES, args=base_args(SIZES), draws=True,
         requires=segments_requires,
         result=lambda a: fresh_segments(a.context),
         ensures=segments_ensures)
contract('base.to_multisegment_strategy', XY + SIZES,
         args=base_args(SIZES), draws=True,
         requires=segments_requires,
         result=lambda a: SMultisegment(a.context,
                                        fresh_segments(a.context)),
         ensures=lambda a, r: (isa(r, SMultisegment), segments_ensures(
             a, r.segments) + [ctx_ok(a, r)])[1])


# -- predicates on segments ------------------------------------------------------
def end_edge_contract(name, c):
    """No answer `False` while an edge lies on the far side of the bounding
    box (the greatest coordinate c)."""
    def far(s, axis):
        return num(getattr(s.start, axis)).e == num(getattr(s.end, axis)).e

    def beyond(t, v):
        return z3.Or(num(getattr(t.start, c)).e > v,
                     num(getattr(t.end, c)).e > v)

    def ensures(a, r):
        if r is True:
            return []
        v = view(a.segments)
        return [(f'no edge on the far side (axis {c})',
                 {'C12', 'C14', 'C15'}, each(v, lambda s, _: z3.Implies(
                     far(s, c), z3.Not(each(v, lambda t, _: z3.Not(
                         beyond(t, num(getattr(s.start, c)).e)))))))]

    def args():
        n = fresh_int('n', 1)
        return (fresh_segments(SContext(), n.e),), {}

    contract('contracts.' + name, ['segments'], args=args,
             requires=lambda a: [('segments', ie(size(a.segments)) >= 1)],
             result=lambda a: bool(engine().choose(2, name)),
             ensures=ensures)


end_edge_contract('has_vertical_leftmost_segment', 'x')
end_edge_contract('has_horizontal_lowermost_segment', 'y')
