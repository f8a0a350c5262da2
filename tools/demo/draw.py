"""Draws from the factories of ./hypothesis_geometry with chosen seeds."""
import math
import os
import random
import signal
import sys
import warnings
from fractions import Fraction

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/nonexistent/demo'

from ground.context import Context  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.control import BuildContext  # noqa: E402
from hypothesis.errors import StopTest, UnsatisfiedAssumption  # noqa: E402
from hypothesis.internal.conjecture.data import ConjectureData  # noqa: E402
from hypothesis.internal.conjecture.providers import (  # noqa: E402
    HypothesisProvider,
)

from hypothesis_geometry import planar  # noqa: E402,F401

context = Context(coordinate_factory=Fraction, sqrt=math.sqrt)


class Provider(HypothesisProvider):
    """Longer lists and values at the bounds."""

    def __init__(self, cd, /, style=(.7, .3)):
        super().__init__(cd)
        self.grow, self.edge = style

    def draw_boolean(self, p=.5):
        if p <= 0 or p >= 1:
            return p >= 1
        r = self._random.random()
        return r < (p if self.grow is None else self.grow)

    def draw_integer(self, min_value=None, max_value=None, *, weights=None,
                     shrink_towards=0):
        r = self._random
        lo = (shrink_towards - 8 if min_value is None and max_value is None
              else max_value - 20 if min_value is None else min_value)
        hi = lo + r.choice([1, 4, 20]) if max_value is None else max_value
        if hi - lo < 2000 and r.random() < self.edge:
            return r.choice((lo, hi))
        return r.randint(lo, hi)


def draw(strategy, seed, style=None):
    """A value, or None if the attempt is rejected."""
    kw = {} if style is None else dict(provider=Provider,
                                       provider_kw={'style': style})
    data = ConjectureData(random=random.Random(seed), max_choices=20000, **kw)
    data.max_length = 1 << 17
    try:
        with BuildContext(data, is_final=False, wrapped_test=draw):
            return data.draw(strategy)
    except (StopTest, UnsatisfiedAssumption):
        return None


def numbers(lo, hi, numerator=1, denominator=1, offset=0):
    return st.integers(lo, hi).map(
        lambda i: Fraction(i * numerator + offset, denominator))


def sign(x):
    return (x > 0) - (x < 0)


def orient(p, q, r):
    return sign((q.x - p.x) * (r.y - p.y) - (q.y - p.y) * (r.x - p.x))


def edges(vertices):
    return [(vertices[i - 1], vertices[i]) for i in range(len(vertices))]


def on_segment(p, a, b):
    return (orient(a, b, p) == 0 and min(a.x, b.x) <= p.x <= max(a.x, b.x)
            and min(a.y, b.y) <= p.y <= max(a.y, b.y))


def cross_or_overlap(s, t):
    """More than a common endpoint-touch: a proper crossing or a shared
    stretch."""
    (a, b), (c, d) = s, t
    o = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if o == (0, 0, 0, 0):
        key = (lambda p: p.x) if a.x != b.x else (lambda p: p.y)
        lo = max(min(key(a), key(b)), min(key(c), key(d)))
        hi = min(max(key(a), key(b)), max(key(c), key(d)))
        return lo < hi
    return o[0] * o[1] < 0 and o[2] * o[3] < 0


def locate(p, vertices):
    """1 inside, 0 on the boundary, -1 outside."""
    inside = False
    for a, b in edges(vertices):
        if on_segment(p, a, b):
            return 0
        if (a.y > p.y) != (b.y > p.y) and (
                (orient(a, b, p) > 0) == (b.y > a.y)):
            inside = not inside
    return 1 if inside else -1


def check(errors):
    if errors:
        print('BROKEN:', errors)
        sys.exit(1)
    print('ok')
    sys.exit(0)


warnings.simplefilter('ignore')
