"""Drives the public factories of the real package with chosen random choices.

Draws go through the real Hypothesis strategies (a ConjectureData with a
provider of ours), so the semantics of every strategy is Hypothesis's own;
only the distribution of the choices is biased.
"""
import math
import random
import signal
import traceback
import warnings
from fractions import Fraction

from .. import env

env.setup()

from ground.context import Context  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.control import BuildContext  # noqa: E402
from hypothesis.errors import StopTest, UnsatisfiedAssumption  # noqa: E402
from hypothesis.internal.conjecture.data import ConjectureData  # noqa: E402
from hypothesis.internal.conjecture.providers import (  # noqa: E402
    HypothesisProvider,
)
import hypothesis.strategies._internal.random as _hr  # noqa: E402,F401


class BiasedProvider(HypothesisProvider):
    """Bounds and small values with high probability; short or long lists."""

    def __init__(self, cd, /, style=(0.5, 0.3)):
        super().__init__(cd)
        self._grow, self._edge = style

    def draw_boolean(self, p=0.5):
        if p <= 0 or p >= 1:
            return p >= 1
        r = self._random
        if self._grow is None:
            return r.random() < p
        return r.random() < self._grow

    def draw_integer(
        self, min_value=None, max_value=None, *, weights=None,
        shrink_towards=0,
    ):
        r = self._random
        if min_value is None or max_value is None:
            lo = shrink_towards - 8 if min_value is None else min_value
            hi = lo + r.choice([1, 4, 20]) if max_value is None else max_value
            if min_value is None and max_value is not None:
                lo = max_value - 20
        else:
            lo, hi = min_value, max_value
        x = r.random()
        if hi - lo < 2000 and x < self._edge:
            return r.choice((lo, hi))
        return r.randint(lo, hi)


class Rejected(Exception):
    pass


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout('drawing did not terminate in the allotted CPU time')


CPU_LIMIT = 60.


def draw(strategy, seed, style):
    """One draw; raises Rejected when Hypothesis would discard the attempt."""
    rnd = random.Random(seed)
    if style is None:
        data = ConjectureData(random=rnd, max_choices=20000)
    else:
        data = ConjectureData(
            random=rnd, provider=BiasedProvider,
            provider_kw={'style': style}, max_choices=20000,
        )
    data.max_length = 1 << 17
    state = random.getstate()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with BuildContext(data, is_final=False, wrapped_test=draw):
            return data.draw(strategy)
    except (StopTest, UnsatisfiedAssumption) as error:
        raise Rejected from error
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        random.setstate(state)


def base_context():
    return Context(coordinate_factory=Fraction, sqrt=math.sqrt)


_CLASSES = ('box_cls', 'contour_cls', 'empty_cls', 'mix_cls', 'multipoint_cls',
            'multipolygon_cls', 'multisegment_cls', 'point_cls',
            'polygon_cls', 'segment_cls')


def custom_context():
    """A context all of whose geometry classes are subclasses of its own."""
    import inspect
    base = base_context()
    accepted = {*inspect.signature(Context.__new__).parameters,
                *inspect.signature(Context.__init__).parameters}
    kwargs = {}
    for name in _CLASSES:
        if name in accepted:
            cls = getattr(base, name)
            try:
                kwargs[name] = type('Custom' + cls.__name__, (cls,), {})
            except TypeError:
                kwargs[name] = _clone(cls)
    result = Context(coordinate_factory=Fraction, sqrt=math.sqrt, **kwargs)
    assert all(getattr(result, name) is kwargs.get(name)
               for name in _CLASSES), 'custom classes are not in use'
    return result


def _clone(cls):
    namespace = {
        k: v for k, v in cls.__dict__.items()
        if k not in ('__dict__', '__weakref__', *getattr(cls, '__slots__', ()),
                     '__init_subclass__')
    }
    return type('Custom' + cls.__name__, cls.__bases__, namespace)


FACTORIES = {
    # name: [(min name, max name, intrinsic minimum)]
    'empty_geometries': [],
    'points': [], 'segments': [], 'boxes': [],
    'triangular_contours': [], 'rectangular_contours': [],
    'multipoints': [('min_size', 'max_size', 1)],
    'multisegments': [('min_size', 'max_size', 2)],
    'contours': [('min_size', 'max_size', 3)],
    'convex_contours': [('min_size', 'max_size', 3)],
    'concave_contours': [('min_size', 'max_size', 4)],
    'star_contours': [('min_size', 'max_size', 3)],
    'multicontours': [('min_size', 'max_size', 2),
                      ('min_contour_size', 'max_contour_size', 3)],
    'polygons': [('min_size', 'max_size', 3),
                 ('min_holes_size', 'max_holes_size', 0),
                 ('min_hole_size', 'max_hole_size', 3)],
    'multipolygons': [('min_size', 'max_size', 2),
                      ('min_border_size', 'max_border_size', 3),
                      ('min_holes_size', 'max_holes_size', 0),
                      ('min_hole_size', 'max_hole_size', 3)],
    'mixes': [('min_points_size', 'max_points_size', 0),
              ('min_segments_size', 'max_segments_size', 0),
              ('min_polygons_size', 'max_polygons_size', 0),
              ('min_polygon_border_size', 'max_polygon_border_size', 3),
              ('min_polygon_holes_size', 'max_polygon_holes_size', 0),
              ('min_polygon_hole_size', 'max_polygon_hole_size', 3)],
}
MIX_COMPONENTS = ('points', 'segments', 'polygons')


FLOATS = 0                  # as denominator: floating-point thousandths


def axis_values(spec, seen):
    """spec: (lo, hi, step numerator, step denominator, offset numerator)."""
    lo, hi, num, den, off = spec

    def produce(i):
        # quotients of integers are rounded to floats: even whole
        # coordinates have to be rational for arithmetic to be exact
        value = ((i * num + off) / 1000. if den == FLOATS
                 else Fraction(i * num + off, den))
        seen.add(value)
        return value

    return produce


def axis_strategy(spec, seen):
    return st.integers(spec[0], spec[1]).map(axis_values(spec, seen))


class Case:
    """A factory call and one draw, entirely determined by plain data."""

    def __init__(self, factory, kwargs, x, y, seed, style, custom=False,
                 direct=False):
        self.factory, self.kwargs, self.x, self.y = factory, kwargs, x, y
        self.seed, self.style, self.custom = seed, style, custom
        self.direct = direct

    def to_json(self):
        return dict(factory=self.factory, kwargs=self.kwargs, x=self.x,
                    y=self.y, seed=self.seed, style=self.style,
                    custom=self.custom, direct=self.direct)

    @classmethod
    def from_json(cls, d):
        return cls(d['factory'], d['kwargs'], tuple(d['x']),
                   None if d['y'] is None else tuple(d['y']), d['seed'],
                   None if d['style'] is None else tuple(d['style']),
                   d['custom'], d.get('direct', False))

    @property
    def floats(self):
        return self.x[3] == FLOATS

    def points(self, xs_seen, ys_seen):
        from contextlib import nullcontext
        from . import direct
        if not self.direct:
            return nullcontext()
        x = axis_values(self.x, xs_seen)
        y = x if self.y is None else axis_values(self.y, ys_seen)
        return direct.stand_in(self.x, self.x if self.y is None else self.y,
                               x, y)

    def run(self):
        """Returns Outcome."""
        from hypothesis_geometry import planar
        context = (custom_context() if self.custom
                   else Context(coordinate_factory=float, sqrt=math.sqrt)
                   if self.floats else base_context())
        xs_seen, ys_seen = set(), set()
        outcome = Outcome(self, context, xs_seen,
                          xs_seen if self.y is None else ys_seen)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                make = getattr(planar, self.factory)
                if self.factory == 'empty_geometries':
                    strategy = make(context=context)
                else:
                    args = [axis_strategy(self.x, xs_seen)]
                    if self.y is not None:
                        args.append(axis_strategy(self.y, ys_seen))
                    with self.points(xs_seen, ys_seen):
                        strategy = make(*args, context=context,
                                        **self.kwargs)
                outcome.value = draw(strategy, self.seed, self.style)
                outcome.status = 'drawn'
        except Rejected:
            outcome.status = 'rejected'
        except Exception as error:
            # arithmetic has to be exact for the rest
            outcome.status = 'inexact' if self.floats else 'raised'
            frames = traceback.extract_tb(error.__traceback__)
            where = next(
                (f for f in reversed(frames)
                 if 'hypothesis_geometry' in f.filename), frames[-1])
            outcome.error = (f'{type(error).__name__}: {str(error)[:300]} '
                             f'(in {where.name})')
        return outcome


class Outcome:
    def __init__(self, case, context, xs_seen, ys_seen):
        self.case, self.context = case, context
        self.xs_seen, self.ys_seen = xs_seen, ys_seen
        self.value = self.error = None
        self.status = None
