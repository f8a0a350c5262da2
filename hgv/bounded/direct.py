"""Point sequences in general position without Hypothesis's overhead.

The sequences `to_point_sequence_in_general_position_strategy` draws are, for
a prime p within its bounds, (xs[i], ys[s * i * i % p]) for i < p or the
transposed ones, xs and ys increasing and s no multiple of p (its verified
contract).  Drawing coordinates one by one takes most of the time of a case,
so cases marked direct have that function replaced by a strategy making such
sequences itself; everything else of the factory runs unchanged.  The stand-in
is used only while sequences drawn from the real function have this form.
"""
import random
from contextlib import contextmanager

from hypothesis import strategies as st

NAME = 'to_point_sequence_in_general_position_strategy'


def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** .5) + 1))


def next_prime(n):
    while not is_prime(n):
        n += 1
    return n


def prior_prime(n):
    while not is_prime(n):
        n -= 1
    return n


def _values(r, spec, size):
    lo, hi = spec[0], spec[1]
    if hi - lo + 1 < size:
        return None
    kind = r.random()
    if kind < .5:
        result = r.sample(range(lo, hi + 1), size)
    elif kind < .7:
        start = r.randint(lo, hi + 1 - size)
        result = list(range(start, start + size))
    else:
        result, value = [], lo
        for i in range(size):
            left = size - 1 - i
            gap = r.choice([0, 0, 0, 1, 2, r.randint(0, max(0, hi - lo) // 2)])
            value = min(value + gap, hi - left)
            result.append(value)
            value += 1
    return sorted(result)


def points(r, x, y, lo, hi, make):
    """A sequence of points (make builds one) or None."""
    lower = next_prime(max(2, lo))
    upper = (lower + r.choice([0, 0, 1, 2, 4, 6, 10, 14]) if hi is None
             else max(hi, lower))
    upper = min(upper, lower + 14)
    p = prior_prime(r.randint(lower, upper))
    xs, ys = _values(r, x, p), _values(r, y, p)
    if xs is None or ys is None:
        return None
    s = r.randint(1, p - 1)
    if r.random() < .5:
        return [make(xs[i], ys[s * i * i % p]) for i in range(p)]
    return [make(xs[s * i * i % p], ys[i]) for i in range(p)]


def has_form(sequence):
    """Whether the points are such a sequence."""
    p = len(sequence)
    if not is_prime(p):
        return False
    for first, second in (('x', 'y'), ('y', 'x')):
        us = [getattr(q, first) for q in sequence]
        if us != sorted(set(us)):
            continue
        vs = [getattr(q, second) for q in sequence]
        ranks = {v: k for k, v in enumerate(sorted(set(vs)))}
        # ys used are those of the squares' multiples, in the same order
        for s in range(1, p):
            rows = [s * i * i % p for i in range(p)]
            order = {v: k for k, v in enumerate(sorted(set(rows)))}
            if [ranks[v] for v in vs] == [order[v] for v in rows]:
                return True
    return False


@contextmanager
def stand_in(x, y, produce_x, produce_y):
    """Replaces the strategy while the factory is called."""
    from hypothesis_geometry._core import base
    original = getattr(base, NAME, None)
    if original is None:
        yield False
        return

    def strategy(*args, **kwargs):
        if not {'context', 'min_size'} <= kwargs.keys():
            return original(*args, **kwargs)
        context = kwargs['context']

        def build(seed):
            return points(random.Random(seed), x, y, kwargs['min_size'],
                          kwargs.get('max_size'),
                          lambda i, j: context.point_cls(produce_x(i),
                                                         produce_y(j)))

        return st.integers(0, 2 ** 62).map(build).filter(
            lambda v: v is not None)
    setattr(base, NAME, strategy)
    try:
        yield True
    finally:
        setattr(base, NAME, original)


_usable = None


def usable():
    """Whether the real function draws sequences of this form (sampled)."""
    global _usable
    if _usable is None:
        _usable = _sample()
    return _usable


def _sample():
    from hypothesis_geometry._core import base
    from . import drive
    try:
        context = drive.base_context()
        for k, (lo, hi) in enumerate([(3, None), (3, 8), (4, 4), (7, 12),
                                      (9, None), (3, 30)]):
            strategy = getattr(base, NAME)(
                drive.axis_strategy((0, 60, 1, 1, 0), set()),
                drive.axis_strategy((0, 60, 1, 1, 0), set()),
                context=context, min_size=lo, max_size=hi)
            drawn = 0
            for seed in range(6):
                try:
                    v = drive.draw(strategy, 10 * k + seed, (.85, .1))
                except drive.Rejected:
                    continue
                drawn += 1
                if not has_form(v) or len(v) < lo:
                    return False
            if not drawn:
                return False
    except Exception:
        return False
    return True
