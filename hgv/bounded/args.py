"""C01: size-argument behaviour of every factory, against the statement."""
import itertools
import random
import time
import warnings

from .drive import (
    Case, FACTORIES, MIX_COMPONENTS, Rejected, axis_strategy, base_context,
    draw,
)

SIZED = [f for f, pairs in FACTORIES.items() if pairs]


def expected(factory, kwargs):
    """('ValueError', None) or ('ok', number of warnings)."""
    count = 0
    for lo_name, hi_name, intrinsic in FACTORIES[factory]:
        lo, hi = kwargs.get(lo_name, intrinsic), kwargs.get(hi_name)
        if hi is not None and (hi < intrinsic or hi < lo or lo < 0):
            return 'ValueError', None
        if lo < intrinsic:
            count += 1
    if factory == 'mixes' and sum(
            kwargs.get(f'max_{n}_size') != 0 for n in MIX_COMPONENTS) < 2:
        return 'ValueError', None
    return 'ok', count


def call(factory, kwargs, seen=None):
    from hypothesis_geometry import planar
    xs = axis_strategy((0, 60, 1, 1, 0), set() if seen is None else seen)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        result = getattr(planar, factory)(xs, context=base_context(),
                                          **kwargs)
    return result, caught


def check_call(factory, kwargs):
    from hypothesis.errors import HypothesisWarning
    status, count = expected(factory, kwargs)
    try:
        _, caught = call(factory, kwargs)
    except ValueError as error:
        return ([] if status == 'ValueError'
                else [f'unexpected ValueError: {error}'])
    except Exception as error:
        return [f'call raised {type(error).__name__}: {str(error)[:200]}, '
                f'expected {status}']
    if status != 'ok':
        return ['no ValueError was raised']
    ours = [w for w in caught if issubclass(w.category, HypothesisWarning)]
    if len(ours) != count:
        return [f'{len(ours)} HypothesisWarning(s) emitted, '
                f'expected {count}']
    return []


def clamped(factory, kwargs):
    result = dict(kwargs)
    for lo_name, _, intrinsic in FACTORIES[factory]:
        result[lo_name] = max(result.get(lo_name, intrinsic), intrinsic)
    return result


def check_clamp(factory, kwargs, seed, style):
    outcomes = []
    for ks in (kwargs, clamped(factory, kwargs)):
        try:
            strategy, _ = call(factory, ks)
            value = ('drawn', repr(draw(strategy, seed, style)))
        except Rejected:
            value = ('rejected', '')
        except Exception as error:
            value = ('raised', f'{type(error).__name__}: {str(error)[:200]}')
        outcomes.append(value)
    first, second = outcomes
    if first[0] == 'raised':
        return ['drawing raised ' + first[1]]
    if first != second:
        return [f'draws differ from those with clamped minima: '
                f'{first[1][:200] or first[0]} vs '
                f'{second[1][:200] or second[0]}']
    return []


def _pairs(intrinsic):
    for lo in (None, *range(-2, intrinsic + 3)):
        for hi in (None, *range(-2, intrinsic + 4)):
            yield lo, hi


def systematic():
    """Every small pair for every size parameter, others at defaults."""
    for f in SIZED:
        for lo_name, hi_name, intrinsic in FACTORIES[f]:
            for lo, hi in _pairs(intrinsic):
                kwargs = {}
                if lo is not None:
                    kwargs[lo_name] = lo
                if hi is not None:
                    kwargs[hi_name] = hi
                yield f, kwargs


def random_call(r):
    f = r.choice(SIZED)
    kwargs = {}
    for lo_name, hi_name, intrinsic in FACTORIES[f]:
        x = r.random()
        if x < .5:
            kwargs[lo_name] = r.randint(-2, intrinsic + 3)
        if r.random() < .5:
            kwargs[hi_name] = (
                r.randint(-2, intrinsic + 5) if x < .2 else
                r.randint(max(intrinsic, kwargs.get(lo_name, 0)),
                          intrinsic + 6))
    return f, kwargs


def random_clamp(r):
    while True:
        f = r.choice(SIZED)
        kwargs = {}
        for lo_name, hi_name, intrinsic in FACTORIES[f]:
            if r.random() < .4:
                kwargs[hi_name] = intrinsic + r.randint(1, 4)
            if r.random() < .6:
                kwargs[lo_name] = r.randint(
                    -3 if hi_name not in kwargs else 0, intrinsic)
        if (expected(f, kwargs)[0] == 'ok'
                and clamped(f, kwargs) != {**clamped(f, {}), **kwargs}):
            return f, kwargs


def _worker(args):
    index, workers, seed, deadline = args
    from . import gen
    r = random.Random(f'C01:{seed}:{index}')
    failures, distinct, n, samples = [], set(), 0, []

    def record(kind, f, kwargs, errors, **extra):
        distinct.add((kind, f, tuple(sorted(kwargs.items()))))
        if errors:
            failures.append(dict(property='C01', kind=kind, factory=f,
                                 kwargs=kwargs, errors=errors, **extra))

    for f, kwargs in itertools.islice(systematic(), index, None, workers):
        n += 1
        record('call', f, kwargs, check_call(f, kwargs))
    while time.time() < deadline and len(failures) < 3:
        for _ in range(20):
            n += 1
            f, kwargs = random_call(r)
            record('call', f, kwargs, check_call(f, kwargs))
        for _ in range(5):
            n += 1
            f, kwargs = random_clamp(r)
            seed_, style = r.getrandbits(48), gen.style(r)
            record('clamp', f, kwargs,
                   check_clamp(f, kwargs, seed_, style),
                   seed=seed_, style=style)
            if not samples:
                samples.append(dict(kind='clamp', factory=f, kwargs=kwargs))
    return dict(evaluations=n, failures=failures[:3],
                distinct=[hash(d) for d in distinct], samples=samples,
                stats={})


def replay(d):
    if d['kind'] == 'call':
        return check_call(d['factory'], d['kwargs'])
    return check_clamp(d['factory'], d['kwargs'], d['seed'],
                       d['style'] and tuple(d['style']))
