"""Random cases (factory, sizes, domains, choices) for the bounded tier."""
from . import direct
from .drive import Case, FACTORIES, FLOATS

DIRECT = {'contours', 'concave_contours', 'star_contours', 'convex_contours',
          'polygons', 'multicontours'}


def _pair(r, intrinsic, spread, cap, below):
    lo = r.choice([intrinsic, intrinsic, r.randint(intrinsic, cap)])
    x = r.random()
    if x < .35:
        hi = None
    elif x < .6:
        hi = lo
    else:
        hi = lo + r.randint(0, spread)
    if below and r.random() < .15:
        lo = r.randint(-3, intrinsic) if hi is None else r.randint(
            0, intrinsic)
    return lo, hi


def _many_holes(r):
    n = r.choice([2, 2, 3, 4])
    result = dict(min_holes_size=n)
    if r.random() < .6:
        result['max_holes_size'] = n
    if r.random() < .6:
        size = r.randint(3, 7)
        result.update(min_hole_size=size,
                      max_hole_size=size + r.choice([0, 1, 2]))
    if r.random() < .5:
        # borders have to dig deep
        result['min_size'] = r.randint(6, 13)
    return result


def sizes(r, factory, below=True):
    if factory == 'polygons' and r.random() < .35:
        return _many_holes(r)
    kwargs = {}
    small = factory in ('mixes', 'multipolygons')
    for lo_name, hi_name, intrinsic in FACTORIES[factory]:
        if hi_name in ('max_size', 'max_border_size',
                       'max_polygon_border_size') and intrinsic >= 3:
            cap, spread = ((8, 5) if r.random() < .8 else (20, 5)
                           ) if not small else (6, 3)
        elif intrinsic >= 3:
            cap, spread = ((5, 3) if r.random() < .6 else (9, 4)
                           ) if not small else (4, 2)
        elif 'holes' in hi_name:
            cap, spread = (3, 2) if not small else (1, 1)
        elif factory in ('multipoints', 'multisegments'):
            cap, spread = 8, 5
        else:
            cap, spread = 3, 2
        lo, hi = _pair(r, intrinsic, spread, cap, below)
        if factory == 'multisegments' and r.random() < .4:
            hi = lo = 2
        if 'holes' in hi_name and r.random() < .3:
            lo, hi = 0, r.choice([0, None, 1])
        if small and intrinsic == 0 and 'holes' not in hi_name:
            if r.random() < .25:
                lo, hi = 0, 0
            elif r.random() < .3:
                lo, hi = r.choice([(0, 1), (1, 1), (0, None), (1, None)])
        if lo == intrinsic and r.random() < .5:
            pass
        else:
            kwargs[lo_name] = lo
        if hi is not None:
            kwargs[hi_name] = hi
    if factory == 'mixes':
        names = ['max_points_size', 'max_segments_size', 'max_polygons_size']
        while sum(kwargs.get(n) != 0 for n in names) < 2:
            n = r.choice(names)
            kwargs.pop(n, None)
    return kwargs


def domain(r, big):
    x = r.random()
    if x < .15:
        return (0, r.choice([3, 5, 8]) if not big else 40, 1, 1, 0)
    if x < .5:
        return (0, r.choice([12, 20]) if not big else 80, 1, 1, 0)
    if x < .7:
        return (-30, 30, r.choice([1, 2]), r.choice([1, 3, 7]), 0)
    if x < .85:
        return (-500, 500, 1, 1, 0)
    if x < .93:
        return (-10 ** 6, 10 ** 6, 10 ** 9, 1, 1)
    return (-60, 60, 1, 10 ** 6, 10 ** 15)


def style(r):
    x = r.random()
    if x < .25:
        return None
    return (r.choice([None, .5, .7, .85, .92]), r.choice([.1, .3, .6]))


def float_domain(r):
    return (-r.choice([5, 60, 10 ** 4, 10 ** 9]), r.choice([5, 60, 10 ** 4]),
            r.choice([1, 3, 7 * 10 ** 6]), FLOATS, r.choice([0, 1, 10 ** 8]))


def case(r, factory, custom=None, below=True, floats=False):
    big = factory in ('mixes', 'multipolygons', 'multicontours', 'polygons')
    x = domain(r, big)
    y = None if r.random() < .25 else domain(r, big)
    if y is not None and r.random() < .3:
        y = (y[0], y[1], y[2], y[3], 7 * 10 ** 7)
    if floats:
        x = float_domain(r)
        y = None if y is None else float_domain(r)
        custom = False
    return Case(factory, sizes(r, factory, below), x, y,
                r.getrandbits(48), style(r),
                r.random() < .2 if custom is None else custom,
                r.random() < .8 and factory in DIRECT and direct.usable())
