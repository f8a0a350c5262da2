"""Discharges the contracts of single functions on the current sources."""
import multiprocessing as mp
import os
import time
import traceback
from collections import Counter

from . import core, stubs
from .core import Budget, Engine, Unsupported
from .instrument import Loader

PACKAGE = 'hypothesis_geometry'
SLICE = 2.                     # seconds of exploration per task


WHILE = {'utils._is_prime', 'utils.to_next_prime', 'utils.to_prior_prime',
         'base.to_mix_strategy.partition',
         'triangular._to_boundary_edges',
         *[f'triangular.Triangulation.{name}' for name in (
             '_connect', '_to_left_candidate', '_to_right_candidate',
             '_find_base_edge')]}
KINDS = {'factories.to_polygon': ['for', 'while', 'for'],
         'factories.compress_contour': ['while'] * 4,
         'factories.to_star_contour_vertices': ['while', 'while'],
         'factories._to_sub_hull': ['for', 'while']}


def specs():
    from . import spec_base, spec_planar
    for (key, _), spec in spec_base.LOOPS.items():
        # the contracts speak about these loops; others have none
        spec.kinds = KINDS.get(key) or [
            'while' if key in WHILE else 'for']
    return spec_base.CONTRACTS, spec_base.LOOPS


def make_loader(repo):
    contracts, loops = specs()
    from .triangles import STriangulation
    l = Loader(repo, stubs.make(), contracts, loops,
               {'triangular.Triangulation': STriangulation})
    l.package = PACKAGE + '._core'
    l.target, l.mismatched, l.used = None, set(), set()
    return l


LOADERS = {}


def step(key, repo, budget, pending=None, slice_s=None, seen=None):
    """Obligations along the paths below the prefixes: plain values."""
    contracts, _ = specs()
    Engine.current = None
    t = time.time()
    error, l = None, None
    try:
        if repo not in LOADERS:
            LOADERS[repo] = make_loader(repo)
        l = LOADERS[repo]
        l.used = set()
        Engine.seen = seen or {}
        contracts[key].verify(l, budget, pending, slice_s)
    except (Unsupported, Budget) as ex:
        error = f'{type(ex).__name__}: {ex}'
    except RecursionError:
        error = 'Unsupported: recursion'
    except Exception as ex:
        where = traceback.extract_tb(ex.__traceback__)[-1]
        error = (f'Unsupported: {type(ex).__name__}: {ex} '
                 f'({where.name}:{where.lineno})')
    e = Engine.current
    return dict(key=key, error=error, results=e.results if e else [],
                paths=e.paths if e else 0, queries=e.queries if e else 0,
                cover=e.cover if e else {},
                left=getattr(e, 'left', None) or [],
                used=sorted(l.used) if l else [],
                assumed=sorted(e.assumed) if e else [],
                solver=round(e.solver_time, 2) if e else 0,
                wall=round(time.time() - t, 2))


def verify(key, repo='/repo', budget=120):
    """Every obligation of one function."""
    return step(key, repo, budget)


def join(a, b):
    """Reports on two sets of paths of a function."""
    cover = {k: a['cover'].get(k) or b['cover'].get(k)
             for k in {**a['cover'], **b['cover']}}
    return dict(
        key=a['key'], error=a['error'] or b['error'],
        results=a['results'] + b['results'],
        paths=a['paths'] + b['paths'], queries=a['queries'] + b['queries'],
        cover=cover, left=[],
        used=sorted({*a['used'], *b['used']}),
        assumed=sorted({*a['assumed'], *b['assumed']}),
        solver=round(a['solver'] + b['solver'], 2),
        wall=round(a['wall'] + b['wall'], 2))


def failures(report):
    return {o['name'] for o in report['results']
            if o['status'] == 'failed'} if report else set()


def bad(report):
    """How often obligations of a name failed so far."""
    result = {}
    for o in report['results'] if report else ():
        if o['status'] != 'discharged':
            n = result.setdefault(o['name'], Counter())
            n[o['status']] += 1
    return result


def _task(args):
    return step(*args)


def verify_all(keys, repo, budget):
    """Reports of the functions, paths shared out over the processors."""
    n = max(1, min(8, os.cpu_count() or 1))
    deadline = time.time() + budget
    reports = {}
    context = mp.get_context('fork')
    with context.Pool(n) as pool:
        waiting = [(k, None) for k in keys][::-1]
        running = []
        while waiting or running:
            if core.ONLY is not None and all(
                    core.ONLY[k] <= failures(reports.get(k))
                    for k, *_ in waiting + running):
                # every suspect failed again
                pool.terminate()
                break
            late = time.time() > deadline
            if late:
                for k, _ in waiting:
                    r = dict(key=k, error=f'Budget: {k}: out of time',
                             results=[], paths=0, queries=0, cover={},
                             left=[], used=[], assumed=[], solver=0, wall=0)
                    reports[k] = join(reports[k], r) if k in reports else r
                waiting = []
                if time.time() > deadline + 60:
                    for k, _ in running:
                        r = dict(reports.get(k) or dict(r, key=k))
                        r['error'] = f'Budget: {k}: out of time'
                        reports[k] = r
                    pool.terminate()
                    break
            while waiting and len(running) < n:
                k, pending = waiting.pop()
                running.append((k, pool.apply_async(_task, ((
                    k, repo, budget, pending, SLICE, bad(reports.get(k))),))))
            done = [x for x in running if x[1].ready()]
            if not done:
                time.sleep(.01)
                continue
            running = [x for x in running if not x[1].ready()]
            for k, f in done:
                r = f.get()
                if r['left'] and not r['error']:
                    groups = [r['left'][i::n] for i in range(n)]
                    waiting.extend((k, g) for g in groups if g)
                r['left'] = []
                reports[k] = join(reports[k], r) if k in reports else r
    return [reports[k] for k in keys if k in reports]
