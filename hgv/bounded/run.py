"""Bounded tier: runs random cases of one property on all cores."""
import json
import multiprocessing as mp
import os
import random
import time
from collections import Counter

from .. import env


def _worker(args):
    pid, index, seed, deadline, limit = args
    import warnings
    warnings.simplefilter('ignore')
    from . import gen
    from .props import CHECKS
    factories, oracle = CHECKS[pid]
    r = random.Random(f'{pid}:{seed}:{index}')
    known = pinned(pid) if index == 0 else []
    names = [f for f, w in factories]
    weights = [w for f, w in factories]
    stats, failures, samples, distinct = Counter(), [], [], set()
    n = 0
    while n < limit and time.time() < deadline:
        n += 1
        case = known.pop() if known else gen.case(
            r, r.choices(names, weights)[0],
            custom=True if pid == 'C16' else None,
            floats=pid == 'C05' and r.random() < .2)
        failure, outcome = evaluate(pid, case)
        stats[f'{case.factory}:{outcome.status}'] += 1
        if outcome.status == 'drawn':
            h = hash(repr(outcome.value))
            distinct.add(h)
            if len(samples) < 1:
                samples.append(dict(case=case.to_json(),
                                    drawn=repr(outcome.value)[:400]))
        if failure:
            failures.append(failure)
            if len(failures) >= 3:
                break
    return dict(evaluations=n, stats=dict(stats), failures=failures,
                samples=samples, distinct=list(distinct))


def pinned(pid):
    """Inputs that showed defects repaired since."""
    from .drive import Case
    path = os.path.join(os.path.dirname(__file__), 'pinned.json')
    with open(path) as f:
        return [Case.from_json(d['case']) for d in json.load(f)
                if pid in d['properties']]


def evaluate(pid, case):
    from .props import CHECKS
    outcome = case.run()
    errors = []
    if outcome.status == 'raised':
        errors = ['drawing raised ' + outcome.error]
    elif outcome.status == 'drawn':
        try:
            errors = CHECKS[pid][1](outcome)
        except Exception as error:
            errors = [f'drawn value cannot be inspected: '
                      f'{type(error).__name__}: {error}']
    if errors:
        return dict(property=pid, case=case.to_json(), errors=errors,
                    drawn=(repr(outcome.value)[:2000]
                           if outcome.status == 'drawn' else None)), outcome
    return None, outcome


def explore(pid, seconds, seed, limit_per_worker, workers=None):
    workers = workers or min(8, os.cpu_count() or 1)
    deadline = time.time() + seconds
    ctx = mp.get_context('fork')
    with ctx.Pool(workers) as pool:
        if pid == 'C01':
            from . import args
            parts = pool.map(args._worker,
                             [(i, workers, seed, deadline)
                              for i in range(workers)], chunksize=1)
        else:
            parts = pool.map(_worker,
                             [(pid, i, seed, deadline, limit_per_worker)
                              for i in range(workers)], chunksize=1)
    stats = Counter()
    distinct = set()
    for p in parts:
        stats.update(p['stats'])
        distinct.update(p['distinct'])
    return dict(
        evaluations=sum(p['evaluations'] for p in parts),
        distinct=len(distinct), stats=dict(stats),
        failures=[f for p in parts for f in p['failures']],
        samples=[s for p in parts for s in p['samples']][:3],
    )


def replay(d):
    """Re-runs a recorded failing input; returns its errors."""
    if d['property'] == 'C01':
        from . import args
        return args.replay(d)
    from .drive import Case
    failure, _ = evaluate(d['property'], Case.from_json(d['case']))
    return failure['errors'] if failure else []
