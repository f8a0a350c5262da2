"""Deductive tier: contracts of the functions of hypothesis_geometry."""
import json
import os

from .. import env
from ..levels import LEVELS  # noqa: F401

EXPLANATION = (
    'Contracts (hgv/deduct/spec_*.py) on the repository\'s functions; the '
    'functions\' current sources are parsed, instrumented and executed on '
    'symbolic values, every path, loops cut by invariants, calls replaced by '
    'the callees\' contracts; each obligation is discharged by z3.')

TRUSTED = [
    'z3 4.x (python bindings of python3-vt)',
    'instrumentation and symbolic values of hgv/deduct (instrument.py, '
    'values.py, seqs.py, geometry.py)',
    'Hypothesis strategies as modelled in hgv/deduct/strategies.py: a '
    'strategy produces no value outside its documented set',
    'coordinates are exact scalars of an ordered field; integers are '
    'mathematical (Python\'s are)',
]

COST = ['factories.to_polygon', 'base.to_mix_strategy', 'planar.mixes',
        'base.to_multipolygon_strategy',
        'base.to_polygon_strategy', 'base.to_multicontour_strategy',
        'factories.to_multicontour',
        'base.to_convex_vertex_sequence_strategy',
        'base.to_concave_vertex_sequence_strategy',
        'base.to_point_sequence_in_general_position_strategy']


def verifiable():
    from .verify import specs
    contracts, _ = specs()
    return [k for k, c in contracts.items() if not c.trusted and not c.local]


def scope(pid):
    """Functions the property depends on: those with obligations of its own
    and, transitively, those whose contracts they rely on.  Functions the
    table does not know are included."""
    keys = verifiable()
    path = os.path.join(os.path.dirname(__file__), 'scope.json')
    if pid is None or not os.path.exists(path):
        return keys
    with open(path) as f:
        table = json.load(f)
    found = {k for k in keys if k not in table or pid in table[k]['props']}
    while True:
        more = {u for k in found if k in table for u in table[k]['uses']
                if u in keys} - found
        if not more:
            return [k for k in keys if k in found]
        found |= more


def results(thorough=False, repo=None, keys=None, pid=None):
    from .verify import verify_all
    everything = keys is None
    keys = list(keys or scope(pid))
    repo = repo or env.REPO
    result = []
    while keys:
        keys.sort(key=lambda k: COST.index(k) if k in COST else len(COST))
        result += verify_all(keys, repo, 900 if thorough else 300)
        # contracts the current code relies on in addition
        done = {r['key'] for r in result}
        keys = sorted({u for r in result for u in r['used']
                       if u in verifiable()} - done) if everything else []
    return result


def run(pid, thorough=False, repo=None):
    rs = results(thorough, repo, pid=pid)
    confirm(rs, repo or env.REPO, pid)
    mine = [dict(o, function=r['key']) for r in rs for o in r['results']
            if pid in o['props']]
    support = [dict(o, function=r['key']) for r in rs for o in r['results']
               if pid not in o['props']]
    return dict(
        obligations=len(mine),
        discharged=sum(o['status'] == 'discharged' for o in mine),
        failed=unique(o for o in mine if o['status'] == 'failed'),
        undecided=unique([o for o in mine if o['status'] == 'undecided'])
        + [dict(name=f'{r["key"]}: {r["error"]}', function=r['key'],
                status='undecided', props=[]) for r in rs if r['error']],
        support=len(support),
        support_discharged=sum(o['status'] == 'discharged'
                               for o in support),
        support_failed=unique(dict(name=o['name'], function=o['function'])
                              for o in support if o['status'] == 'failed'),
        functions=rs)


def confirm(rs, repo, pid):
    """Failures have to come up again with other seeds and longer limits: a
    query that ran out of time earlier on a path leaves facts out."""
    from . import core, numbers
    from .verify import verify_all
    numbers.replay(rs, repo)

    def failures(r):
        return {o['name'] for o in r['results']
                if o['status'] == 'failed' and pid in o['props']}

    try:
        core.SCALE = 3
        for core.SEED in (11, 23):
            suspects = {r['key']: r for r in rs if failures(r)}
            if not suspects:
                return
            core.ONLY = {k: failures(r) for k, r in suspects.items()}
            for again in verify_all(list(suspects), repo, 100):
                if again['error']:
                    continue
                first = suspects[again['key']]
                for o in first['results']:
                    if o['status'] == 'failed' and pid in o['props'] and (
                            o['name'] not in failures(again)):
                        o.update(status='undecided',
                                 solver='failed once, not again')
    finally:
        core.SCALE, core.SEED, core.ONLY = 1, 0, None


def unique(obligations):
    seen, result = set(), []
    for o in obligations:
        if o['name'] not in seen:
            seen.add(o['name'])
            result.append(o)
    return result


def coverage(pid, proof):
    from .verify import specs
    contracts, loops = specs()
    fs = proof['functions']
    names = {}
    for r in fs:
        for o in r['results']:
            if pid in o['props']:
                names.setdefault(r['key'], set()).add(
                    o['name'].partition(': ')[2])
    return dict(
        obligations=proof['obligations'], discharged=proof['discharged'],
        undecided=[o['name'] for o in proof['undecided']],
        supporting_obligations=proof['support'],
        supporting_discharged=proof['support_discharged'],
        supporting_failed=proof['support_failed'],
        checker_cmd=f'python3-vt -m hgv.check {pid}',
        trusted_base=TRUSTED + sorted({a for r in fs for a in r['assumed']}),
        functions_under_contract={
            r['key']: dict(obligations=len(r['results']),
                           discharged=sum(o['status'] == 'discharged'
                                          for o in r['results']),
                           paths=r['paths'], queries=r['queries'],
                           solver_s=r['solver'], error=r['error'],
                           reachable=r['cover'],
                           loops=sorted(str(k) for f, k in loops
                                        if f.startswith(r['key'])))
            for r in fs},
        property_obligations={k: sorted(v) for k, v in names.items()},
        back_end='z3', solver_s=round(sum(r['solver'] for r in fs), 2))


def assumptions(pid):
    from .verify import specs
    contracts, _ = specs()
    return TRUSTED + [f'trusted contract of {k}: {c.trusted}'
                      for k, c in contracts.items() if c.trusted]


