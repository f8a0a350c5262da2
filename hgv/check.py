"""CLI: python3-vt -m hgv.check <property> -- decides one property.

1. deductive tier: contracts of the functions the property depends on are
   discharged on /repo's current sources (hgv.deduct);
2. bounded tier: public factories driven with the exact oracle (labelled
   bounded; also the source of replayable inputs for failed obligations).
"""
import json
import os
import sys
import time

from . import env

def known_findings(pid):
    path = os.path.join(env.VERIF, 'known-findings.txt')
    result = []
    with open(path) as f:
        for line in f:
            if line.startswith('finding: property=' + pid + ' '):
                result.append(line.strip())
    return result


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    started = time.time()
    env.setup()
    thorough = env.TIER == 'thorough'
    from .bounded import run as bounded
    from . import deduct
    proof = deduct.run(pid, thorough)
    seconds = float(os.environ.get(
        'HGV_SECONDS', '600' if thorough else '25'))
    result = bounded.explore(pid, seconds, env.SEED, 10 ** 9)
    if not result['failures'] and (proof['failed'] or proof['undecided']):
        # look longer for an input that shows the failure
        more = bounded.explore(pid, 90. if proof['failed'] else 45.,
                               env.SEED + 1000, 10 ** 9)
        result = merged(result, more)
    replay_dir = os.path.join(env.VERIF, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    replay_path = os.path.join(replay_dir, f'{pid}.json')
    violations = []
    failed = proof['failed']
    if result['failures']:
        failure = result['failures'][0]
        failure['obligations_failed'] = failed[:20]
        with open(replay_path, 'w') as f:
            json.dump(failure, f, indent=1, default=str)
        print(f'{pid}: {"; ".join(map(str, failure["errors"]))[:600]}')
        for o in failed[:10]:
            print(f'{pid}: failed obligation {o["name"]}')
        violations.append(f'VIOLATION property={pid} replay={replay_path}')
    elif failed:
        with open(replay_path, 'w') as f:
            json.dump(dict(property=pid, obligations_failed=failed), f,
                      indent=1, default=str)
        for o in failed[:10]:
            print(f'{pid}: failed obligation {o["name"]}')
            if o.get('replayed'):
                print(f'{pid}: replayed on the code: {o["replayed"]}')
        shown = any(isinstance(o.get('replayed'), list) for o in failed)
        violations.append(f'VIOLATION property={pid} replay={replay_path}' + (
            '' if shown else ' no-failing-input-found'))
    write_evidence(pid, proof, result, violations, time.time() - started)
    for line in known_findings(pid):
        print('KNOWN-FINDING: ' + line[len('finding: '):])
    for v in violations:
        print(v)
    print(f'{pid}: {proof["discharged"]}/{proof["obligations"]} '
          f'obligations discharged, {len(proof["undecided"])} undecided')
    for o in proof['undecided'][:5]:
        print(f'{pid}: undecided {o["name"]}')
    print(f'{pid}: {result["evaluations"]} bounded evaluations, '
          f'{time.time() - started:.1f} s')
    return 1 if violations else 0


def merged(a, b):
    stats = dict(a['stats'])
    for k, v in b['stats'].items():
        stats[k] = stats.get(k, 0) + v
    return dict(evaluations=a['evaluations'] + b['evaluations'],
                distinct=a['distinct'] + b['distinct'], stats=stats,
                failures=b['failures'], samples=a['samples'])


def write_evidence(pid, proof, result, violations, wall):
    coverage = dict(
        evaluations=result['evaluations'],
        distinct_nontrivial=result['distinct'],
        rule='bounded tier: random factory, size bounds, domains and biased '
             'Hypothesis choices; counted are distinct geometries actually '
             'drawn (for C01 distinct calls), each checked by the exact '
             'oracle',
        samples=result['samples'] or [dict(note='none drawn')],
        outcomes=result['stats'],
    )
    from . import deduct
    coverage.update(deduct.coverage(pid, proof))
    level = deduct.LEVELS.get(pid, 'exploration')
    assumptions = deduct.assumptions(pid) + [
        'bounded tier: Hypothesis\'s own strategies are trusted',
        'bounded tier: exact oracle hgv/oracle.py is trusted']
    coverage.setdefault('explanation', deduct.EXPLANATION)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=env.TIER, seed=env.SEED,
                       level=level, coverage=coverage,
                       assumptions=assumptions, wall_s=round(wall, 2),
                       violations=len(violations)), f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
