"""Exhaustive replay of the functions on primes, up to a bound.

Loop invariants belong to one way of writing a loop.  When those of the prime
functions fail, the functions themselves are run on every argument up to a
bound: a disagreement with the contract is the failing input; none makes the
failure of the invariant undecided (a failed postcondition stays failed).
"""
import json
import subprocess
import sys


SCRIPT = '''
import json, sys
sys.path[:0] = [sys.argv[1], *json.loads(sys.argv[3])]
from hypothesis_geometry._core import utils


def accepted(n):
    j = 6
    if n % 3 == 0:
        return False
    while (j - 1) ** 2 <= n:
        if not n % (j - 1) or not n % (j + 1):
            return False
        j += 6
    return True


def following(n):
    n |= 1
    while not accepted(n):
        n += 2
    return n


def preceding(n):
    n -= not n & 1
    while not accepted(n):
        n -= 2
    return n


def observe(f, *args):
    try:
        return f(*args)
    except Exception as error:
        return repr(error)


name = sys.argv[2]
f = getattr(utils, name)
if name == '_is_prime':
    for n in range(1, 60000, 2):
        got = observe(f, n)
        if got not in (True, False) or bool(got) != accepted(n):
            print(json.dumps([n, str(got)]))
            break
else:
    expected = following if name == 'to_next_prime' else preceding
    for n in range(3, 20000):
        got = observe(f, n)
        if got != expected(n):
            print(json.dumps([n, str(got)]))
            break
print(json.dumps('done'))
'''
FUNCTIONS = 'utils._is_prime', 'utils.to_next_prime', 'utils.to_prior_prime'


def disagreement(key, repo):
    """An argument and the answer, None, or a message."""
    try:
        p = subprocess.run(
            [sys.executable, '-c', SCRIPT, repo, key.split('.')[1],
             json.dumps(sys.path)],
            capture_output=True, text=True, timeout=60)
        lines = p.stdout.splitlines()
        if not lines:
            return 'it cannot be run'
        found = json.loads(lines[0])
        return None if found == 'done' else found
    except subprocess.TimeoutExpired:
        return 'it does not terminate in a minute'


def replay(rs, repo):
    for r in rs:
        if r['key'] not in FUNCTIONS or all(
                o['status'] != 'failed' for o in r['results']):
            continue
        found = disagreement(r['key'], repo)
        for o in r['results']:
            if o['status'] != 'failed':
                continue
            if found is not None:
                o['replayed'] = found
            elif o['kind'] in ('invariant', 'variant'):
                o.update(status='undecided',
                         solver='agrees with its contract on every argument '
                                'tried')
