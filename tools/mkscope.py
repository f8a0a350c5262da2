"""Writes hgv/deduct/scope.json: which properties each function's obligations
belong to, and whose contracts it uses (as observed on the current tree)."""
import json
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from hgv import deduct, env  # noqa: E402

env.setup()
rs = deduct.results(pid=None)
table = {}
for r in rs:
    assert not r['error'] and all(o['status'] == 'discharged'
                                  for o in r['results']), (
        r['key'], r['error'], [o for o in r['results']
                               if o['status'] != 'discharged'][:3])
    table[r['key']] = dict(
        props=sorted({p for o in r['results'] for p in o['props']}),
        uses=sorted(set(r['used']) - {r['key']}))
with open(os.path.join(root, 'hgv', 'deduct', 'scope.json'), 'w') as f:
    json.dump(table, f, indent=1, sort_keys=True)
