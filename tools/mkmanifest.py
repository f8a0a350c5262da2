import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
import sys
sys.path.insert(0, root)
try:
    from hgv import levels
    LV = levels.LEVELS; NOTES = levels.NOTES; TECH = levels.TECH
except ImportError:
    LV, NOTES, TECH = {}, {}, {}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(
        property=i,
        quick_cmd=f'VERIF_TIER=quick python3-vt -m hgv.check {i}',
        thorough_cmd=f'VERIF_TIER=thorough python3-vt -m hgv.check {i}',
        evidence_file=f'evidence/{i}.json',
        technique=TECH.get(i, 'bounded stand-in (contracts checked on drawn values)'),
        level=LV.get(i, 'exploration'),
        level_note=NOTES.get(i, 'bounded exploration only so far')))
m = dict(version=1,
         setup_cmd='python3-vt -m hgv.selfcheck',
         checks=checks, not_applicable=[],
         notes='No hooks in /repo are needed: sources are read and instrumented in memory on every run.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
