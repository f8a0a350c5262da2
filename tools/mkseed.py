"""mkseed.py ID PROPERTY NEEDS BREAKS DEMO.py TREE: collects a planted bug."""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks, demo, tree = sys.argv[1:]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(root, 'seeded', i)
os.makedirs(d, exist_ok=True)
out = subprocess.run(['git', 'diff', '--no-index', '--no-prefix',
                      '/repo/hypothesis_geometry',
                      tree + '/hypothesis_geometry'], capture_output=True,
                     text=True).stdout
lines = []
for line in out.splitlines(keepends=True):
    if line.startswith(('diff --git', '--- ', '+++ ')):
        line = line.replace(tree.lstrip('/') + '/', 'b/').replace(
            tree + '/', 'b/').replace('repo/hyp', 'a/hyp').replace('/a/', 'a/').replace('/b/', 'b/')
    lines.append(line)
open(os.path.join(d, 'patch.diff'), 'w').write(''.join(lines))
shutil.copy(demo, os.path.join(d, 'demo.py'))
shutil.copy(os.path.join(root, 'tools', 'demo', 'draw.py'), d)
open(os.path.join(d, 'demo.sh'), 'w').write(
    '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
