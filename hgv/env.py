"""Import environment: the code under test comes from /repo's working tree,
its dependencies (ground, dendroid, ...) from the project's own virtualenv."""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', '/nonexistent/hgv')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HGV_REPO', '/repo')
DEPS = '/opt/venv/lib/python3.12/site-packages'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


def setup() -> None:
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if DEPS not in sys.path:
        sys.path.append(DEPS)


def git_state() -> str:
    import subprocess
    try:
        head = subprocess.run(
            ['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True,
            text=True, timeout=20).stdout.strip()
        return head
    except Exception:
        return 'unknown'
