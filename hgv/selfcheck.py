"""Setup: the tools and the package under test can be imported."""
from . import env

env.setup()
import z3  # noqa: E402
from hypothesis_geometry import planar  # noqa: E402,F401

print('z3', z3.get_version_string(), 'ok')
