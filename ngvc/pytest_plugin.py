"""self-test: run the repository's own tests on the LOWERED modules (python -m pytest -p ngvc.pytest_plugin ...)"""
from ngvc import rewrite, runtime

VC = runtime.VC()
FINDER = rewrite.install(VC, lambda m: ".test_" not in m)
