"""setup: verifies that the interpreter, the solver and the repository are reachable (nothing to build)"""
import sys
sys.path.insert(0, '/verif')
from lib import z3q, sem, harness  # noqa
harness._assert_repo()
x = z3q.z3.Real('x')
assert z3q.check([x * x == 2, x > 0])[0] == 'sat'
print('z3', z3q.z3.get_version_string(), 'ok')
