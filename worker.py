"""Worker process: /opt/venv/bin/python worker.py CACHE PROP SEED TIER SHARD NSHARDS OUT BUDGET [SECTION:INDEX]"""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path[0] = HERE
sys.path.insert(1, REPO)
# Third-party first, from its own bytecode cache ...
import sympy, mpmath, mcpyrate, mcpyrate.quotes, mcpyrate.metatools, mcpyrate.compiler  # noqa
import mcpyrate.activate  # noqa
# ... then never reuse bytecode of the tree under test (mcpyrate misses changes in indirect macro dependencies).
sys.pycache_prefix = sys.argv[1]
sys.dont_write_bytecode = False
if sys.argv[2] == "WARM":
    import unpythonic, unpythonic.syntax, unpythonic.test.fixtures, unpythonic.net.msg  # noqa
    assert unpythonic.__file__.startswith(REPO + "/")
    import vp.core  # noqa
    os._exit(0)
from vp import core
core.worker_main(sys.argv[2:])
