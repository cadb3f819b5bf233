"""setup_cmd: nothing to build (pure Python); verify the interpreter and the tree are usable."""
import subprocess, sys
r = subprocess.run(["/opt/venv/bin/python", "-c", "import mcpyrate, sympy; import sys; assert sys.version_info[:2] == (3, 12)"])
sys.exit(r.returncode)
