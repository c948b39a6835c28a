"""Nothing to build: check that the pieces are there."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call([sys.executable, os.path.join(here, "check.py"), "--selftest", "all"], cwd=here))
