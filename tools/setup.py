"""Nothing to compile: verifies that the interpreter and the check modules are usable."""
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import numpy, pandas, scipy  # noqa: F401,E401
sys.exit(0 if sys.version_info >= (3, 12) and os.path.isdir(os.path.join(root, 'checks')) else 1)
