"""Checks that the tools the framework needs are present. Every check builds what it needs from /repo itself."""
import shutil
import sys

for t in ("gcc", "python3-vt"):
    if not shutil.which(t):
        print("missing tool", t)
        sys.exit(1)
import numpy, scipy, mpmath  # noqa
print("ok")
