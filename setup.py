#!/usr/bin/env python3
"""Build the conformance driver and parse the specification."""
import glob
import os
import subprocess
import sys
import check
try:
    os.makedirs(check.BUILD, exist_ok=True)
    check.build()
    for m in sorted(glob.glob(os.path.join(check.SPEC, "*.tla"))):
        out = subprocess.run(["tla-sany", os.path.basename(m)], cwd=check.SPEC, capture_output=True, text=True)
        if out.returncode != 0 or "rror" in out.stdout:
            raise check.ToolError(m + "\n" + out.stdout[-2000:])
except check.ToolError as e:
    print(e, file=sys.stderr)
    sys.exit(2)
