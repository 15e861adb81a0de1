#!/usr/bin/env python3
"""setup_cmd: nothing to build; verify that both interpreters are there."""
import subprocess
import sys

for py in ("/opt/venv/bin/python", "/opt/venv-jax/bin/python"):
  r = subprocess.run([py, "-c", "import numpy, sys; print(sys.version)"],
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                     text=True, check=False)
  print(py, r.returncode, r.stdout.strip())
  if r.returncode and "jax" not in py:
    sys.exit(1)
