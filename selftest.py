#!/usr/bin/env python3
"""setup_cmd: the executor works here (z3, world, concrete servers): a true assertion is discharged, a false one is refuted and replayed."""
import subprocess, sys, os
here = os.path.dirname(os.path.abspath(__file__))
a = subprocess.run([sys.executable, "run_check.py", "C00", "--quick", "--only", "good"], cwd=here, capture_output=True, text=True)
b = subprocess.run([sys.executable, "run_check.py", "C00", "--quick", "--only", "bad"], cwd=here, capture_output=True, text=True)
if a.returncode != 0 or b.returncode != 1:
    print("selftest failed", a.returncode, b.returncode, (a.stdout + a.stderr + b.stdout + b.stderr)[-3000:].replace("VIOLATION", "violation"))
    sys.exit(1)
print("selftest ok")
