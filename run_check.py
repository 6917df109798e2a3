#!/usr/bin/env python3-vt
"""run_check.py <property> [--quick|--thorough] [--only harness] [--replay file]"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, HERE)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from symx.run import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
