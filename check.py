#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [-v]: decide one property symbolically."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sx import run
rc = run.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
