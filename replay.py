#!/usr/bin/env python3
"""replay.py FILE.json: run a counterexample on the plain, uninstrumented code.
Exit 1 if the violation shows, 0 if not."""
import importlib
import json
import os
import resource
import signal
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("SX_REPO", "/repo"))
from sx.run import run_native, show, NATIVE_CPU_S

d = json.load(open(sys.argv[1]))
mod = importlib.import_module("harness." + d["property"])
fn, params = d["fn"], d["params"]
for t in mod.tasks("quick") + mod.tasks("thorough"):
    if t[0] == d["task"]:
        params = t[2]          # the original objects (JSON loses tuples)
        break


def hang(*a):
    print("the conversion does not come to an end")
    sys.stdout.flush()
    os._exit(1)


resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
signal.signal(signal.SIGVTALRM, hang)
signal.setitimer(signal.ITIMER_VIRTUAL, NATIVE_CPU_S)
out, msg, h = run_native(mod, fn, params, d["inputs"])
print("property", d["property"], "task", d["task"], "inputs", show(d["inputs"]))
for l, v in h.observed:
    print("  %s = %r" % (l, v))
print(out, msg)
sys.exit(1 if out == "violation" else 0)
