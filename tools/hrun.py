#!/usr/bin/env python3
"""hrun.py PROP [budget]: run only the replay harness of a property (development aid)."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
tmp = tempfile.mkdtemp(prefix="hrun-")
try:
    f, log, st = check.run_harness(sys.argv[1], tmp, int(sys.argv[2]) if len(sys.argv) > 2 else 10, int(os.environ.get("VERIF_SEED", "1")))
    print("\n".join(x[:1500] for x in f) if f else "no failing input"); print(st)
    if not st: print(log[-3000:])
finally:
    shutil.rmtree(tmp)
