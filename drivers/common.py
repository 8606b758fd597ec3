"""Shared start-up of the drivers.  A driver is run as: driver.py JOB.json OUT.json"""
import sys, os, json
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/lib")
JOB = json.load(open(sys.argv[1]))
OUT = sys.argv[2]

def finish(traces, stats=None):
    with open(OUT, "w") as f:
        json.dump({"traces": traces, "stats": stats or {}}, f)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)
