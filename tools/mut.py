#!/usr/bin/env python3
"""mut.py 'CHECKS' FILE OLD NEW : apply a textual mutation to /repo, run checks, restore."""
import subprocess, sys, os
checks, f, old, new = sys.argv[1:5]
p = "/repo/" + f
s = open(p).read()
assert s.count(old) >= 1, "pattern not found"
n = s.count(old)
try:
    open(p, "w").write(s.replace(old, new, 1) if len(sys.argv) < 6 else s.replace(old, new))
    for c in checks.split():
        r = subprocess.run(["python3", "/verif/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(f"--- {c} rc={r.returncode} occurrences={n}")
        print("\n".join(r.stdout.splitlines()[-int(os.environ.get("TAIL", 6)):])[-1500:])
finally:
    open(p, "w").write(s)
