#!/usr/bin/env python3
"""plant.py ID...: try the planted bugs of /verif/seeded: demo on the clean tree, demo and tests and the check with it applied."""
import json, subprocess, sys, os
V = "/verif/seeded/"
def sh(cmd, t=900, **k):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "timeout", "")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
notest = "--notest" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = V + i; m = json.load(open(d + "/meta.json")); out = [i, m["property"]]
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append(f"demo-clean={r.returncode}")
    if r.returncode: print(r.stdout[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stdout); continue
    try:
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); out.append(f"demo-bug={r.returncode}")
        if not r.returncode: print(r.stdout[-1500:])
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/w/plant.json"); p = set(json.load(open("/tmp/w/plant.json"))["passed"])
            miss = sorted(stable - p); out.append(f"tests-broken={len(miss)}"); print(*miss[:5], sep="\n") if miss else None
        r = sh(f"python3 /verif/check.py {m['property']}"); v = [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]
        out.append(f"check={r.returncode}"); out += [l[:150] for l in v]
        if r.returncode not in (0, 1): out.append(r.stdout[-800:])
    finally:
        sh("git -C /repo checkout -- .")
    print(*out, flush=True)
