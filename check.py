#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import sys, os, importlib, traceback, signal
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif/checks")
import kit

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = sys.argv[2:]
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    import registry
    mod, fn = registry.CHECKS[prop]
    c = kit.Check(prop, tier, seed)
    try:
        getattr(importlib.import_module(mod), fn)(c)
    except kit.SpecError as e:
        print("CHECK ERROR:", e)
        rc = c.finish() or 3
        sys.stdout.flush()
        os._exit(rc)
    rc = c.finish()
    sys.stdout.flush()
    os._exit(rc)
main()
