#!/usr/bin/env python3
"""gencfg.py spec/area/MCName DEPTHS gen=D mc=D ...: write the GenKit configurations of a module."""
import sys
p = sys.argv[1]
for a in sys.argv[2:]:
    n, d = a.split("=")
    emit = n.startswith("gen")
    open(f"{p}_{n}.cfg", "w").write(f"SPECIFICATION GSpec\nCONSTANTS\n Cfgs <- MCfgs\n Init0 <- MInit\n Ops <- MOps\n Apply <- MApply\n Depth = {d}\n Emit = {'TRUE' if emit else 'FALSE'}\nINVARIANT Inv\n{'' if emit else 'VIEW GView' + chr(10)}CHECK_DEADLOCK FALSE\n")
