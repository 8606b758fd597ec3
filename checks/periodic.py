from span import split, ranges
def m08(c):
    for k in ("PeriodicImpl.cfg",) + (() if c.quick else ("PeriodicImpl_deep.cfg",)): c.mc("periodic/PeriodicImpl.tla", "periodic/" + k)
    tr = []
    for mode, n in (("race", 900), ("timed", 500)):
        tr += c.drive("periodic.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 25, c.seed * 100000)])
    c.validate("periodic/Periodic", tr)
