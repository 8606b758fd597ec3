from span import split, ranges
def l03(c):
    c.mc("logging/MCEvents.tla", "logging/MCEvents_mc.cfg" if c.quick else "logging/MCEvents_deep.cfg")
    g = c.gen("logging/MCEvents.tla", "logging/MCEvents_gen.cfg", limit=3000 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("logevents.py", [{"scripts": x, "seed": c.seed * 100000} for x in split(g)])
    tr += c.drive("logevents.py", [{"from": a, "to": b} for a, b in ranges(4000 if c.quick else 80000, c.seed * 100000)])
    c.validate("logging/Events", tr)
