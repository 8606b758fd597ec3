from span import split, ranges
def l02(c):
    c.mc("logging/MCHandler.tla", "logging/MCHandler_mc.cfg" if c.quick else "logging/MCHandler_deep.cfg")
    g = c.gen("logging/MCHandler.tla", "logging/MCHandler_gen.cfg", limit=4000 if c.quick else 60000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("loghandler.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("loghandler.py", [{"from": a, "to": b} for a, b in ranges(2500 if c.quick else 60000, c.seed * 100000)])
    c.validate("logging/Handler", tr)
