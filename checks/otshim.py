from span import split, ranges
def s01(c):
    c.mc("shim/MCShim.tla", "shim/MCShim_mc.cfg" if c.quick else "shim/MCShim_deep.cfg")
    g = c.gen("shim/MCShim.tla", "shim/MCShim_gen.cfg", limit=4000 if c.quick else 26000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("otshim.py", [{"scripts": x, "seed": c.seed * 100 + i} for i, x in enumerate(split(g))], venv="pb5")
    tr += c.drive("otshim.py", [{"from": a, "to": b} for a, b in ranges(4000 if c.quick else 60000, c.seed * 100000)], venv="pb5")
    c.validate("shim/Shim", tr)
