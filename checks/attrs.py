from span import split, ranges
def r02(c):
    c.mc("attrs/MCAttr.tla", "attrs/MCAttr_mc.cfg" if c.quick else "attrs/MCAttr_deep.cfg")
    g = c.gen("attrs/MCAttr.tla", "attrs/MCAttr_gen.cfg", limit=6000) if c.quick else c.gen("attrs/MCAttr.tla", "attrs/MCAttr_gen4.cfg", limit=60000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("attrhist.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("attrhist.py", [{"from": a, "to": b} for a, b in ranges(3000 if c.quick else 80000, c.seed * 100000)])
    c.validate("attrs/AttrHist", tr)
