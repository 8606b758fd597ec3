from span import split, ranges
def g01(c):
    c.mc("glob/GlobalsModel.tla", "glob/GlobalsModel_mc.cfg" if c.quick else "glob/GlobalsModel_deep.cfg")
    tr = []
    for mode, n in (("seq", 1500), ("conc", 9000)):
        tr += c.drive("globals.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 30, c.seed * 100000)])
    c.validate("glob/Globals", tr)
def g02(c):
    c.mc("glob/MCShut.tla", "glob/MCShut_mc.cfg" if c.quick else "glob/MCShut_deep.cfg")
    g = c.gen("glob/MCShut.tla", "glob/MCShut_gen.cfg" if c.quick else "glob/MCShut_gen6.cfg", limit=1600 if c.quick else 20000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("shutexit.py", [{"scripts": x, "seed": c.seed} for x in split(g)])
    n = 3000 if c.quick else 60000
    tr += c.drive("shutvt.py", [{"from": a, "to": b} for a, b in ranges(n, c.seed * 100000)])
    c.validate("glob/Shutdown", tr)
