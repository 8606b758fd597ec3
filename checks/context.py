from span import split, ranges
def c01(c): run(c)
def c02(c): run(c)
def run(c):
    c.mc("context/MCContext.tla", "context/MCContext_mc.cfg" if c.quick else "context/MCContext_deep.cfg")
    g = c.gen("context/MCContext.tla", "context/MCContext_gen.cfg", limit=1200 if c.quick else 15000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("context.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("context.py", [{"from": a, "to": b} for a, b in ranges(1500 if c.quick else 40000, c.seed * 100000 + (50000 if c.prop == "C02" else 0))])
    c.validate("context/Context", tr)
