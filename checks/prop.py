from span import split, ranges
def run(c, mc, hist, glimit, rnd, libs=()):
    c.mc(f"prop/{mc}.tla", f"prop/{mc}_mc.cfg" if c.quick else f"prop/{mc}_deep.cfg")
    g = c.gen(f"prop/{mc}.tla", f"prop/{mc}_gen.cfg", limit=glimit if c.quick else glimit * 12)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("prop.py", [{"prop": c.prop, "scripts": x} for x in split(g)])
    tr += c.drive("prop.py", [{"prop": c.prop, "from": a, "to": b} for a, b in ranges(rnd if c.quick else rnd * 25, c.seed * 100000)])
    c.validate(f"prop/{hist}", tr)
def p01(c): run(c, "MCTC", "TraceContext", 4000, 1200)
def p02(c): run(c, "MCTS", "TSHist", 1500, 800)
def p03(c): run(c, "MCBag", "BagHist", 1500, 1000)
def p04(c): run(c, "MCB3", "B3", 4500, 1200)
def p05(c): run(c, "MCJaeger", "Jaeger", 3100, 1500)
def p06(c):
    c.mc("prop/MCComp.tla", "prop/MCComp_mc.cfg")
    g = c.gen("prop/MCComp.tla", "prop/MCComp_gen.cfg", limit=None if not c.quick else 400); c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("composite.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("composite.py", [{"from": a, "to": b} for a, b in ranges(800 if c.quick else 20000, c.seed * 100000)])
    tr += c.drive("composite.py", [{"efrom": a, "eto": b} for a, b in ranges(32 if c.quick else 400, c.seed * 100000)])
    c.validate("prop/Composite", tr)
