from span import split, ranges
def m06(c):
    c.mc("entity/CreateRace.tla", "entity/CreateRace.cfg" if c.quick else "entity/CreateRace_deep.cfg")
    g = c.gen("entity/MCEntity.tla", "entity/MCEntity_gen.cfg", limit=2000 if c.quick else 46000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("entity.py", [{"scripts": x} for x in split(g)])
    for mode, n in (("seq", 500), ("conc", 800)):
        tr += c.drive("entity.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 40, c.seed * 100000)])
    c.validate("entity/Entity", tr)
