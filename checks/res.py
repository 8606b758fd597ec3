from span import split, ranges
def r01(c):
    c.mc("res/MCRes.tla", "res/MCRes_mc.cfg" if c.quick else "res/MCRes_deep.cfg", libs=["/verif/spec/prop"])
    g = []
    for f, n in (("gen", 1400), ("gen3", 400)): g += c.gen("res/MCRes.tla", f"res/MCRes_{f}.cfg", libs=["/verif/spec/prop"], limit=n if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("resmerge.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("resmerge.py", [{"from": a, "to": b} for a, b in ranges(2500 if c.quick else 20000, c.seed * 100000)])
    c.validate("res/Resource", tr, libs=["prop"])
