from span import split, ranges
def e06(c):
    c.mc("prefs/MCPrefs.tla", "prefs/MCPrefs_mc.cfg" if c.quick else "prefs/MCPrefs_deep.cfg")
    g = c.gen("prefs/MCPrefs.tla", "prefs/MCPrefs_gen.cfg", limit=3000 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("prefs.py", [{"scripts": x, "seed": c.seed * 100000} for x in split(g)])
    tr += c.drive("prefs.py", [{"from": a, "to": b} for a, b in ranges(3000 if c.quick else 60000, c.seed * 100000)])
    c.validate("prefs/Prefs", tr)
