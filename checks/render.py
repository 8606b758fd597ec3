from span import split, ranges
def e07(c):
    c.mc("render/MCRender.tla", "render/MCRender_mc.cfg" if c.quick else "render/MCRender_deep.cfg")
    g = c.gen("render/MCRender.tla", "render/MCRender_gen.cfg", limit=320 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    for rep in range(1 if c.quick else 5): tr = c.drive("render.py", [{"scripts": x, "seed": c.seed * 100000 + rep * 1000} for x in split(g)]); c.validate("render/Render", tr)
    c.validate("render/Render", c.drive("render.py", [{"from": a, "to": b} for a, b in ranges(6000 if c.quick else 60000, c.seed * 100000)]))
