from span import split, ranges
def e05(c):
    c.mc("zipkin/MCZipkin.tla", "zipkin/MCZipkin_mc.cfg" if c.quick else "zipkin/MCZipkin_deep.cfg")
    g = c.gen("zipkin/MCZipkin.tla", "zipkin/MCZipkin_gen.cfg", limit=1200 if c.quick else 20000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("zipk.py", [{"scripts": x, "seed": c.seed * 100 + i} for i, x in enumerate(split(g))], venv="pb3")
    tr += c.drive("zipk.py", [{"from": a, "to": b} for a, b in ranges(3000 if c.quick else 50000, c.seed * 100000)], venv="pb3")
    c.validate("zipkin/Zipkin", tr)
