from span import split, ranges
def t11(c):
    c.mc("fork/ForkImpl.tla", "fork/ForkImpl.cfg")
    tr = []
    for kind, n in (("span", 240), ("log", 240), ("metric", 240)):
        tr += c.drive("fork.py", [{"kind": kind, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 20, c.seed * 100000)], timeout=800)
    c.validate("fork/Fork", tr)
