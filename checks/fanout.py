from span import split, ranges
def t10(c):
    c.mc("simple/MCSimple.tla", "simple/MCSimple_mc.cfg" if c.quick else "simple/MCSimple_deep.cfg")
    g = c.gen("simple/MCSimple.tla", "simple/MCSimple_gen.cfg", limit=1500 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("simple.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("simple.py", [{"from": a, "to": b} for a, b in ranges(1500 if c.quick else 60000, c.seed * 100000)])
    c.validate("simple/Simple", tr)
def t09(c):
    c.mc("fanout/FanoutImpl.tla", "fanout/FanoutImpl.cfg" if c.quick else "fanout/FanoutImpl_deep.cfg")
    c.mc("fanout/MCFlush.tla", "fanout/MCFlush_mc.cfg" if c.quick else "fanout/MCFlush_deep.cfg")
    g = c.gen("fanout/MCFlush.tla", "fanout/MCFlush_gen.cfg", limit=1500 if c.quick else 30000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("fanout.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("fanout.py", [{"from": a, "to": b} for a, b in ranges(1500 if c.quick else 60000, c.seed * 100000)])
    c.validate("fanout/Fanout", tr)
