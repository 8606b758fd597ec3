def split(xs, k=8):
    return [xs[i::k] for i in range(k) if xs[i::k]]
def ranges(n, base, k=8):
    step = (n + k - 1) // k
    return [(base + i * step, base + min(n, (i + 1) * step)) for i in range(k) if i * step < n]

def run(c, mode, n):
    c.mc("span/MCSpanLife.tla", "span/MCSpanLife_mc.cfg" if c.quick else "span/MCSpanLife_deep.cfg")
    g = c.gen("span/MCSpanLife.tla", "span/MCSpanLife_gen.cfg", limit=800 if c.quick else None)
    tr = c.drive("span.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("span.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 20, c.seed * 100000)])
    c.notes["behaviours_replayed"] = len(g)
    c.validate("span/SpanLife", tr)
def t04(c):
    run(c, "life", 600)
    c.mc("span/MCSpanConc.tla", "span/MCSpanConc.cfg")
    c.validate_nd("span/SpanConcTrace", "SpanConcTrace.cfg",
                  c.drive("spanconc.py", [{"from": a, "to": b} for a, b in ranges(800 if c.quick else 20000, c.seed * 100000)]))
def t05(c):
    run(c, "limits", 600)
    c.validate("span/Limits", c.drive("limits.py", [{"from": a, "to": b} for a, b in ranges(200 if c.quick else 20000, c.seed * 100000, 4)]))
def t06(c): run(c, "exc", 600)
def tree(c, n, nr):
    c.mc("span/MCSpanTree.tla", "span/MCSpanTree_mc.cfg" if c.quick else "span/MCSpanTree_deep.cfg")
    g = c.gen("span/MCSpanTree.tla", "span/MCSpanTree_gen.cfg", limit=500 if c.quick else 20000)
    tr = c.drive("spantree.py", [{"scripts": x} for x in split(g)])
    tr += c.drive("spantree.py", [{"mode": "rnd", "from": a, "to": b} for a, b in ranges(n if c.quick else n * 20, c.seed * 100000)])
    tr += c.drive("spantree.py", [{"mode": "ratio", "from": a, "to": b} for a, b in ranges(nr if c.quick else nr * 10, c.seed * 100000)])
    c.notes["behaviours_replayed"] = len(g)
    c.validate("span/SpanTree", tr)
def t07(c): tree(c, 500, 8)
def t08(c): tree(c, 500, 60)
