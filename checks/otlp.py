from span import split, ranges
def export(c, kind):
    c.mc("otlp/MCExport.tla", "otlp/MCExport_mc.cfg" if c.quick else "otlp/MCExport_deep.cfg")
    if kind == "grpc": c.mc("otlp/GrpcImpl.tla", "otlp/GrpcImpl.cfg" if c.quick else "otlp/GrpcImpl_deep.cfg")
    g = c.gen("otlp/MCExport.tla", "otlp/MCExport_gen.cfg", limit=1600 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("otlpexp.py", [{"kind": kind, "scripts": x, "seed": c.seed * 100 + i} for i, x in enumerate(split(g))])
    n = 3000 if c.quick else 40000
    tr += c.drive("otlpexp.py", [{"kind": kind, "from": a, "to": b} for a, b in ranges(n, c.seed * 100000)])
    c.validate("otlp/Export", tr)
def e01(c): export(c, "grpc")
def e02(c): export(c, "http")
def e03(c):
    c.mc("otlp/MCEncode.tla", "otlp/MCEncode_mc.cfg" if c.quick else "otlp/MCEncode_deep.cfg")
    g = c.gen("otlp/MCEncode.tla", "otlp/MCEncode_gen.cfg", limit=600 if c.quick else None)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("otlpenc.py", [{"scripts": x, "seed": c.seed * 100 + i} for i, x in enumerate(split(g))])
    tr += c.drive("otlpenc.py", [{"from": a, "to": b} for a, b in ranges(1500 if c.quick else 30000, c.seed * 100000)])
    c.validate("otlp/Encode", tr)
