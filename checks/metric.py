from span import split, ranges
def base(c, *work, conc=()):
    """work: (driver mode, number of executions); conc: instrument kinds whose concurrent algorithm is explored."""
    c.mc("metric/MCMetrics.tla", "metric/MCMetrics_mc.cfg" if c.quick else "metric/MCMetrics_deep.cfg")
    for k in conc: c.mc("metric/AggImpl.tla", f"metric/MCAgg_{k}{'' if c.quick else '_deep'}.cfg")
    g = c.gen("metric/MCMetrics.tla", "metric/MCMetrics_gen.cfg" if c.quick else "metric/MCMetrics_gen4.cfg", limit=800 if c.quick else 30000)
    tr = c.drive("metrics.py", [{"scripts": x} for x in split(g)])
    c.notes["behaviours_replayed"] = len(g)
    for mode, n in work:
        tr += c.drive("metrics.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 40, c.seed * 100000)])
    c.validate("metric/Metrics", tr)
def m01(c): base(c, ("seq", 500), ("conc", 600), conc=("counter",))
def m02(c): base(c, ("hist", 700), ("conc", 400), conc=("hist",))
def m04(c): base(c, ("async", 800), ("aconc", 500))
def m05(c): base(c, ("views", 1000))
def m07(c): base(c, ("time", 400), ("idle", 400), ("conc", 400), conc=("counter",))
def m03(c):
    c.mc("exphist/MCExpHist.tla", "exphist/MCExpHist_mc.cfg" if c.quick else "exphist/MCExpHist_deep.cfg")
    g = c.gen("exphist/MCExpHist.tla", "exphist/MCExpHist_gen.cfg" if c.quick else "exphist/MCExpHist_gen5.cfg", limit=1500 if c.quick else 60000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("exphist.py", [{"scripts": x} for x in split(g)])
    for mode, n in (("seq", 800), ("conc", 500)):
        tr += c.drive("exphist.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 40, c.seed * 100000)])
    c.validate("exphist/ExpHist", tr)
def m09(c):
    c.mc("exemplar/MCExemplar.tla", "exemplar/MCExemplar_mc.cfg" if c.quick else "exemplar/MCExemplar_deep.cfg")
    g = c.gen("exemplar/MCExemplar.tla", "exemplar/MCExemplar_gen.cfg", limit=1000 if c.quick else 60000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("exemplar.py", [{"scripts": x} for x in split(g)])
    for mode, n in (("seq", 800), ("conc", 800)):
        tr += c.drive("exemplar.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n if c.quick else n * 40, c.seed * 100000)])
    c.validate("exemplar/Exemplar", tr)
