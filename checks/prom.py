from span import split, ranges
def e04(c):
    c.mc("prom/MCScrape.tla", "prom/MCScrape_mc.cfg" if c.quick else "prom/MCScrape_deep.cfg")
    c.mc("prom/ScrapeImpl.tla", "prom/ScrapeImpl.cfg" if c.quick else "prom/ScrapeImpl_deep.cfg")
    g = c.gen("prom/MCScrape.tla", "prom/MCScrape_gen.cfg", limit=1200 if c.quick else 20000)
    c.notes["behaviours_replayed"] = len(g)
    tr = c.drive("prom.py", [{"scripts": x} for x in split(g)])
    n = 1500 if c.quick else 20000
    for mode in ("seq", "conc"): tr += c.drive("prom.py", [{"mode": mode, "from": a, "to": b} for a, b in ranges(n, c.seed * 100000)])
    c.validate("prom/Scrape", tr)
