from span import split, ranges
import random
def r03(c):
    g = c.gen("config/MCConfig.tla", "config/MCConfig_gen.cfg")
    num = [x for x in g if x["ops"][0]["op"] == "batch"]; rest = [x for x in g if x["ops"][0]["op"] != "batch"]
    if c.quick: R = random.Random(c.seed); num, rest = R.sample(num, 300), R.sample(rest, min(len(rest), 2400))
    c.notes["behaviours_replayed"] = len(num) + len(rest)
    tr = c.drive("config.py", [{"scripts": x} for x in split(rest)])
    tr += c.drive("config.py", [{"from": a, "to": b} for a, b in ranges(400 if c.quick else 12000, c.seed * 100000)])
    tr += c.drive("confnum.py", [{"scripts": x} for x in split(num)])
    tr += c.drive("confnum.py", [{"from": a, "to": b} for a, b in ranges(400 if c.quick else 12000, c.seed * 100000)])
    c.validate("config/Config", tr)
    c.validate("span/Limits", c.drive("limits.py", [{"from": a, "to": b} for a, b in ranges(200 if c.quick else 20000, c.seed * 100000, 4)]))
