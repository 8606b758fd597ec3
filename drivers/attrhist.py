"""Attribute collections wherever they occur (R02)."""
from common import JOB, finish
import logging; logging.disable(50)
import random, collections, collections.abc
from vals import dec, enc, enckey, encmap, mkdict, rnd_kv, rnd_val, dec1
from opentelemetry.attributes import BoundedAttributes
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider, SpanLimits
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.sdk._logs import LogRecord, LogLimits
from opentelemetry.sdk.trace import sampling
class Seq(collections.abc.Sequence):
    def __init__(self, l): self.l = list(l)
    def __getitem__(self, i): return self.l[i]
    def __len__(self): return len(self.l)
def value(v, r):
    """A value of that description, in one of several containers."""
    if v[0] != "L":
        if v[0] == "O:obj": return r.choice([object(), {1, 2}, (x for x in "ab"), {"a": 1}, 1j, Ellipsis, collections.Counter("ab"), int, frozenset("a")])
        return dec(v)
    x = [dec1(y) for y in v[1:]]
    k = r.random()
    if k < .4: return x
    if k < .6: return tuple(x)
    if all(y[:2] == "i:" for y in v[1:]) and all(type(e) is int and 0 <= e < 256 for e in x) and k < .75: return bytearray(x)
    return r.choice([collections.deque, collections.UserList, Seq])(x)
def spoil(v, r):
    try:
        if isinstance(v, Seq): v.l.append("spoiled"); v.l[:1] = []
        elif isinstance(v, bytearray): v.append(7); v[0:1] = b"xyz"
        elif hasattr(v, "append"): v.append("spoiled"); v.insert(0, 42)
    except Exception: pass
def build(kv, r): return {(k[2:] if k[:2] == "s:" else dec1(k)): value(v, r) for k, v in kv}
def norm(kv):
    """As a dict would hold them: equal keys merge."""
    d = {}
    for k, v in kv: d[k] = v
    return [[k, v] for k, v in d.items()]
class Holder:
    """A collection, how to see it, and how it counts evictions."""
    def __init__(self, site, cfg, r):
        self.site, self.cfg, self.r = site, cfg, r
    def lim(self, x): return None if x == -1 else x
    def new(self, kv):
        r, c = self.r, self.cfg; d = build(kv, r); s = self.site; self.kept = []
        given = d if r.random() < .8 or not d else collections.OrderedDict(d) if r.random() < .5 else __import__("types").MappingProxyType(d)
        if not d and r.random() < .3: given = None
        mx, vl = self.lim(c["max"]), self.lim(c["vl"])
        if s == "bounded": self.c = BoundedAttributes(mx, given, c["imm"], vl)
        elif s == "resource": self.c = Resource(given or {}).attributes
        elif s == "scope": self.c = InstrumentationScope("n", "v", "u", given).attributes
        elif s == "log": self.rec = LogRecord(body="x", attributes=given, limits=LogLimits(max_attributes=LogLimits.UNSET if mx is None else mx, max_attribute_length=LogLimits.UNSET if vl is None else vl)); self.c = self.rec.attributes
        else:
            u = lambda x: SpanLimits.UNSET if x is None else x
            k = {"span": "max_span_attributes", "event": "max_event_attributes", "link": "max_link_attributes", "addlink": "max_link_attributes"}[s]
            lm = {n: SpanLimits.UNSET for n in ("max_span_attributes", "max_event_attributes", "max_link_attributes")}; lm[k] = u(mx)
            tp = TracerProvider(sampler=sampling.ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False, span_limits=SpanLimits(max_attribute_length=u(vl), **lm))
            t = tp.get_tracer("t"); sc = trace.SpanContext(5, 6, False)
            self.span = sp = t.start_span("x", attributes=given if s == "span" else None, links=[trace.Link(sc, given)] if s == "link" else None)
            if s == "event": sp.add_event("e", given); 
            if s == "addlink": sp.add_link(sc, given)
            self.c = None
        for v in d.values(): spoil(v, r)
        if given is d: d["spoiled"] = 1; d.pop(next(iter(d)))
    def coll(self):
        s = self.site
        if self.c is not None: return self.c
        if s == "span": return self.span.attributes
        if s == "event": return self.span.events[0].attributes
        return self.span.links[0].attributes
    def dropped(self):
        s = self.site
        if s == "span": return self.span.dropped_attributes
        if s == "event": return self.span.events[0].attributes.dropped
        if s in ("link", "addlink"): return self.span.links[0].attributes.dropped
        if s == "log": return self.rec.dropped_attributes
        return self.c.dropped
    def see(self):
        c = self.coll(); items = list(c.items()); o = [[enckey(k), enc(v)] for k, v in items]
        agree = len(c) == len(items) and list(c) == [k for k, _ in items] and all(k in c and enc(c[k]) == enc(v) and enc(c.get(k)) == enc(v) for k, v in items) and encmap(dict(c)) == o and encmap(c.copy()) == o and c.get("nope") is None and "nope" not in c
        return o, bool(agree), self.dropped()
    def do(self, op, o):
        n = op["op"]; c = self.coll(); r = self.r; s = self.site
        key = lambda: op["k"][2:] if op["k"][:2] == "s:" else dec1(op["k"])
        if n == "set":
            v = value(op["v"], r)
            if s == "span" and r.random() < .7: self.span.set_attribute(key(), v)
            elif s == "span": self.span.set_attributes({key(): v})
            else: c[key()] = v
            spoil(v, r)
        elif n == "update":
            d = build(op["kv"], r)
            if s == "span": self.span.set_attributes(d)
            elif hasattr(c, "update"): c.update(d)
            else: raise TypeError
            for v in d.values(): spoil(v, r)
            d["spoiled"] = 1
        elif n == "setdefault":
            v = value(op["v"], r); c.setdefault(key(), v); spoil(v, r)
        elif n == "del": del c[key()]
        elif n == "pop": c.pop(key())
        elif n == "popitem": o["got"] = enckey(c.popitem()[0])
        elif n == "clear": c.clear()
        elif n == "copy":
            d = c.copy(); d["spoiled"] = 1
            for k in list(d)[:1]: del d[k]
def run(id, seed, cfg, ops):
    r = random.Random(seed * 3 + 1); h = Holder(cfg["site"], cfg, r); ev = []
    for op in ops:
        o = dict(op); o["raised"] = False
        if "kv" in o: o["kv"] = norm(o["kv"])
        if op["op"] == "popitem": o["got"] = ""
        try: h.new(o["kv"]) if op["op"] == "new" else h.do(o, o)
        except Exception as e: o["raised"] = True; o["why"] = repr(e)[:200]
        if op["op"] == "new" and o["raised"]: ev.append({"op": "fail", "what": "creation-raised", "why": o["why"]}); break
        o["obs"], o["agree"], o["dropped"] = h.see(); ev.append(o)
    return {"id": id, "cfg": cfg, "ev": ev, "seed": seed}
SITES = ["bounded", "bounded", "resource", "scope", "log", "span", "event", "link", "addlink"]
def norm_cfg(c):
    if c["site"] in ("resource", "scope"): c.update(max=-1, vl=-1, imm=True)
    if c["site"] in ("event", "link", "addlink"): c["imm"] = True
    if c["site"] in ("log", "span"): c["imm"] = False
    return c
def rops(r, cfg):
    ops = [{"op": "new", "kv": rnd_kv(r)}]; keys = "abcd" if r.random() < .7 else "abcdefgh"
    for _ in range(r.choice([2, 5, 12, 30])):
        n = r.choice(["set"] * 6 + ["update", "setdefault", "del", "pop", "popitem", "clear", "copy", "copy"])
        if cfg["site"] == "span" and n not in ("set", "update", "copy"): continue
        o = {"op": n}
        if n in ("set", "setdefault", "del", "pop"): o["k"] = "s:" + r.choice(keys) if r.random() < .95 or n != "set" else r.choice(["s:", "i:5", "n:", "b:true"])
        if n in ("set", "setdefault"): o["v"] = rnd_val(r)
        if n == "update": o["kv"] = rnd_kv(r, keys=keys)
        ops.append(o)
    return ops
tr = []
if "scripts" in JOB:
    for i, g in enumerate(JOB["scripts"]):
        imm = g["cfg"]["imm"]; c = dict(g["cfg"]); ops = g["ops"]
        sites = ["bounded"] + (["event", "link", "addlink"] if imm else ["log"]) + (["resource", "scope"] if imm and c["max"] == -1 and c["vl"] == -1 else [])
        if not imm and all(o["op"] in ("new", "set", "update", "copy") for o in ops): sites.append("span")
        c["site"] = sites[i % len(sites)]
        tr.append(run(f"gen-{i}", i, c, ops))
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x); c = norm_cfg({"site": r.choice(SITES), "max": r.choice([-1, -1, 0, 1, 2, 3, 5]), "vl": r.choice([-1, -1, 0, 1, 3, 10]), "imm": r.random() < .3})
        tr.append(run(f"rnd-{x}", x, c, rops(r, c)))
finish(tr)
