"""Documents written by the console exporters (E07)."""
from common import JOB, finish
import json, random, math, warnings, logging
from vals import dec, rnd_val
from opentelemetry import trace
from opentelemetry.trace import SpanContext, SpanKind, Status, StatusCode, TraceFlags, TraceState, Link, NonRecordingSpan, set_span_in_context
from opentelemetry.sdk.trace import TracerProvider, ReadableSpan, Event
from opentelemetry.sdk.trace.export import ConsoleSpanExporter
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.sdk._logs import LogRecord, LogData, LogLimits
from opentelemetry.sdk._logs.export import ConsoleLogExporter
from opentelemetry._logs import SeverityNumber
from opentelemetry.sdk.metrics.export import (ConsoleMetricExporter, MetricsData, ResourceMetrics, ScopeMetrics, Metric, Sum, Gauge, Histogram, ExponentialHistogram, NumberDataPoint, HistogramDataPoint,
    ExponentialHistogramDataPoint, AggregationTemporality)
from opentelemetry.sdk.metrics.export import Buckets
from opentelemetry.sdk.metrics import Exemplar
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
def text(v):
    if v is None: return "n:"
    if isinstance(v, bool): return "b:true" if v else "b:false"
    if isinstance(v, int): return f"i:{int(v)}"
    if isinstance(v, float): return f"f:{v!r}"
    return "s:" + str(v)
def flat(v, p=()):
    if isinstance(v, dict) and v: return [x for k, y in v.items() for x in flat(y, p + (k,))]
    if isinstance(v, (list, tuple)) and v: return [x for i, y in enumerate(v) for x in flat(y, p + (str(i),))]
    if isinstance(v, dict): return [[list(p), "{}"]]
    if isinstance(v, (list, tuple)): return [[list(p), "[]"]]
    return [[list(p), text(v)]]
def val(leaves):
    "the attribute value, or any JSON value, with these leaves"
    if len(leaves) == 1 and not leaves[0][0]:
        t = leaves[0][1]
        if t in ("[]", "{}"): return [] if t == "[]" else {}
        return {"i:": int, "f:": float, "s:": str, "b:": lambda x: x == "true", "n:": lambda x: None}[t[:2]](t[2:])
    heads = []; 
    for p, _ in leaves:
        if p[0] not in heads: heads.append(p[0])
    kids = [(h, val([[p[1:], t] for p, t in leaves if p[0] == h])) for h in heads]
    return [v for _, v in kids] if heads == [str(i) for i in range(len(heads))] else dict(kids)
def attrs(a): return {k: val(v) for k, v in a}
def num(b): return int.from_bytes(bytes(b), "big")
def ns(t): return t[0] * 10**9 + t[1] if t else None
def opt(t): return val([[[], t]])
def res(x): return Resource(attrs(x["attrs"]), x["url"])
class Obj:
    def __str__(self): return "<obj>"
def tstate(q): return TraceState([(k, v) for k, v in q])
def sc(x): return SpanContext(num(x["tid"]), num(x["sid"]), False, TraceFlags(1), tstate(x["ts"]))
class Smp(Sampler):
    def __init__(self, ts): self.ts = ts
    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None): return SamplingResult(Decision.RECORD_AND_SAMPLE, attributes, self.ts)
    def get_description(self): return "s"
class Ids(IdGenerator):
    def __init__(self, c): self.c = c
    def generate_span_id(self): return num(self.c["sid"])
    def generate_trace_id(self): return num(self.c["tid"])
def span(i, r):
    c = i["ctx"]; par = SpanContext(num(c["tid"]), num(i["parent"]), r.random() < .5, TraceFlags(1), tstate(c["ts"]) if r.random() < .5 else None) if i["parent"] else None
    st = Status(getattr(StatusCode, i["status"]), i["desc"] or None) if i["status"] == "ERROR" else Status(getattr(StatusCode, i["status"]))
    links = [Link(sc(x), attrs(x["attrs"]) if x["attrs"] or r.random() < .5 else None) for x in i["links"]]
    if r.random() < .4:
        return ReadableSpan(i["name"], sc(c), par, res(i["res"]), attrs(i["attrs"]), [Event(e["name"], attrs(e["attrs"]), ns(e["at"])) for e in i["events"]], links, getattr(SpanKind, i["kind"]), status=st, start_time=ns(i["start"]), end_time=ns(i["end"]))
    t = TracerProvider(Smp(tstate(c["ts"])), res(i["res"]), False, id_generator=Ids(c)).get_tracer("t")
    s = t.start_span(i["name"], set_span_in_context(NonRecordingSpan(par), {}) if par else {}, getattr(SpanKind, i["kind"]), attrs(i["attrs"]) if r.random() < .5 else None, links, ns(i["start"]))
    for k, v in attrs(i["attrs"]).items(): s.set_attribute(k, v)
    for e in i["events"]: s.add_event(e["name"], attrs(e["attrs"]) or (None if r.random() < .5 else {}), ns(e["at"]))
    if i["status"] != "UNSET": s.set_status(st)
    if i["end"]: s.end(ns(i["end"]))
    return s
def log(i, r):
    b = bytes(i["bytes"]) if i["bodyt"] == "bytes" else (r.choice([Obj(), ValueError("<obj>")]) if i["bodyt"] == "obj" else val(i["body"]))
    d = int(i["dropped"][2:]); a = {**{f"gone{j}": j for j in range(d)}, **attrs(i["attrs"])}
    kw = {"limits": LogLimits(max_attributes=len(i["attrs"]))} if d else {}
    return LogData(LogRecord(ns(i["at"]), ns(i["obs"]), num(i["tid"]) if i["tid"] else None, num(i["sid"]) if i["sid"] else None, TraceFlags(opt(i["flags"])) if opt(i["flags"]) is not None else None, opt(i["stext"]),
                             SeverityNumber(opt(i["sev"])) if opt(i["sev"]) else None, b, res(i["res"]), a or (None if r.random() < .5 else {}), **kw), InstrumentationScope("x"))
def point(kind, x):
    f = {tuple(p): opt(t) for p, t in x["f"]}; ls = {tuple(p): [opt(t) for t in q] for p, q in x["ls"]}
    ex = [Exemplar(attrs(e["attrs"]), opt(e["v"]), opt(e["t"]), opt(e["sid"]), opt(e["tid"])) for e in x["ex"]]
    g = {p[0]: v for p, v in f.items() if len(p) == 1}; b = {p[0]: v for p, v in ls.items() if len(p) == 1}
    if kind in ("sum", "gauge"): return NumberDataPoint(attributes=attrs(x["attrs"]), exemplars=ex, **g)
    if kind == "hist": return HistogramDataPoint(attributes=attrs(x["attrs"]), exemplars=ex, **g, **b)
    return ExponentialHistogramDataPoint(attributes=attrs(x["attrs"]), exemplars=ex, **g, **{w: Buckets(f[(w, "offset")], ls[(w, "bucket_counts")]) for w in ("positive", "negative")})
def metrics(i, r):
    def data(m):
        ps = [point(m["kind"], x) for x in m["points"]]; t = AggregationTemporality(opt(m["temp"]))
        return {"sum": lambda: Sum(ps, t, opt(m["mono"])), "gauge": lambda: Gauge(ps), "hist": lambda: Histogram(ps, t), "exp": lambda: ExponentialHistogram(ps, t)}[m["kind"]]()
    return MetricsData([ResourceMetrics(res(R["res"]), [ScopeMetrics(InstrumentationScope(s["name"], opt(s["version"]), s["url"] or r.choice(["", None]), attrs(s["attrs"]) or None),
                        [Metric(m["name"], m["desc"] or r.choice([None, ""]), m["unit"] or r.choice([None, ""]), data(m)) for m in s["metrics"]], s["surl"]) for s in R["scopes"]], R["surl"]) for R in i["rms"]])
BUILD = {"span": span, "log": log, "metrics": metrics}
class Out:
    "what was written is seen once flushed"
    def __init__(self): self.buf = ""; self.seen = ""
    def write(self, s): self.buf += s; return len(s)
    def flush(self): self.seen += self.buf; self.buf = ""
def split(s):
    D = json.JSONDecoder(); out = []; i = 0
    while i < len(s):
        d, i = D.raw_decode(s, i)
        if s[i:i + 1] != "\n": raise ValueError("a document does not end its line")
        i += 1; out.append([[p, t] for p, t in flat(d)])
    return out
def run(id, seed, cfg, ops):
    r = random.Random(seed * 3 + 2); ev = []; out = Out(); kw = {"formatter": lambda x: x.to_json(indent=None) + "\n"} if r.random() < .3 else {}
    X = {"span": ConsoleSpanExporter, "log": ConsoleLogExporter, "metrics": ConsoleMetricExporter}[cfg["kind"]](out=out, **kw)
    for op in ops:
        o = dict(op); o.update(raised=False, docs=[], result=""); n = len(out.seen)
        objs = [BUILD[cfg["kind"]](i, r) for i in op["items"]]
        try:
            q = X.export(objs[0] if cfg["kind"] == "metrics" else r.choice([list, tuple])(objs)); o["result"] = q.name
        except Exception as e: o.update(raised=True, why=repr(e)[:200])
        try: o["docs"] = split(out.seen[n:])
        except ValueError as e: ev.append({"op": "fail", "what": "not-a-json-document", "why": str(e), "text": out.seen[n:][:400]}); break
        ev.append(o)
    return {"id": id, "cfg": cfg, "ev": ev, "seed": seed}
STR = ["", "a", "é日本", 'q"uote\\', "a\nb", "k.1", "\u2028\x01", "😀"]
def ratt(r, n=3):
    out = []
    for k in r.sample(["k", "http.x", "é", 'q"', "a b", "z"], r.choice([0, 0, 1, 2, n])):
        e = rnd_val(r, 0, STR)
        while any(t[:2] == "y:" for t in e): e = rnd_val(r, 0, STR)
        out.append([k, flat(dec(e))])
    return out
def rtime(r): return [r.choice([0, 1, 1700000000, 1700000000, 2147483646, r.randrange(2**31 - 2)]), r.choice([0, 999999999, 999999499, 500, 1000, 999000, r.randrange(10**9)])]
def rid(r, n): return [0] * (n - 1) + [r.randint(1, 255)] if r.random() < .4 else [r.randint(1, 255)] + [r.randint(0, 255) for _ in range(n - 1)]
def rts(r): return [[k, v] for k, v in r.sample([("a", "1"), ("b@v", "x y"), ("c/d", "z:"), ("e", "00")], r.choice([0, 0, 1, 2]))]
def rres(r): return {"attrs": ratt(r), "url": r.choice(["", "http://s/1"])}
def rctx(r): return {"tid": rid(r, 16), "sid": rid(r, 8), "ts": rts(r)}
def rspan(r):
    return {"t": "span", "name": r.choice(STR), "ctx": rctx(r), "kind": r.choice([k.name for k in SpanKind]), "parent": r.choice([[], rid(r, 8)]), "start": rtime(r), "end": r.choice([[], rtime(r), rtime(r)]), "status": r.choice(["UNSET", "OK", "ERROR"]), "desc": r.choice(STR),
            "attrs": ratt(r), "events": [{"name": r.choice(STR), "at": rtime(r), "attrs": ratt(r)} for _ in range(r.choice([0, 0, 1, 2, 3]))], "links": [dict(rctx(r), attrs=ratt(r)) for _ in range(r.choice([0, 0, 1, 2]))], "res": rres(r)}
def rbody(r, d=0):
    x = r.random()
    if d < 3 and x < .3: return {k: rbody(r, d + 1) for k in r.sample(["x", "0", "é", "b c"], r.choice([0, 1, 2]))}
    if d < 3 and x < .5: return [rbody(r, d + 1) for _ in range(r.choice([0, 1, 3]))]
    return r.choice(STR + [None, True, False, 0, -1, 2**62, 1.5, 1e300, -0.25])
def rlog(r):
    bt = r.choice(["json"] * 4 + ["bytes", "obj"]); body = flat(rbody(r)) if bt == "json" else [[[], "s:<obj>"]]
    if bt == "json" and any(p and p[0] == "0" for p, _ in body) and isinstance(val(body), list) is False: body = [[[], "s:b"]]
    return {"t": "log", "bodyt": bt, "bytes": [r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 3, 4, 7]))] if bt == "bytes" else [], "body": body, "sev": r.choice(["n:", f"i:{r.randint(1, 24)}"]), "stext": r.choice(["n:"] + ["s:" + x for x in STR]),
            "attrs": ratt(r), "dropped": r.choice(["i:0", "i:0", "i:2"]), "at": r.choice([[], rtime(r), rtime(r)]), "obs": rtime(r), "tid": r.choice([[], rid(r, 16)]), "sid": r.choice([[], rid(r, 8)]), "flags": r.choice(["n:", "i:0", "i:1"]), "res": rres(r)}
def rnum(r): return text(r.choice([0, 1, -5, 2**53 + 1, 0.5, 1e-9, -2.25, 3.0]))
def rint(r): return text(r.choice([0, 1, 7, 2**40]))
def rpoint(r, kind):
    t = r.randrange(2**62); f = [[["start_time_unix_nano"], text(t if r.random() < .8 or kind != "gauge" else None)], [["time_unix_nano"], text(t + 5)]]; ls = []
    if kind in ("sum", "gauge"): f.append([["value"], rnum(r)])
    else:
        f += [[["count"], rint(r)], [["sum"], rnum(r)], [["min"], r.choice([rnum(r), "f:inf"])], [["max"], r.choice([rnum(r), "f:-inf"])]]
        if kind == "hist": n = r.randint(0, 3); ls += [[["explicit_bounds"], [text(float(x)) for x in range(n)]], [["bucket_counts"], [rint(r) for _ in range(n + 1)]]]
        else:
            f += [[["scale"], text(r.randint(-10, 20))], [["zero_count"], rint(r)], [["flags"], "i:0"]]
            for w in ("positive", "negative"): f.append([[w, "offset"], text(r.randint(-9, 9))]); ls.append([[w, "bucket_counts"], [rint(r) for _ in range(r.randint(0, 3))]])
    ex = [{"attrs": ratt(r), "v": rnum(r), "t": text(t), "sid": r.choice(["n:", text(r.getrandbits(63))]), "tid": r.choice(["n:", text(r.getrandbits(127))])} for _ in range(r.choice([0, 0, 1, 2]))]
    return {"attrs": ratt(r), "ex": ex, "f": f, "ls": ls}
def rmet(r):
    k = r.choice(["sum", "gauge", "hist", "exp"])
    return {"name": r.choice(["m", "x.y"]), "desc": r.choice(STR), "unit": r.choice(["", "By", "{é}"]), "kind": k, "temp": r.choice(["i:1", "i:2"]), "mono": r.choice(["b:true", "b:false"]), "points": [rpoint(r, k) for _ in range(r.choice([0, 1, 2]))]}
def rmets(r):
    return {"t": "metrics", "rms": [{"res": rres(r), "surl": r.choice(["", "u"]), "scopes": [{"name": r.choice(STR), "version": r.choice(["n:", "s:1.0"]), "url": r.choice(["", "u"]), "attrs": ratt(r), "surl": r.choice(["", "w"]), "metrics": [rmet(r) for _ in range(r.choice([0, 1, 2]))]}
                                     for _ in range(r.choice([0, 1, 1, 2]))]} for _ in range(r.choice([0, 1, 1, 2]))]}
RND = {"span": rspan, "log": rlog, "metrics": rmets}
tr = []
if "scripts" in JOB:
    for i, g in enumerate(JOB["scripts"]): tr.append(run(f"gen-{i}", i + JOB["seed"], g["cfg"], g["ops"]))
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x); k = r.choice(list(RND)); ops = []
        for _ in range(r.randint(1, 3)): ops.append({"op": "export", "items": [RND[k](r) for _ in range(1 if k == "metrics" else r.choice([0, 1, 1, 2, 3]))]})
        tr.append(run(f"rnd-{x}", x, {"kind": k}, ops))
finish(tr)
