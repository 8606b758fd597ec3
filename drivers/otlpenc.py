"""OTLP encoding of batches of spans, log records and metrics (E03)."""
from common import JOB, finish
import logging; logging.disable(50)
import random, warnings; warnings.simplefilter("ignore")
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ReadableSpan, Event, TracerProvider, SpanLimits
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.sdk._logs import LogRecord, LogData, LogLimits
from opentelemetry.sdk.metrics.export import (MetricsData, ResourceMetrics, ScopeMetrics, Metric, Gauge, Sum, Histogram, ExponentialHistogram, NumberDataPoint, HistogramDataPoint,
                                              ExponentialHistogramDataPoint, AggregationTemporality)
from opentelemetry.sdk.metrics._internal.exponential_histogram.buckets import Buckets as _B
from opentelemetry.sdk.metrics._internal.point import Buckets
from opentelemetry.sdk.metrics import Exemplar
from opentelemetry.trace import SpanContext, TraceFlags, TraceState, SpanKind, Link, Status, StatusCode
from opentelemetry._logs import SeverityNumber
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.exporter.otlp.proto.common.trace_encoder import encode_spans
from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
# -- what the SDK object says
def val(v):
    if v is None: return ["n", ""]
    if isinstance(v, bool): return ["b", str(v)]
    if isinstance(v, str): return ["s", v]
    if isinstance(v, int): return ["i" if -2**63 <= v < 2**63 else "I", str(v)]
    if isinstance(v, float): return ["d", repr(v)]
    if isinstance(v, bytes): return ["y", v.hex()]
    if isinstance(v, (list, tuple)): return ["a", [val(x) for x in v]]
    if isinstance(v, dict): return ["m", [[str(k), val(x)] for k, x in v.items()]]
    return ["o", type(v).__name__]
def attrs(a): return sorted([k, val(v)] for k, v in (a or {}).items())
def res(r): return {"attrs": attrs(r.attributes), "schema": r.schema_url or ""}
def scope(s): return {"name": s.name, "version": s.version or "", "schema": s.schema_url or "", "attrs": attrs(s.attributes)} if s else {"name": "", "version": "", "schema": "", "attrs": []}
h16 = lambda x: format(x, "016x"); h32 = lambda x: format(x, "032x")
def tstate(c): return [list(x) for x in (c.trace_state or {}).items()]
def span_in(s):
    c = s.get_span_context()
    return {"tid": h32(c.trace_id), "sid": h16(c.span_id), "ts": tstate(c), "parent": {"sid": h16(s.parent.span_id) if s.parent else "", "remote": bool(s.parent and s.parent.is_remote)},
            "name": s.name, "kind": s.kind.name, "start": str(s.start_time or 0), "end": str(s.end_time or 0), "attrs": attrs(s.attributes),
            "events": [{"name": e.name, "time": str(e.timestamp), "attrs": attrs(e.attributes), "dropped": e.dropped_attributes} for e in s.events],
            "links": [{"tid": h32(l.context.trace_id), "sid": h16(l.context.span_id), "ts": tstate(l.context), "attrs": attrs(l.attributes), "dropped": l.dropped_attributes, "remote": l.context.is_remote} for l in s.links],
            "status": s.status.status_code.name, "desc": s.status.description or "", "da": s.dropped_attributes, "de": s.dropped_events, "dl": s.dropped_links}
def log_in(l):
    return {"tid": h32(l.trace_id) if l.trace_id else "", "sid": h16(l.span_id) if l.span_id else "", "flags": int(l.trace_flags or 0), "time": str(l.timestamp or 0), "otime": str(l.observed_timestamp or 0),
            "sevn": l.severity_number.value if l.severity_number else 0, "sevt": l.severity_text or "", "body": val(l.body), "attrs": attrs(l.attributes), "da": l.dropped_attributes}
TEMP = {None: 0, AggregationTemporality.DELTA: 1, AggregationTemporality.CUMULATIVE: 2, AggregationTemporality.UNSPECIFIED: 0}
fl = lambda x: "none" if x is None else repr(float(x))
def ex_in(p): return [{"attrs": attrs(x.filtered_attributes), "value": val(x.value), "time": str(x.time_unix_nano), "sid": h16(x.span_id) if x.span_id is not None and x.trace_id is not None else "", "tid": h32(x.trace_id) if x.span_id is not None and x.trace_id is not None else ""} for x in p.exemplars]
def metric_in(m):
    d = m.data; t = {Gauge: "gauge", Sum: "sum", Histogram: "hist", ExponentialHistogram: "exp"}[type(d)]
    pts = []
    for p in d.data_points:
        o = {"attrs": attrs(p.attributes), "start": "-" if t == "gauge" else str(p.start_time_unix_nano), "time": str(p.time_unix_nano), "ex": ex_in(p)}
        if t in ("gauge", "sum"): o["value"] = val(p.value)
        else:
            o.update(count=str(p.count), sum=fl(p.sum), min=fl(p.min), max=fl(p.max))
            if t == "hist": o.update(counts=[str(x) for x in p.bucket_counts], bounds=[fl(x) for x in p.explicit_bounds])
            else: o.update(scale=p.scale, zc=str(p.zero_count), flags=p.flags, pos={"off": p.positive.offset, "counts": [str(x) for x in p.positive.bucket_counts]}, neg={"off": p.negative.offset, "counts": [str(x) for x in p.negative.bucket_counts]})
        pts.append(o)
    return {"name": m.name, "desc": m.description or "", "unit": m.unit or "", "type": t, "temp": 0 if t == "gauge" else TEMP[d.aggregation_temporality], "mono": t == "sum" and d.is_monotonic, "points": pts}
# -- what the request says
def pval(v):
    f = v.WhichOneof("value")
    if f is None: return ["n", ""]
    x = getattr(v, f)
    return {"string_value": lambda: ["s", x], "bool_value": lambda: ["b", str(x)], "int_value": lambda: ["i", str(x)], "double_value": lambda: ["d", repr(x)], "bytes_value": lambda: ["y", x.hex()],
            "array_value": lambda: ["a", [pval(y) for y in x.values]], "kvlist_value": lambda: ["m", [[y.key, pval(y.value)] for y in x.values]]}[f]()
def pattrs(kv): return sorted([x.key, pval(x.value)] for x in kv)
def pscope(s, url): return {"name": s.name, "version": s.version, "schema": url, "attrs": pattrs(s.attributes)}
def pspan(s):
    return {"tid": s.trace_id.hex(), "sid": s.span_id.hex(), "ts": s.trace_state, "psid": s.parent_span_id.hex(), "name": s.name, "kind": s.kind, "start": str(s.start_time_unix_nano), "end": str(s.end_time_unix_nano),
            "attrs": pattrs(s.attributes), "events": [{"name": e.name, "time": str(e.time_unix_nano), "attrs": pattrs(e.attributes), "dropped": e.dropped_attributes_count} for e in s.events],
            "links": [{"tid": l.trace_id.hex(), "sid": l.span_id.hex(), "ts": l.trace_state, "attrs": pattrs(l.attributes), "dropped": l.dropped_attributes_count, "remote": bool(l.flags & 0x200)} for l in s.links],
            "code": s.status.code, "desc": s.status.message, "da": s.dropped_attributes_count, "de": s.dropped_events_count, "dl": s.dropped_links_count, "remote": bool(s.flags & 0x200)}
def plog(l):
    return {"tid": l.trace_id.hex(), "sid": l.span_id.hex(), "flags": l.flags, "time": str(l.time_unix_nano), "otime": str(l.observed_time_unix_nano), "sevn": l.severity_number, "sevt": l.severity_text,
            "body": pval(l.body), "attrs": pattrs(l.attributes), "da": l.dropped_attributes_count}
def num(p): f = p.WhichOneof("value"); return ["n", ""] if f is None else ["i", str(p.as_int)] if f == "as_int" else ["d", repr(p.as_double)]
def pex(p): return [{"attrs": pattrs(x.filtered_attributes), "value": num(x), "time": str(x.time_unix_nano), "sid": x.span_id.hex(), "tid": x.trace_id.hex()} for x in p.exemplars]
def pmetric(m):
    f = m.WhichOneof("data"); d = getattr(m, f) if f else None
    t = {"gauge": "gauge", "sum": "sum", "histogram": "hist", "exponential_histogram": "exp"}.get(f, "none"); pts = []
    opt = lambda p, n: fl(getattr(p, n)) if p.HasField(n) else "none"
    for p in d.data_points if d else []:
        o = {"attrs": pattrs(p.attributes), "start": "-" if t == "gauge" else str(p.start_time_unix_nano), "time": str(p.time_unix_nano), "ex": pex(p)}
        if t in ("gauge", "sum"): o["value"] = num(p)
        else:
            o.update(count=str(p.count), sum=opt(p, "sum"), min=opt(p, "min"), max=opt(p, "max"))
            if t == "hist": o.update(counts=[str(x) for x in p.bucket_counts], bounds=[fl(x) for x in p.explicit_bounds])
            else: o.update(scale=p.scale, zc=str(p.zero_count), flags=p.flags, pos={"off": p.positive.offset, "counts": [str(x) for x in p.positive.bucket_counts]}, neg={"off": p.negative.offset, "counts": [str(x) for x in p.negative.bucket_counts]})
        pts.append(o)
    return {"name": m.name, "desc": m.description, "unit": m.unit, "type": t, "temp": 0 if t in ("gauge", "none") else d.aggregation_temporality, "mono": t == "sum" and d.is_monotonic, "points": pts}
# -- random telemetry
STR = ["", "a", "b c", "é", "日本", "x" * 40]
def scalar(r): return r.choice([lambda: r.choice(STR), lambda: r.choice([0, 1, -1, 2**53 + 1, 2**63 - 1, -2**63]), lambda: r.random() < .5, lambda: r.choice([0.0, -1.5, 1e300, float("inf"), 5e-324, 3.0])])()
def value(r):
    x = r.random()
    if x < .6: return scalar(r)
    if x < .68: return r.choice([2**63, -2**70, 2**64])
    if x < .72: return [1, None, 2] if r.random() < .5 else ["a", None]
    if x < .75: return []
    return r.choice([lambda: [r.choice(STR) for _ in range(r.randint(1, 3))], lambda: [r.choice([1, 2, -2**40, 2**63 if r.random() < .2 else 3]) for _ in range(r.randint(1, 3))], lambda: [1.5, -0.5], lambda: [True, False]])()
def kv(r, n=4): return {k: value(r) for k in r.sample("abcdefg", r.choice([0, 0, 1, 2, n]))}
def body(r, d=0):
    x = r.random()
    if x < .35 + d * .2: return scalar(r)
    if x < .45: return None
    if x < .5: return r.choice([b"\x00\xff", b""])
    if x < .56: return r.choice([object(), ValueError("x"), {1, 2}, 2**64])
    if x < .75: return [body(r, d + 1) for _ in range(r.randint(0, 3))]
    if x < .95: return {k: body(r, d + 1) for k in r.sample(["k", "l", "m", ""], r.randint(0, 3))}
    return (1, "a")
def resources(r):
    a = [({"k": "1"}, ""), ({"k": "1"}, "u"), ({"k": "2", "z": [1, 2]}, ""), ({"k": "3", "n": 5, "big": 2**63}, "u"), ({}, ""), ({"k": "1", "b": True}, "")]
    return r.sample(a, r.choice([1, 2, 3]))
def scopes(r):
    a = [("s", "", "", {}), ("", "1", "", {}), ("s", "1", "", {}), ("s", "1", "u", {}), ("s", "1", "u", {"a": "x"}), ("t", "", "", {}), ("s", "1", "u", {"a": "y", "c": 3}), ("s", "1", "u", {"a": "z", "l": ["p", None]}), None]
    return r.sample(a, r.choice([1, 2, 3]))
mkres = lambda x: Resource(x[0], x[1])
mkscope = lambda x: x and InstrumentationScope(x[0], x[1], x[2], x[3])
def tid(r): return r.choice([1, 2**127, 2**128 - 1, r.getrandbits(128) | 1, 0x10])
def sid(r): return r.choice([1, 2**63, 2**64 - 1, r.getrandbits(64) | 1, 0xab])
def ctx(r): return SpanContext(tid(r), sid(r), r.random() < .4, TraceFlags(r.choice([0, 1])), TraceState(r.choice([[], [("a", "1")], [("a", "1"), ("b@c", "x y")]])) if r.random() < .8 else None)
def bound(r, a): return BoundedAttributes(r.choice([None, None, 2, 0]), a)
def mkspan(r, rs, sc):
    ev = [Event(r.choice(["e", "", "exc"]), bound(r, kv(r)), r.choice([1, 2**62])) for _ in range(r.choice([0, 0, 1, 3]))]
    ln = [Link(ctx(r), bound(r, kv(r, 2))) for _ in range(r.choice([0, 0, 1, 2]))]
    code = r.choice([StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR])
    return ReadableSpan(name=r.choice(STR), context=ctx(r), parent=ctx(r) if r.random() < .6 else None, resource=rs, attributes=bound(r, kv(r)), events=ev, links=ln, kind=r.choice(list(SpanKind)), instrumentation_scope=sc,
                        status=Status(code, r.choice(["bad", "", None]) if code is StatusCode.ERROR else None), start_time=r.choice([1, 2**62, 1700000000123456789]), end_time=r.choice([2, 2**62 + 1, None]))
def sdkspans(r, spec):
    """the same through the SDK, limits and all"""
    from opentelemetry.sdk.trace.export import SimpleSpanProcessor
    from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
    from opentelemetry.trace import set_span_in_context, NonRecordingSpan
    from opentelemetry.context import Context
    mem = InMemorySpanExporter(); tps = {}
    for rs, sc in spec:
        k = str(rs)
        if k not in tps:
            tps[k] = TracerProvider(resource=mkres(rs), shutdown_on_exit=False, span_limits=SpanLimits(max_attributes=r.choice([2, 8]), max_events=r.choice([1, 4]), max_links=r.choice([1, 4]), max_event_attributes=r.choice([1, 8])))
            tps[k].add_span_processor(SimpleSpanProcessor(mem))
        t = tps[k].get_tracer(*(sc or ("d", "", "", {}))[:2], schema_url=(sc or ("", "", "", {}))[2], attributes=(sc or ("", "", "", {}))[3])
        s = t.start_span(r.choice(STR), context=set_span_in_context(NonRecordingSpan(ctx(r)), Context()) if r.random() < .6 else Context(), kind=r.choice(list(SpanKind)), attributes=kv(r), links=[Link(ctx(r), kv(r)) for _ in range(r.choice([0, 1, 3]))])
        for _ in range(r.choice([0, 0, 1, 3])): s.add_event("e", kv(r))
        if r.random() < .4: s.set_status(r.choice([StatusCode.OK, StatusCode.ERROR]), None)
        if r.random() < .2: s.record_exception(ValueError("x"))
        s.end()
    return list(mem.get_finished_spans())
def mklog(r, rs, sc):
    kw = {}
    for k, f in (("timestamp", lambda: r.choice([1, 2**62])), ("observed_timestamp", lambda: 5), ("trace_id", lambda: r.choice([0, tid(r)])), ("span_id", lambda: r.choice([0, sid(r)])), ("trace_flags", lambda: TraceFlags(r.choice([0, 1]))),
                 ("severity_text", lambda: r.choice(["INFO", "", "é"])), ("severity_number", lambda: r.choice(list(SeverityNumber))), ("body", lambda: body(r)), ("attributes", lambda: kv(r))):
        if r.random() < .85: kw[k] = f()
    if r.random() < .3: kw["limits"] = LogLimits(max_attributes=r.choice([0, 1, 3]))
    return LogData(LogRecord(resource=rs, **kw), sc)
def mkmetric(r, i):
    def exs(): return [Exemplar(kv(r, 2), r.choice([1, -2, 1.5, 2**63 - 1, 0.0]), r.choice([1, 2**62]), r.choice([sid(r), None]), r.choice([tid(r), None])) for _ in range(r.choice([0, 0, 1, 2]))]
    def at(): return kv(r)
    t = r.choice(["gauge", "sum", "hist", "exp"]); n = r.choice([1, 1, 2, 4]); temp = r.choice([AggregationTemporality.DELTA, AggregationTemporality.CUMULATIVE])
    number = lambda: r.choice([0, 1, -5, 2**63 - 1, 0.0, 1.5, -1e300, float("inf")])
    ts = lambda: r.choice([1, 7, 2**62])
    if t == "gauge": d = Gauge([NumberDataPoint(at(), None, ts(), number(), exs()) for _ in range(n)])
    elif t == "sum": d = Sum([NumberDataPoint(at(), ts(), ts(), number(), exs()) for _ in range(n)], temp, r.random() < .5)
    elif t == "hist":
        b = r.choice([[], [0.0], [1.0, 2.5, 10.0]])
        mm = lambda: r.choice([0, 1.5, -3, None])
        d = Histogram([HistogramDataPoint(at(), ts(), ts(), r.choice([0, 3, 2**40]), r.choice([0, 1.5, -2]), [r.choice([0, 1, 2**40]) for _ in range(len(b) + 1)], b, mm(), mm(), exs()) for _ in range(n)], temp)
    else:
        bu = lambda: Buckets(r.choice([-5, 0, 3]), [r.choice([0, 1, 2**33]) for _ in range(r.choice([0, 1, 3]))])
        d = ExponentialHistogram([ExponentialHistogramDataPoint(at(), ts(), ts(), r.choice([0, 3, 2**40]), r.choice([0, 1.5]), r.choice([-10, 0, 20]), r.choice([0, 2]), bu(), bu(), 0, r.choice([0, 1.5]), r.choice([2, 1e9]), exs()) for _ in range(n)], temp)
    return Metric(f"m{i}", r.choice(["", "d é", None]), r.choice(["", "ms", None]), d)

def encode(r, sig, spec, sdk=False):
    """spec: (resource, scope) of each item"""
    share = r.random() < .5; cache = {}
    def get(f, x): return cache.setdefault(str((f, x)), f(x)) if share else f(x)
    e = {"op": "encode", "sig": sig, "raised": False, "out": []}
    if sig == "traces":
        obj = sdkspans(r, spec) if sdk else [mkspan(r, get(mkres, a), get(mkscope, b)) for a, b in spec]
        e["batch"] = [{"res": res(s.resource), "scope": scope(s.instrumentation_scope), "item": span_in(s)} for s in obj]
    elif sig == "logs":
        obj = [mklog(r, get(mkres, a), get(mkscope, b)) for a, b in spec]
        e["batch"] = [{"res": res(l.log_record.resource), "scope": scope(l.instrumentation_scope), "item": log_in(l.log_record)} for l in obj]
    else:
        by = {}; e["batch"] = []
        for i, (a, b) in enumerate(spec):
            b = b or ("s", "", "", {})
            by.setdefault(str(a), (a, {}))[1].setdefault(str(b), (b, []))[1].append(mkmetric(r, i))
        rms = []
        for a, sc in by.values():
            sms = []
            for b, ms in sc.values():
                x = mkscope(b); sms.append(ScopeMetrics(x, ms, x.schema_url))
                e["batch"] += [{"res": res(mkres(a)), "scope": scope(x), "item": metric_in(m)} for m in ms]
            rms.append(ResourceMetrics(mkres(a), sms, a[1]))
        obj = MetricsData(rms)
    try: q = {"traces": encode_spans, "logs": encode_logs, "metrics": encode_metrics}[sig](obj)
    except Exception as ex: e["raised"] = True; e["why"] = repr(ex); return e
    q = type(q).FromString(q.SerializeToString())
    f = {"traces": ("resource_spans", "scope_spans", "spans", pspan), "logs": ("resource_logs", "scope_logs", "log_records", plog), "metrics": ("resource_metrics", "scope_metrics", "metrics", pmetric)}[sig]
    e["out"] = [{"res": {"attrs": pattrs(g.resource.attributes), "schema": g.schema_url}, "scopes": [{"scope": pscope(s.scope, s.schema_url), "items": [f[3](x) for x in getattr(s, f[2])]} for s in getattr(g, f[1])]} for g in getattr(q, f[0])]
    return e
out = []
if "scripts" in JOB:
    R2 = {"r1": ({"k": "r1"}, ""), "r2": ({"k": "r2"}, "")}
    for i, x in enumerate(JOB["scripts"]):
        r = random.Random(JOB["seed"] * 100003 + i)
        spec = [(R2[o["r"]], (o["s"], "", "", {}) if o["s"] else None) for o in x["ops"]]
        out.append({"id": f"gen-{i}", "cfg": {"x": 0}, "ev": [encode(r, s, spec) for s in ("traces", "logs", "metrics")]})
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x * 7919 + 17); ev = []
        for sig in ("traces", "logs", "metrics", "traces"):
            rs, sc = resources(r), scopes(r)
            ev.append(encode(r, sig, [(r.choice(rs), r.choice(sc)) for _ in range(r.choice([0, 1, 2, 4, 7]))], sdk=sig == "traces" and len(ev) == 3))
        out.append({"id": f"rnd-{x}", "cfg": {"x": 0}, "ev": ev, "seed": x})
finish(out)
