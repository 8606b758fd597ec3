"""Zipkin exports in each encoding against a scripted server (E05)."""
from common import JOB, finish
import logging; logging.disable(50)
import random, os, json, ipaddress, warnings; warnings.simplefilter("ignore")
import requests
from requests.adapters import HTTPAdapter
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import ReadableSpan, Event
from opentelemetry.sdk.trace.export import SpanExportResult
from opentelemetry.sdk.util import BoundedList
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.trace import SpanContext, TraceFlags, SpanKind, Link, Status, StatusCode
from opentelemetry.exporter.zipkin.encoder import Protocol
from opentelemetry.exporter.zipkin.json import ZipkinExporter as JsonX
from opentelemetry.exporter.zipkin.proto.http import ZipkinExporter as ProtoX
from opentelemetry.exporter.zipkin.proto.http.v2.gen import zipkin_pb2
W = None
class Adapter(HTTPAdapter):
    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None): return W.http(request, timeout)
    def close(self): pass
REAL = requests.Session
class Sess(REAL):
    def __init__(self):
        super().__init__(); self.trust_env = False
        self.mount("http://", Adapter()); self.mount("https://", Adapter())
requests.Session = Sess
h16 = lambda x: format(x, "016x"); h32 = lambda x: format(x, "032x")
def scal(v):
    if v is None: return ["n", ""]
    if isinstance(v, bool): return ["b", str(v).lower()]
    return [{str: "s", int: "i", float: "d"}[type(v)], str(v)]
def val(v):
    """a tag tells scalars and elements by their text"""
    if isinstance(v, (list, tuple)): return ["a", [[*(("n", "") if x is None else ("s", scal(x)[1])), len(json.dumps(None if x is None else scal(x)[1]))] for x in v]]
    return ["s", scal(v)[1]]
def tval(v):
    if isinstance(v, (list, tuple)): return ["a", [tval(x) for x in v]]
    return scal(v)
def attrs(a): return sorted([k, val(v)] for k, v in (a or {}).items())
def ns(t): return [t // 10**9, t % 10**9]
def us(t): return [int(t) // 10**6, int(t) % 10**6]
def span_in(s):
    c = s.get_span_context(); i = s.instrumentation_scope
    return {"tid": h32(c.trace_id), "sid": h16(c.span_id), "pid": h16(s.parent.span_id) if s.parent else "", "name": s.name, "kind": s.kind.name, "start": ns(s.start_time), "end": ns(s.end_time),
            "attrs": attrs(s.attributes), "res": attrs(s.resource.attributes), "scope": {"some": i is not None, "name": i.name if i else "", "version": i.version or "" if i else ""},
            "events": [{"time": ns(e.timestamp), "name": e.name, "attrs": sorted([k, tval(v)] for k, v in e.attributes.items())} for e in s.events],
            "status": s.status.status_code.name, "desc": s.status.description or "", "da": s.dropped_attributes, "de": s.dropped_events, "dl": s.dropped_links}
def tag(k, t, arrays):
    if k in arrays:
        try:
            x = json.loads(t); assert isinstance(x, list)
            return [k, ["a", [["n", ""] if y is None else ["s", y] for y in x]]]
        except Exception: return [k, ["bad", t]]
    return [k, ["s", t] if isinstance(t, str) else ["bad", repr(t)]]
def note(t, v):
    d = json.loads(v); (name, a), = d.items()
    return {"time": us(t), "name": name, "attrs": sorted([k, tval(x)] for k, x in a.items())}
def ep(d): return {"name": d.get("serviceName", ""), "v4": d.get("ipv4", ""), "v6": d.get("ipv6", ""), "port": d.get("port", 0)}
def decode(enc, body, arrays):
    out = []
    if enc == "proto":
        q = zipkin_pb2.ListOfSpans(); q.ParseFromString(body)
        for s in q.spans:
            e = s.local_endpoint
            out.append({"tid": s.trace_id.hex(), "sid": s.id.hex(), "pid": s.parent_id.hex(), "name": s.name, "kind": "" if s.kind == 0 else zipkin_pb2.Span.Kind.Name(s.kind), "start": us(s.timestamp), "dur": us(s.duration),
                        "tags": [tag(k, v, arrays) for k, v in s.tags.items()], "notes": [note(n.timestamp, n.value) for n in s.annotations],
                        "eps": [{"name": e.service_name, "v4": str(ipaddress.ip_address(e.ipv4)) if e.ipv4 else "", "v6": str(ipaddress.ip_address(e.ipv6)) if e.ipv6 else "", "port": e.port}]})
        return out
    for s in json.loads(body, parse_constant=lambda x: 1 / 0):
        if any(v is None for k, v in s.items() if k != "kind"): raise ValueError("null part")
        o = {"tid": s["traceId"], "sid": s["id"], "pid": s.get("parentId", ""), "name": s["name"], "kind": s.get("kind") or "", "start": us(s["timestamp"]), "dur": us(s["duration"]), "notes": [note(n["timestamp"], n["value"]) for n in s.get("annotations", [])]}
        if enc == "v1":
            o["tags"] = [tag(b["key"], b["value"], arrays) for b in s.get("binaryAnnotations", [])]
            o["eps"] = [ep(b["endpoint"]) for b in s.get("binaryAnnotations", []) + s.get("annotations", [])]
        else:
            o["tags"] = [tag(k, v, arrays) for k, v in s.get("tags", {}).items()]; o["eps"] = [ep(s["localEndpoint"])]
        out.append(o)
    return out

STR = ["", "a", "b c", "é", "日本語テキスト", "x" * 40, 'q"uo\\te', "\n\t", "0123456789"]
def scalar(r): return r.choice([lambda: r.choice(STR), lambda: r.choice([0, 1, -1, 2**63, 123456789012]), lambda: r.random() < .5, lambda: r.choice([0.0, -1.5, 1e300, 3.0])])()
def value(r):
    if r.random() < .55: return scalar(r)
    n = r.choice([0, 1, 2, 3, 6])
    return r.choice([lambda: [r.choice(STR + [None]) for _ in range(n)], lambda: [r.choice([1, 2, -2**40, 33333]) for _ in range(n)], lambda: [1.5, -0.5][:n], lambda: [True, False, None][:n]])()
def kv(r, keys="abcdefg"): return {k: value(r) for k in r.sample(keys, r.choice([0, 0, 1, 2, 4]))}
def ctx(r): return SpanContext(r.choice([1, 2**127, 2**128 - 1, r.getrandbits(128) | 1]), r.choice([1, 2**63, 2**64 - 1, r.getrandbits(64) | 1]), r.random() < .4, TraceFlags(r.choice([0, 1])))
def bound(r, a, n=(None, None, 2, 0)): return BoundedAttributes(r.choice(n), a)
def few(r, xs): return xs if r.random() < .5 else BoundedList.from_seq(r.choice([1, 2, 3]), xs)
def mkspan(r, rs):
    start = r.choice([0, 1, 499, 500, 1700000000123456789, 1700000000999999500, 1700000000123456500]); end = start + r.choice([0, 1, 499, 500, 999, 1500, 10**9 - 500, 10**9, 12345678901])
    ev = [Event(r.choice(["e", "", "exc é"]), bound(r, kv(r)), r.choice([1, 1700000000123456789, start + 600])) for _ in range(r.choice([0, 0, 1, 3]))]
    code = r.choice([StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR])
    scope = r.choice([None, InstrumentationScope("lib"), InstrumentationScope("lib", "1.2"), InstrumentationScope("long-library-name", ""), InstrumentationScope("lib", "3", "u", {"x": 1})])
    return ReadableSpan(name=r.choice(STR), context=ctx(r), parent=ctx(r) if r.random() < .6 else None, resource=rs, attributes=bound(r, kv(r)), events=few(r, ev), links=few(r, [Link(ctx(r)) for _ in range(r.choice([0, 0, 1, 2, 4]))]), kind=r.choice(list(SpanKind)),
                        instrumentation_scope=scope, status=Status(code, r.choice(["bad thing happened", "", None]) if code is StatusCode.ERROR else None), start_time=start, end_time=end)
class World:
    def __init__(self, r, c, res):
        self.r, self.c, self.res = r, c, res; self.ev = []; self.posts = []
        for k in [k for k in os.environ if k.startswith("OTEL_")]: del os.environ[k]
        kw = {}; e = c["ep"]; self.url = r.choice(["http://localhost:9411/api/v2/spans", "http://h:1/a", "https://h:2/b"]); self.timeout = 10
        if self.url != "http://localhost:9411/api/v2/spans" or r.random() < .3:
            if r.random() < .5: kw["endpoint"] = self.url; os.environ["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = "http://wrong:1/x"
            else: os.environ["OTEL_EXPORTER_ZIPKIN_ENDPOINT"] = self.url
        x = r.random()
        if x < .2: kw["timeout"] = self.timeout = 3; os.environ["OTEL_EXPORTER_ZIPKIN_TIMEOUT"] = "7"
        elif x < .4: os.environ["OTEL_EXPORTER_ZIPKIN_TIMEOUT"] = "7"; self.timeout = 7
        if e["v4"]: kw["local_node_ipv4"] = e["v4"] if r.random() < .6 else int(ipaddress.ip_address(e["v4"]))
        if e["v6"]: kw["local_node_ipv6"] = e["v6"]
        if e["port"]: kw["local_node_port"] = e["port"]
        if c["max"] or r.random() < .2: kw["max_tag_value_length"] = c["max"]
        if r.random() < .2: kw["session"] = requests.Session()
        if c["enc"] != "proto" and (c["enc"] == "v1" or r.random() < .5): kw["version"] = {"v1": Protocol.V1, "v2": Protocol.V2}[c["enc"]]
        self.x = (ProtoX if c["enc"] == "proto" else JsonX)(**kw)
    def http(self, rq, timeout):
        body = rq.body if isinstance(rq.body, bytes) else (rq.body or "").encode("utf8")
        well = rq.method == "POST" and rq.url == self.url and timeout == self.timeout and rq.headers.get("Content-Type") == ("application/x-protobuf" if self.c["enc"] == "proto" else "application/json")
        sp = []
        try: sp = decode(self.c["enc"], body, self.arrays)
        except Exception as ex: well = False; self.why = repr(ex)
        self.posts.append({"well": well, "spans": sp})
        if self.status == 0: raise requests.exceptions.ConnectionError("scripted")
        p = requests.Response(); p.status_code = self.status; p.reason = "scripted"; p._content = b"x"; p.url = rq.url; p.request = rq
        return p
    def export(self, n, status):
        global W
        W = self; self.status, self.posts, self.why = status, [], ""
        spans = [mkspan(self.r, self.res) for _ in range(n)]
        self.arrays = set("tuvwxyzABCDEFG") and {k for s in spans for a in (s.attributes, s.resource.attributes) for k, v in a.items() if isinstance(v, (list, tuple))}
        # a key of a sequence in one span may be a string's in another
        for s in list(spans):
            if any(k in self.arrays and not isinstance(v, (list, tuple)) for a in (s.attributes, s.resource.attributes) for k, v in a.items()): spans.remove(s)
        if status is None: status = 200
        try: res = {SpanExportResult.SUCCESS: "ok", SpanExportResult.FAILURE: "fail"}.get(self.x.export(spans), "other")
        except BaseException as ex: res = "raised"; self.why += repr(ex)
        self.ev.append({"op": "export", "spans": [span_in(s) for s in spans], "status": status, "posts": self.posts, "result": res, "why": self.why})
    def call(self, op):
        try: res = {"shutdown": self.x.shutdown, "flush": self.x.force_flush}[op](); res = "ok" if res in (None, True) else "other"
        except BaseException as ex: res = repr(ex)
        self.ev.append({"op": op, "result": res})
def scenario(seed, script=None):
    r = random.Random(seed * 7919 + 3)
    svc = r.choice(["svc", "x" * 50, "é"])
    c = script["cfg"] if script else {"enc": r.choice(["v1", "v2", "proto"]), "max": r.choice([0, 0, 1, 2, 3, 5, 10, 16, 128]), "svc": svc,
        "ep": {"name": "", "v4": r.choice(["", "", "1.2.3.4"]), "v6": r.choice(["", "2001:db8::1"]), "port": r.choice([0, 8080])}}
    res = Resource({"service.name": c["svc"], **({k: value(r) for k in r.sample("abhi", r.choice([0, 1, 2]))} if r.random() < .6 else {})})
    w = World(r, c, res)
    if script:
        for o in script["ops"]: w.export(o["n"], o["status"]) if o["op"] == "export" else w.call(o["op"])
    else:
        for _ in range(r.randint(1, 4)): w.export(r.choice([0, 1, 2, 4]), r.choice([200, 200, 202, 0, 201, 204, 301, 400, 404, 429, 500, 503]))
        if r.random() < .3: w.call("flush")
        if r.random() < .4:
            w.call("shutdown"); w.export(1, 200)
            if r.random() < .3: w.call("shutdown"); w.export(1, 200)
    return {"id": f"z-{seed}", "seed": seed, "cfg": c, "ev": w.ev}
out = []
for i, x in enumerate(JOB.get("scripts", [])): out.append(scenario(JOB["seed"] * 10000 + i, x))
for x in range(JOB.get("from", 0), JOB.get("to", 0)): out.append(scenario(x))
finish(out)
