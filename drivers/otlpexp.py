"""OTLP exporters over gRPC (E01) and HTTP (E02) against a scripted server, in virtual time."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import os, random, threading, time, gc, gzip, zlib
import grpc, requests
from requests.adapters import HTTPAdapter
from google.rpc.error_details_pb2 import RetryInfo
W = None

class Err(grpc.RpcError):
    def __init__(self, code, md=()): self._c, self._m = code, md
    def code(self): return self._c
    def details(self): return "scripted"
    def trailing_metadata(self): return self._m
    def initial_metadata(self): return ()
class Chan:
    def __init__(self, target, sec, compression=None, **k):
        self.target, self.sec, self.comp, self.creds = target, sec, compression, k.get("creds") or ["", "", ""]; self.gone = threading.Event()
    def unary_unary(self, method, request_serializer=None, response_deserializer=None, **k):
        def call(request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
            body = request_serializer(request)
            if self.gone.is_set(): raise ValueError("Cannot invoke RPC on closed channel!")
            return W.grpc(self, method, body, timeout, metadata, compression)
        call.with_call = lambda *a, **k: (call(*a, **k), None)
        return call
    unary_stream = stream_unary = stream_stream = unary_unary
    def close(self):
        W.log(op="CL"); self.gone.set()
    def subscribe(self, *a, **k): pass
    unsubscribe = subscribe
grpc.insecure_channel = lambda target, options=None, compression=None: Chan(target, False, compression)
grpc.secure_channel = lambda target, credentials, options=None, compression=None: Chan(target, True, compression, creds=credentials)
text = lambda b: "" if b is None else b.decode()
grpc.ssl_channel_credentials = lambda root_certificates=None, private_key=None, certificate_chain=None: [text(root_certificates) or "default", text(certificate_chain), text(private_key)]
for k in range(1, 4):
    for f in ("ca", "crt", "key"): open(f"{f}{k}.pem", "w").write(f"{f}{k}.pem")

class Adapter(HTTPAdapter):
    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        pair = [cert or "", ""] if not isinstance(cert, tuple) else list(cert)
        return W.http(request, timeout, ["default" if verify is True else str(verify)] + pair)
    def close(self): pass

from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, SpanExportResult
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.sdk._logs import LogRecord, LogData
from opentelemetry.sdk._logs.export import LogExportResult
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.sdk.metrics.export import MetricsData, ResourceMetrics, ScopeMetrics, Metric, Gauge, Sum, NumberDataPoint, AggregationTemporality, MetricExportResult
from opentelemetry.proto.collector.trace.v1.trace_service_pb2 import ExportTraceServiceRequest
from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import ExportLogsServiceRequest
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest
from opentelemetry.trace import TraceFlags
from opentelemetry._logs import SeverityNumber
KIND = JOB["kind"]
if KIND == "grpc":
    from opentelemetry.exporter.otlp.proto.grpc.trace_exporter import OTLPSpanExporter as SpanX
    from opentelemetry.exporter.otlp.proto.grpc._log_exporter import OTLPLogExporter as LogX
    from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter as MetricX
    COMP = {"none": grpc.Compression.NoCompression, "gzip": grpc.Compression.Gzip, "deflate": grpc.Compression.Deflate}
else:
    from opentelemetry.exporter.otlp.proto.http.trace_exporter import OTLPSpanExporter as SpanX
    from opentelemetry.exporter.otlp.proto.http._log_exporter import OTLPLogExporter as LogX
    from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter as MetricX
    from opentelemetry.exporter.otlp.proto.http import Compression
    COMP = {"none": Compression.NoCompression, "gzip": Compression.Gzip, "deflate": Compression.Deflate}
    REAL = requests.Session
    class Sess(REAL):
        def __init__(self):
            super().__init__(); self.trust_env = False
            self.mount("http://", Adapter()); self.mount("https://", Adapter())
    requests.Session = Sess
CLS = {"traces": SpanX, "metrics": MetricX, "logs": LogX}
REQ = {"traces": ExportTraceServiceRequest, "metrics": ExportMetricsServiceRequest, "logs": ExportLogsServiceRequest}

def spans(ids):
    mem = InMemorySpanExporter(); tp = TracerProvider(shutdown_on_exit=False, resource=Resource({})); tp.add_span_processor(SimpleSpanProcessor(mem))
    for i in ids: tp.get_tracer("t").start_span(f"i{i}").end()
    return mem.get_finished_spans()
def logs(ids): return [LogData(LogRecord(timestamp=1, trace_id=0, span_id=0, trace_flags=TraceFlags(0), severity_number=SeverityNumber.INFO, body=f"i{i}", resource=Resource({})), InstrumentationScope("l")) for i in ids]
LOC = {}
def metrics(ids, r):
    rms = []; left = list(ids)
    def take():
        n = r.randint(1, max(1, len(left))); x = left[:n]; del left[:n]; return x
    while left or not rms:
        scopes = []
        for a in range(r.randint(1, 2)):
            ms = []
            for b in range(r.randint(1, 3)):
                if not left: break
                pts = [NumberDataPoint({}, 1, 2, i) for i in take()]
                for q in pts: LOC[q.value] = (len(rms), f"s{a}", f"m{b}")
                ms.append(Metric(f"m{b}", "", "", Gauge(pts) if r.random() < .5 else Sum(pts, AggregationTemporality.CUMULATIVE, True)))
            if ms or not ids: scopes.append(ScopeMetrics(InstrumentationScope(f"s{a}"), ms, ""))
        rms.append(ResourceMetrics(Resource({"r": len(rms)}), scopes, ""))
        if not ids: break
    return MetricsData(rms)
def decode(sig, body):
    q = REQ[sig](); q.ParseFromString(body)
    if sig == "traces": return [int(s.name[1:]) for r in q.resource_spans for x in r.scope_spans for s in x.spans]
    if sig == "logs": return [int(s.body.string_value[1:]) for r in q.resource_logs for x in r.scope_logs for s in x.log_records]
    out = []
    for r in q.resource_metrics:
        for x in r.scope_metrics:
            for m in x.metrics:
                for p in (m.gauge.data_points if m.HasField("gauge") else m.sum.data_points):
                    if LOC[p.as_int] != (r.resource.attributes[0].value.int_value, x.scope.name, m.name): raise ValueError("moved")
                    out.append(p.as_int)
    return out

RETRY = {"grpc": ["CANCELLED", "DEADLINE_EXCEEDED", "RESOURCE_EXHAUSTED", "ABORTED", "OUT_OF_RANGE", "UNAVAILABLE", "DATA_LOSS"], "http": [408, 500, 502, 503, 504, 505, 599]}
FATAL = {"grpc": ["UNKNOWN", "INVALID_ARGUMENT", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "UNAUTHENTICATED", "FAILED_PRECONDITION", "UNIMPLEMENTED", "INTERNAL"], "http": [400, 401, 403, 404, 405, 413, 415, 429, 499]}

class World:
    def __init__(self, s, r, cfg, outs):
        self.s, self.r, self.cfg, self.outs, self.ev, self.who, self.n = s, r, cfg, outs, [], {}, 0
    def log(self, **k):
        k["t"] = (self.s.now - vt.EPOCH) // 1_000_000; self.ev.append(k)
    def next(self):
        o = self.outs[self.n % len(self.outs)]; self.n += 1; return o
    def begin(self, **k):
        k["k"] = self.who.get(threading.get_ident(), "?"); self.log(op="A", **k); return k["k"]
    def grpc(self, ch, method, body, timeout, metadata, comp):
        sig = self.cfg["signal"]; well = True; items = []
        try: items = decode(sig, body)
        except Exception: well = False
        md = [(k, v) for k, v in metadata or () if k != "user-agent"]
        comp = comp if comp is not None else ch.comp
        k = self.begin(items=items, url=ch.target, sec=ch.sec, hdr=[list(x) for x in md], enc={None: "none", **{v: n for n, v in COMP.items()}}.get(comp, repr(comp)), tmo=str(timeout), tls=ch.creds,
                       well=well and any(a == "user-agent" for a, _ in metadata or ()) and {"traces": "TraceService", "metrics": "MetricsService", "logs": "LogsService"}[sig] + "/Export" in method)
        o = self.next()
        if o["dur"]: ch.gone.wait(o["dur"] / 1000)
        if ch.gone.is_set():
            self.log(op="AR", k=k, o="retry", d=-1); raise Err(grpc.StatusCode.CANCELLED)
        self.log(op="AR", k=k, o=o["o"], d=o["d"])
        if o["o"] == "ok": return object()
        md = ()
        if o["d"] != -1:
            if o["d"] == -2: b = RetryInfo(); b.retry_delay.seconds = -3; b = b.SerializeToString() if o["neg"] else b"\xff\xff\x01garbage"
            else: x = RetryInfo(); x.retry_delay.FromMilliseconds(o["d"]); b = x.SerializeToString()
            md = (("other", "x"), ("google.rpc.retryinfo-bin", b))
        raise Err(getattr(grpc.StatusCode, o["code"]), md)
    def http(self, rq, timeout, tls):
        sig = self.cfg["signal"]; well = rq.method == "POST" and rq.headers.get("Content-Type") == "application/x-protobuf"; items = []
        enc = rq.headers.get("Content-Encoding", "none")
        try: items = decode(sig, {"gzip": gzip.decompress, "deflate": zlib.decompress, "none": bytes}[enc](rq.body or b""))
        except Exception as ex: well = False
        k = self.begin(items=items, url=rq.url, sec=False, enc=enc, tmo=str(timeout), tls=tls, well=well, hdr=[[a.lower(), b] for a, b in rq.headers.items() if a.lower().startswith("x-")])
        o = self.next()
        if o["dur"]: time.sleep(o["dur"] / 1000)
        self.log(op="AR", k=k, o=o["o"], d=-1)
        if o["o"] == "conn": raise (requests.exceptions.ConnectionError if o["neg"] else requests.exceptions.ReadTimeout)("scripted")
        p = requests.Response(); p.status_code = o["code"]; p.reason = "scripted"; p._content = b"x"; p.url = rq.url; p.request = rq
        return p

def outcome(r, o):
    d = -1; code = "OK" if KIND == "grpc" else r.choice([200, 202, 204])
    if o == "rd": d = r.choice([0, 1, 500, 3000, 10000]); o = "retry"
    elif o == "rn": d = -2; o = "retry"
    if o in ("retry", "fatal"): code = r.choice((RETRY if o == "retry" else FATAL)[KIND])
    return {"o": o, "d": d, "code": code, "dur": r.choice([0, 0, 0, 5, 200, 4000]), "neg": r.random() < .5}
def headers(r, n=0.5):
    return [] if r.random() > n else [[f"x-{c}", r.choice(["v", "v w", "a=b", "1", "Q"])] for c in r.sample("abc", r.randint(1, 3))]
def spell(hs, r):
    def one(k, v):
        if r.random() < .5: v = v.replace("=", "%3D") if r.random() < .5 else v
        if r.random() < .7: v = v.replace(" ", "%20")
        return r.choice(["", " "]) + (k.upper() if r.random() < .3 else k) + "=" + v + r.choice(["", " "])
    return ",".join(one(*h) for h in hs)
def level(r, sig, which):
    g = KIND == "grpc"
    v = lambda xs: r.choice(xs) if r.random() < .3 else ""
    ep = ["http://h:1", "https://h:2", "h:3", "localhost:4"] if g else ["http://h:1", "http://h:1/", "http://h:1/p", "http://h:1/p/", "https://h:2/p/q"]
    if which != "gen" and not g: ep = ["http://h:1/x", "http://h:1/x/", "https://h:2/v1/y"]
    return {"endpoint": v(ep), "headers": headers(r, .3), "compression": v(["none", "gzip", "deflate"]),
            "timeout": v(["1", "7", "30"]), "insecure": v(["true", "false"]) if g else "",
            **({"ca": v(["given"]), "crt": "", "key": ""} if g and which == "arg" else {f: v([f + "1.pem", f + "2.pem", f + "3.pem"]) for f in ("ca", "crt", "key")})}
TLS = {"ca": "CERTIFICATE", "crt": "CLIENT_CERTIFICATE", "key": "CLIENT_KEY"}
def make(c, r):
    for k in [k for k in os.environ if k.startswith("OTEL_")]: del os.environ[k]
    for name, l in (("", c["gen"]), (c["signal"].upper() + "_", c["sig"])):
        pre = "OTEL_EXPORTER_OTLP_" + name
        for f in ("endpoint", "compression", "timeout", "insecure"):
            if l[f]: os.environ[pre + f.upper()] = l[f] if f in ("endpoint", "timeout") or r.random() < .6 else (l[f].upper() if r.random() < .5 or f == "insecure" else f" {l[f]} ")
        for f, n in TLS.items():
            if l[f]: os.environ[pre + n] = l[f]
        if l["headers"]: os.environ[pre + "HEADERS"] = spell(l["headers"], r)
    a = c["arg"]; kw = {}
    if a["endpoint"]: kw["endpoint"] = a["endpoint"]
    if a["headers"]: kw["headers"] = dict(a["headers"]) if KIND == "http" or r.random() < .4 else tuple(map(tuple, a["headers"])) if r.random() < .6 else spell(a["headers"], r)
    if a["compression"]: kw["compression"] = COMP[a["compression"]]
    if a["timeout"]: kw["timeout"] = int(a["timeout"])
    if a["insecure"]: kw["insecure"] = a["insecure"] == "true"
    if KIND == "grpc":
        if a["ca"]: kw["credentials"] = ["given", "", ""]
    else:
        for f, n in (("ca", "certificate_file"), ("crt", "client_certificate_file"), ("key", "client_key_file")):
            if a[f]: kw[n] = a[f]
    if c["max"]: kw["max_export_batch_size"] = c["max"]
    if KIND == "http" and r.random() < .3: kw["session"] = requests.Session()
    return CLS[c["signal"]](**kw)
EMPTY = {"endpoint": "", "headers": [], "compression": "", "timeout": "", "insecure": "", "ca": "", "crt": "", "key": ""}

def scenario(seed, script=None):
    global W
    r = random.Random(seed * 7919 + 3)
    sig = r.choice(list(CLS)) if not script else script["sig"]
    conf = not script and r.random() < .4
    c = {"kind": KIND, "signal": sig, "max": r.choice([1, 2, 3]) if KIND == "grpc" and sig == "metrics" and r.random() < .5 else 0, "slack": 20,
         **{k: level(r, sig, k) if conf else EMPTY for k in ("arg", "sig", "gen")}}
    race = not script and not conf and r.random() < .7
    s = vt.Sched(seed, tick=200, early_timer=0.0, **({} if race and KIND == "grpc" else {"strategy": "seq"}))
    box = []
    def main():
        global W
        if script:
            outs = [outcome(r, o) for o in script["ops"] if o != "stop"]
        else:
            wt = r.choice([["ok", "ok", "retry", "fatal"], ["retry"] * 8 + ["rd", "rd", "ok"], ["retry", "rd", "rn", "ok", "fatal"] if KIND == "grpc" else ["retry", "retry", "conn", "ok", "fatal"]])
            outs = [outcome(r, r.choice(wt)) for _ in range(30)]
        if KIND == "http":
            for o in outs:
                if o["d"] != -1: o["d"] = -1
        w = W = World(s, r, c, outs); box.append(w)
        x = make(c, r)
        n = [0]
        def export(k, size, dly=0):
            if dly: time.sleep(dly)
            w.who[threading.get_ident()] = k
            ids = list(range(n[0] + 1, n[0] + size + 1)); n[0] += size
            if sig == "metrics": data = metrics(ids, r)
            else: data = spans(ids) if sig == "traces" else logs(ids)
            w.log(op="E", k=k, items=ids)
            try: res = x.export(data); res = {SpanExportResult.SUCCESS: "ok", LogExportResult.SUCCESS: "ok", MetricExportResult.SUCCESS: "ok", SpanExportResult.FAILURE: "fail", LogExportResult.FAILURE: "fail", MetricExportResult.FAILURE: "fail"}.get(res, repr(res))
            except vt.Killed: raise
            except BaseException as ex: res = "raised:" + repr(ex)
            w.log(op="ER", k=k, r=res.split(":")[0], why=res)
        def stop(f, to, dly=0):
            if dly: time.sleep(dly)
            dflt = to is None or KIND == "http" or sig == "traces"
            w.log(op="S", f=f, to=30000 if dflt else to); err = ""
            try: x.shutdown() if dflt else x.shutdown(timeout_millis=to)
            except vt.Killed: raise
            except BaseException as ex: err = repr(ex)
            w.log(op="SR", f=f, err=err)
        k = 0
        if script:
            stops = [sum(o != "stop" for o in script["ops"][:i]) for i, o in enumerate(script["ops"]) if o == "stop"]; ns = 0
            while (w.n < len(outs) or ns < len(stops)) and k < 20:
                if ns < len(stops) and stops[ns] <= w.n: ns += 1; stop(f"s{ns}", None)
                else: k += 1; export(f"e{k}", r.choice([1, 2, 3]))
                if ns and k >= 3 and ns == len(stops): break
        else:
            th = []
            if race:
                for i in range(r.choice([1, 1, 2, 3]) if KIND == "grpc" else 1): th.append(threading.Thread(target=export, args=(f"e{i}", r.choice([0, 1, 2, 4]), r.choice([0, 0, 0.1, 3]))))
                for i in range(r.choice([1, 1, 2])): th.append(threading.Thread(target=stop, args=(f"s{i}", r.choice([None, None, 100, 2500]), r.choice([0, 0, 0.002, 0.1, 0.7, 2, 5, 17]))))
                r.shuffle(th)
                for t in th: t.start()
                for t in th: t.join()
            for i in range(r.randint(1, 4)):
                export(f"f{i}", r.choice([0, 1, 2, 5, 7]))
                if r.random() < .2: stop(f"t{i}", None)
            if r.random() < .5: stop("z", None); export("y", 2)
        w.log(op="end")
    s.run(main)
    w = box[0]
    if s.aborted: w.log(op="fail", what="hang:" + str(s.aborted) + repr(getattr(s, "blocked", "")))
    if s.errors: w.log(op="fail", what="died:" + repr(s.errors))
    return {"id": f"{KIND}-{seed}", "seed": seed, "cfg": c, "ev": w.ev}
out = []
if "scripts" in JOB:
    for i, x in enumerate(JOB["scripts"]): out.append(scenario(JOB["seed"] * 1000 + i, {"sig": ["traces", "metrics", "logs"][i % 3], "ops": x["ops"]}))
else:
    for x in range(JOB["from"], JOB["to"]): out.append(scenario(x))
finish(out)
