"""Temporality and aggregation preferences of metric exporters, measured at what leaves them (E06)."""
from common import JOB, finish
import logging; logging.disable(50)
import os, random, math, json, io, gzip
import grpc, requests
BOX = []
class Chan:
    def __init__(self, *a, **k): pass
    def unary_unary(self, method, request_serializer=None, response_deserializer=None, **k):
        return lambda request, **k: BOX.append(request_serializer(request))
    unary_stream = stream_unary = stream_stream = unary_unary
    def close(self): pass
grpc.insecure_channel = Chan
from opentelemetry.sdk.metrics import MeterProvider, Counter, UpDownCounter, Histogram, ObservableCounter, ObservableUpDownCounter, ObservableGauge
from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader, ConsoleMetricExporter, InMemoryMetricReader, AggregationTemporality as AT
from opentelemetry.sdk.metrics.view import DropAggregation, LastValueAggregation, SumAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, DefaultAggregation, View
from opentelemetry.metrics import Observation
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter as GrpcX
from opentelemetry.exporter.otlp.proto.http.metric_exporter import OTLPMetricExporter as HttpX
from opentelemetry.proto.collector.metrics.v1.metrics_service_pb2 import ExportMetricsServiceRequest as Req
KINDS = ["c", "ud", "h", "g", "oc", "ou", "og"]
CLS = {"c": Counter, "ud": UpDownCounter, "h": Histogram, "oc": ObservableCounter, "ou": ObservableUpDownCounter, "og": ObservableGauge}
NONE = {"type": "none", "temp": "", "mono": False, "v": 0, "n": 0, "bounds": 0}
AGG = {"drop": DropAggregation, "last": LastValueAggregation, "sum": SumAggregation, "hist": ExplicitBucketHistogramAggregation, "exp": ExponentialBucketHistogramAggregation, "dflt": DefaultAggregation, "hist5": lambda: ExplicitBucketHistogramAggregation(boundaries=(5,))}
class Sess(requests.Session):
    def post(self, url=None, data=None, **k): BOX.append(data); return resp()
    def request(self, *a, data=None, **k): BOX.append(data); return resp()
def resp():
    p = requests.Response(); p.status_code = 200; p._content = b""; return p
TMP = {0: "", 1: "d", 2: "c"}
num = lambda x: int(x) if x == int(x) else -999
def point(ty, temp, mono, p):
    o = dict(NONE, type=ty)
    if ty == "gauge": o["v"] = num(p["value"])
    elif ty == "sum": o.update(temp=temp, mono=mono, v=num(p["value"]))
    else: o.update(temp=temp, v=num(p["sum"]), n=num(p["count"]), bounds=len(p["explicit_bounds"]) if ty == "hist" else 0)
    return o
def put(got, k, o):
    if k not in got or got[k] != NONE: raise ValueError("point twice or unknown: " + k)
    got[k] = o
def of_req(raw, got):
    q = Req(); q.ParseFromString(raw)
    for r in q.resource_metrics:
        for s in r.scope_metrics:
            for m in s.metrics:
                w = m.WhichOneof("data"); d = getattr(m, w)
                for p in d.data_points:
                    x = {"value": p.as_int if p.WhichOneof("value") == "as_int" else p.as_double} if w in ("sum", "gauge") else {"sum": p.sum, "count": p.count, "explicit_bounds": list(p.explicit_bounds) if w == "histogram" else []}
                    put(got, m.name, point({"histogram": "hist", "exponential_histogram": "exp"}.get(w, w), "" if w == "gauge" else TMP[d.aggregation_temporality], w == "sum" and d.is_monotonic, x))
def of_json(text, got):
    for line in [json.loads(text)] if text.strip() else []:
        for r in line["resource_metrics"]:
            for s in r["scope_metrics"]:
                for m in s["metrics"]:
                    d = m["data"]; t = TMP[d["aggregation_temporality"]] if "aggregation_temporality" in d else ""
                    for p in d["data_points"]:
                        ty = ("exp" if "scale" in p else "hist") if "count" in p else "sum" if "is_monotonic" in d else "gauge"
                        put(got, m["name"], point(ty, t, bool(d.get("is_monotonic")) and ty == "sum", p))
def run(i, seed, cfg, ops):
    r = random.Random(seed); BOX.clear(); out = io.StringIO(); ev = []
    for k in [k for k in os.environ if k.startswith("OTEL_")]: del os.environ[k]
    for w, n in (("t", "TEMPORALITY_PREFERENCE"), ("h", "DEFAULT_HISTOGRAM_AGGREGATION")):
        if cfg[w] != "u": os.environ["OTEL_EXPORTER_OTLP_METRICS_" + n] = "" if cfg[w] == "e" else cfg[w]
    kw = {"preferred_temporality": {CLS[k]: {"d": AT.DELTA, "c": AT.CUMULATIVE}[v] for k, v in cfg["argT"].items() if v != "u"},
          "preferred_aggregation": {CLS[k]: AGG[v]() for k, v in cfg["argA"].items() if v != "u"}}
    kw = {k: v for k, v in kw.items() if v or r.random() < .3}
    x = cfg["exp"]; mp = None
    try:
        if x == "mem": rd = InMemoryMetricReader(**kw)
        else: rd = PeriodicExportingMetricReader(GrpcX(**kw, insecure=True) if x == "grpc" else HttpX(**kw, session=Sess()) if x == "http" else ConsoleMetricExporter(out=out, **kw), export_interval_millis=math.inf)
        mp = MeterProvider(metric_readers=[rd], views=[View(instrument_name=k, aggregation=AGG[v]()) for k, v in cfg["view"].items() if v != "u"], shutdown_on_exit=False); m = mp.get_meter("m"); tot = {}
        cb = lambda k: (lambda o: [Observation(tot[k])] if k in tot else [])
        obs = [m.create_observable_counter("oc", [cb("oc")]), m.create_observable_up_down_counter("ou", [cb("ou")]), m.create_observable_gauge("og", [cb("og")])]
        ins = {"c": m.create_counter("c"), "ud": m.create_up_down_counter("ud"), "h": m.create_histogram("h"), "g": m.create_gauge("g")}
        def rec(k, v):
            ev.append({"op": "rec", "k": k, "v": v})
            if k in ("oc", "ou"): tot[k] = tot.get(k, 0) + v
            elif k == "og": tot[k] = v
            elif k == "h": ins[k].record(v)
            elif k == "g": ins[k].set(v)
            else: ins[k].add(v)
        for o in ops:
            if o["op"] == "rec": rec(o["k"], o["v"])
            elif o["op"] == "all":
                for k in KINDS: rec(k, -o["v"] if k in ("ud", "ou") else o["v"])
            else:
                got = {k: dict(NONE) for k in KINDS}; BOX.clear(); out.seek(0); out.truncate()
                if x == "mem":
                    d = rd.get_metrics_data()
                    if d: of_json(d.to_json(), got)
                else:
                    mp.force_flush()
                    if x == "console": of_json(out.getvalue(), got)
                    for b in BOX: of_req(b, got)
                ev.append({"op": "col", "got": got})
    except Exception as ex: ev.append({"op": "fail", "what": "raised:" + repr(ex)[:200]})
    if mp:
        try: mp.shutdown()
        except Exception as ex: ev.append({"op": "fail", "what": "shutdown:" + repr(ex)[:200]})
    return {"id": f"{x}-{i}", "seed": seed, "cfg": cfg, "ev": ev}
def rnd(seed):
    r = random.Random(seed * 31 + 5); u = lambda xs, p: r.choice(xs) if r.random() < p else "u"
    AGS = lambda p: {k: u({"c": ["drop", "last", "sum", "hist", "exp", "hist5", "dflt"], "h": ["drop", "last", "sum", "hist", "exp", "hist5", "dflt"], "g": ["u"], "og": ["drop", "last", "dflt"]}.get(k, ["drop", "last", "sum", "dflt"]), p) for k in KINDS}
    cfg = {"exp": r.choice(["grpc", "http", "http", "console", "mem"]), "t": u(["e", "CUMULATIVE", "cumulative", "DELTA", "delta", " Delta ", "LOWMEMORY", "LowMemory", "bogus"], .8), "h": u(["e", "explicit_bucket_histogram", "base2_exponential_bucket_histogram", "base2_exponential_bucket_histogram", "bogus"], .7),
           "argT": {k: u(["c", "d"], .3) if k != "g" else "u" for k in KINDS},
           "argA": AGS(.25), "view": AGS(.12)}
    ops = []
    for _ in range(r.randint(3, 14)):
        if r.random() < .3: ops.append({"op": "col"})
        else:
            k = r.choice(KINDS); v = r.choice([0, 1, 2, 7, 40, 1000]); ops.append({"op": "rec", "k": k, "v": -v if k in ("ud", "ou", "g", "og") and r.random() < .5 else v})
    return run(seed, seed, cfg, ops + [{"op": "col"}])
if "scripts" in JOB: finish([run(i, JOB["seed"] + i, x["cfg"], x["ops"] + [{"op": "col"}]) for i, x in enumerate(JOB["scripts"])])
else: finish([rnd(x) for x in range(JOB["from"], JOB["to"])])
