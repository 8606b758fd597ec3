"""Configuring the SDK from the environment with fake components (R03)."""
from common import JOB, finish
import sys, os, tempfile, types, logging, random
GROUPS = {"traces": "opentelemetry_traces_exporter", "metrics": "opentelemetry_metrics_exporter", "logs": "opentelemetry_logs_exporter", "sampler": "opentelemetry_traces_sampler", "idgen": "opentelemetry_id_generator"}
NAMES = {"traces": ["fe1", "fe2", "otlp_proto_grpc", "otlp_proto_http", "notexp"], "logs": ["fe1", "fe2", "otlp_proto_grpc", "otlp_proto_http", "notexp"], "metrics": ["fe1", "fe2", "pull", "otlp_proto_grpc", "otlp_proto_http", "notexp"],
         "sampler": ["fsamp", "fbad", "fraise"], "idgen": ["fgen", "notgen"]}
EP = tempfile.mkdtemp(prefix="ep"); os.mkdir(EP + "/vfake-1.0.dist-info")
open(EP + "/vfake-1.0.dist-info/METADATA", "w").write("Metadata-Version: 2.1\nName: vfake\nVersion: 1.0\n")
open(EP + "/vfake-1.0.dist-info/entry_points.txt", "w").write("".join(f"[{GROUPS[g]}]\n" + "".join(f"{n} = vfakecfg:{g}_{n}\n" for n in NAMES[g]) for g in GROUPS))
sys.path.insert(0, EP)
mod = types.ModuleType("vfakecfg"); sys.modules["vfakecfg"] = mod
from opentelemetry import trace, metrics, _logs
from opentelemetry._logs import SeverityNumber
from opentelemetry.test.globals_test import reset_trace_globals, reset_metrics_globals, reset_logging_globals, reset_event_globals
from opentelemetry.sdk._configuration import _OTelSDKConfigurator, _BaseConfigurator
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision, ALWAYS_OFF, ALWAYS_ON
from opentelemetry.sdk.metrics.export import MetricExporter, MetricReader, MetricExportResult
from opentelemetry.sdk._logs import LoggingHandler, LogRecord, LogLimits
from opentelemetry.sdk._logs.export import LogExporter, LogExportResult
W = None
def seen(g, n, res):
    W["delivered"][g].append(n); W["res"].append(dict(res.attributes))
def mkspan(n):
    class E(SpanExporter):
        def __init__(self): W["got"]["traces"].append(n)
        def export(self, spans):
            for s in spans:
                if s.name == "probe": seen("traces", n, s.resource)
            return SpanExportResult.SUCCESS
    return E
def mklog(n):
    class E(LogExporter):
        def __init__(self): W["got"]["logs"].append(n)
        def export(self, batch):
            for d in batch:
                if d.log_record.body == "probe": seen("logs", n, d.log_record.resource)
            return LogExportResult.SUCCESS
        def shutdown(self): pass
    return E
def mkmetric(n):
    class E(MetricExporter):
        def __init__(self): super().__init__(); W["got"]["metrics"].append(n)
        def export(self, data, timeout_millis=0, **k):
            for rm in data.resource_metrics:
                for sm in rm.scope_metrics:
                    for m in sm.metrics:
                        if m.name == "probe" and not W["closing"]: seen("metrics", n, rm.resource)
            return MetricExportResult.SUCCESS
        def shutdown(self, timeout_millis=0, **k): pass
        def force_flush(self, timeout_millis=0): return True
    return E
class Pull(MetricReader):
    def __init__(self): super().__init__(); W["got"]["metrics"].append("pull")
    def _receive_metrics(self, *a, **k): pass
    def shutdown(self, *a, **k): pass
class Notexp: pass
for n in NAMES["traces"]: setattr(mod, f"traces_{n}", mkspan(n)); setattr(mod, f"logs_{n}", mklog(n)); setattr(mod, f"metrics_{n}", mkmetric(n))
for g in ("traces", "metrics", "logs"): setattr(mod, f"{g}_notexp", Notexp)
mod.metrics_pull = Pull
class FS(Sampler):
    def __init__(self, on): self.on = on
    def should_sample(self, *a, **k): return SamplingResult(Decision.RECORD_AND_SAMPLE if self.on else Decision.DROP)
    def get_description(self): return "f"
def fraise(arg): raise RuntimeError("no")
mod.sampler_fsamp = lambda arg: FS(arg is not None and arg.strip() == "yes"); mod.sampler_fbad = lambda arg: "not a sampler"; mod.sampler_fraise = fraise
class FGen(IdGenerator):
    def generate_trace_id(self): return 0xF
    def generate_span_id(self): return 0xF
class Mine(IdGenerator):
    def generate_trace_id(self): return 0xA
    def generate_span_id(self): return 0xA
mod.idgen_fgen = FGen; mod.idgen_notgen = Notexp
class Warn(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.WARNING and W is not None: W["warned"] += 1
lg = logging.getLogger("opentelemetry"); lg.propagate = False; lg.addHandler(Warn())
PARENTS = {"none": None, "ls": (False, 1), "ln": (False, 0), "rs": (True, 1), "rn": (True, 0)}
def parent(p, tid): return trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(tid, 0xB, PARENTS[p][0], trace.TraceFlags(PARENTS[p][1]))), {}) if PARENTS[p] else {}
def probe(sampler, r):
    out = []
    for p in PARENTS:
        for k in (0, r.choice([1, 2, 3]), 4, 7):
            tid = (r.getrandbits(63) << 64 | k << 61) or 1 << 70
            d = sampler.should_sample(parent(p, tid), tid, "n", None, None, None).decision
            out.append({"parent": p, "k": k, "sampled": d is Decision.RECORD_AND_SAMPLE})
    return out
def env(r, k, v, pad=False):
    os.environ.pop(k, None)
    if v == "e": os.environ[k] = ""
    elif v != "u": os.environ[k] = r.choice([" %s", "%s ", " %s "]) % v if pad else v
def clear():
    for k in [k for k in os.environ if k.startswith("OTEL_")]: del os.environ[k]
BSPN = {"q": "MAX_QUEUE_SIZE", "d": "SCHEDULE_DELAY", "b": "MAX_EXPORT_BATCH_SIZE", "t": "EXPORT_TIMEOUT"}
def setsampler(s, r):
    env(r, "OTEL_TRACES_SAMPLER", s["name"], s["padded"]); env(r, "OTEL_TRACES_SAMPLER_ARG", s["arg"], r.random() < .2 and s["arg"] not in ("u", "e"))
def run(seed, op):
    global W
    r = random.Random(seed * 11 + 5); clear(); o = dict(op)
    W = {"got": {g: [] for g in ("traces", "metrics", "logs")}, "delivered": {g: [] for g in ("traces", "metrics", "logs")}, "warned": 0, "res": [], "closing": False}
    if op["op"] == "tp":
        setsampler(op["sampler"], r)
        try: o["probes"] = probe(TracerProvider(shutdown_on_exit=False).sampler, r); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e))
        return o
    if op["op"] == "limits":
        a, v = op["arg"], op["env"]
        env(r, "OTEL_ATTRIBUTE_COUNT_LIMIT", v["n"], r.random() < .2); env(r, "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", v["l"], r.random() < .2)
        kw = {k: LogLimits.UNSET if a[x] == "n" else int(a[x]) for k, x in (("max_attributes", "n"), ("max_attribute_length", "l")) if a[x] != "u"}
        try:
            l = LogLimits(**kw); o["v"] = {"n": "n" if l.max_attributes is None else str(l.max_attributes), "l": "n" if l.max_attribute_length is None else str(l.max_attribute_length)}; o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e))
        return o
    for s in (reset_trace_globals, reset_metrics_globals, reset_logging_globals, reset_event_globals): s()
    for g, E, P in (("traces", "OTEL_TRACES_EXPORTER", "OTEL_EXPORTER_OTLP_TRACES_PROTOCOL"), ("metrics", "OTEL_METRICS_EXPORTER", "OTEL_EXPORTER_OTLP_METRICS_PROTOCOL"), ("logs", "OTEL_LOGS_EXPORTER", "OTEL_EXPORTER_OTLP_LOGS_PROTOCOL")):
        x = op["x"][g]
        if x["env"] == ["e"]: os.environ[E] = ""
        elif x["env"] != ["u"]: os.environ[E] = ",".join(r.choice(["%s", "%s", " %s", "%s "]) % n for n in x["env"])
        env(r, P, x["proto"], r.random() < .2)
    env(r, "OTEL_EXPORTER_OTLP_PROTOCOL", op["proto"], r.random() < .2)
    setsampler(op["sampler"], r); env(r, "OTEL_PYTHON_ID_GENERATOR", op["idgen"]["name"], r.random() < .2)
    for k, n in BSPN.items(): env(r, "OTEL_BSP_" + n, op["bsp"][k], r.random() < .2); env(r, "OTEL_BLRP_" + n, op["blrp"][k], r.random() < .2)
    env(r, "OTEL_METRIC_EXPORT_INTERVAL", op["interval"], r.random() < .2)
    env(r, "OTEL_PYTHON_LOGGING_AUTO_INSTRUMENTATION_ENABLED", op["autolog"], r.random() < .2)
    if op["disabled"]: os.environ["OTEL_SDK_DISABLED"] = r.choice(["true", "TRUE", " True "])
    else: env(r, "OTEL_SDK_DISABLED", r.choice(["u", "u", "false", "0"]))
    os.environ["OTEL_SERVICE_NAME"] = "svc"; auto = r.choice([None, "9"]); given = r.choice([None, {"a": "b"}])
    kw = {"auto_instrumentation_version": auto, "resource_attributes": dict(given) if given else None}
    for g, a in (("traces", "trace_exporter_names"), ("metrics", "metric_exporter_names"), ("logs", "log_exporter_names")):
        if op["x"][g]["arg"] or r.random() < .3: kw[a] = list(op["x"][g]["arg"])
    if op["sampler"]["given"] != "u": kw["sampler"] = ALWAYS_OFF if op["sampler"]["given"] == "off" else ALWAYS_ON
    if op["idgen"]["given"] != "u": kw["id_generator"] = Mine()
    root = logging.getLogger(); before = list(root.handlers); level = root.level
    _BaseConfigurator._instance = None
    try: _OTelSDKConfigurator().configure(**kw); o["raised"] = False
    except Exception as e: o.update(raised=True, why=repr(e))
    tp, mp, lp = trace.get_tracer_provider(), metrics.get_meter_provider(), _logs.get_logger_provider()
    if not o["raised"]:
        o["got"] = W["got"]; o["warned"] = W["warned"] > 0; o["probes"] = probe(tp.sampler, r)
        o["ids"] = {0xF: "fgen", 0xA: "mine"}.get(tp.id_generator.generate_trace_id(), "random")
        o["handler"] = sum(isinstance(h, LoggingHandler) for h in root.handlers) == 1
        ctx = parent("rs", 1 << 100)
        o["sampled"] = tp.sampler.should_sample(ctx, 1 << 100, "probe").decision is Decision.RECORD_AND_SAMPLE
        trace.get_tracer("t").start_span("probe", ctx).end(); metrics.get_meter("m").create_counter("probe").add(1); _logs.get_logger("l").emit(LogRecord(timestamp=1, body="probe", severity_number=SeverityNumber.INFO, trace_id=0, span_id=0, trace_flags=trace.TraceFlags(0)) if op["disabled"] else LogRecord(timestamp=1, body="probe", severity_number=SeverityNumber.INFO, trace_id=0, span_id=0, trace_flags=trace.TraceFlags(0), resource=tp.resource))
        tp.force_flush(); mp.force_flush(); lp.force_flush(); W["closing"] = True
        o["delivered"] = {k: list(v) for k, v in W["delivered"].items()}
        o["resource"] = all(a.get("service.name") == "svc" and a.get("telemetry.auto.version") == auto and a.get("a") == (given or {}).get("a") and a.get("telemetry.sdk.name") == "opentelemetry" for a in W["res"])
    W["closing"] = True
    for p in (tp, mp, lp):
        try: p.shutdown()
        except Exception: pass
    for h in list(root.handlers):
        if h not in before: root.removeHandler(h)
    return o
WORDS = ["fe1", "fe2", "otlp", "otlp_proto_grpc", "otlp_proto_http", "nothere", "notexp", "", "none"]
def rop(r):
    x = r.random(); pr = lambda: r.choice(["u", "u", "e", "grpc", "http/protobuf", "http/json", "x"])
    smp = lambda: {"given": r.choice(["u", "u", "u", "off", "on"]), "name": r.choice(["u", "e", "always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio", "nothere", "fsamp", "fbad", "fraise", "ALWAYS_ON", "TraceIdRatio", "PARENTBASED_ALWAYS_OFF"]), "arg": r.choice(["u", "e", "0", "1.0", "0.5", "0.25", "abc", "2.0", "-1", "nan", "inf", "yes", "1e-30"]), "padded": r.random() < .2}
    if x < .15:
        s = smp(); s["given"] = "u"; return {"op": "tp", "sampler": s}
    if x < .3: return {"op": "limits", "arg": {k: r.choice(["u", "u", "u", "n", "0", "7", "-5"]) for k in "nl"}, "env": {k: r.choice(["u", "u", "e", "0", "3", "500", "abc", "1.5", "-3"]) for k in "nl"}}
    def sig(g):
        w = WORDS[:5] + (["pull"] if g == "metrics" else []) if r.random() < .8 else WORDS
        return {"arg": r.choice([[], [], [], ["fe2"], ["fe1", "fe2"]]), "env": r.choice([["u"], ["none"], ["e"]] + [[r.choice(w) for _ in range(r.randint(1, 3))] for _ in range(4)]), "proto": pr()}
    num = lambda: {k: r.choice(["u"] * 12 + ["2", "7", "abc", "0"]) for k in "qdbt"}
    return {"op": "init", "x": {g: sig(g) for g in ("traces", "metrics", "logs")}, "proto": pr(), "sampler": smp(), "idgen": {"given": r.choice(["u", "u", "mine"]), "name": r.choice(["u", "u", "random", "fgen", "fgen", "nothere", "notgen", "e"])},
            "bsp": num(), "blrp": num(), "interval": r.choice(["u"] * 6 + ["40", "abc", "0"]), "autolog": r.choice(["u", "true", "false", "e"]), "disabled": r.random() < .15}
tr = []
if "scripts" in JOB:
    for i, g in enumerate(JOB["scripts"]): tr.append({"id": f"gen-{i}", "cfg": {"x": 0}, "ev": [run(i, x) for x in g["ops"]], "seed": i})
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x); tr.append({"id": f"rnd-{x}", "cfg": {"x": 0}, "ev": [run(x * 5 + j, rop(r)) for j in range(5)], "seed": x})
finish(tr)
