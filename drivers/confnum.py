"""What the numeric batch settings amount to, measured in virtual time (R03)."""
from common import JOB, finish
import vt; vt.install()
import gc; gc.disable()
import os, random, threading, time, logging; logging.disable(50)
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk._logs import LogData, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader, MetricExporter, MetricExportResult
NM = {"q": "MAX_QUEUE_SIZE", "d": "SCHEDULE_DELAY", "b": "MAX_EXPORT_BATCH_SIZE", "t": "EXPORT_TIMEOUT"}
AN = {"q": "max_queue_size", "d": "schedule_delay_millis", "b": "max_export_batch_size", "t": "export_timeout_millis"}
I = {"0": 0, "-3": -3, "abc": None}
def ms(t0): return int(round((time.monotonic() - t0) * 1000))
def env(r, k, v):
    os.environ.pop(k, None)
    if v == "e": os.environ[k] = ""
    elif v != "u": os.environ[k] = r.choice(["%s", "%s", " %s", "%s "]) % v
class State: pass
def exporter(kind, st):
    def export(batch):
        st.batches.append((len(batch), time.monotonic()))
        if st.hang: time.sleep(10 ** 7)
        return (SpanExportResult if kind == "span" else LogExportResult).SUCCESS
    B = SpanExporter if kind == "span" else LogExporter
    class E(B):
        def export(self, b): return export(b)
        def shutdown(self): pass
        def force_flush(self, timeout_millis=0): return True
    return E()
SP = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False).get_tracer("t").start_span("x"); SP.end()
LD = LogData(LogRecord(timestamp=1, body="x"), None)
def run(seed, op):
    r = random.Random(seed); o = dict(op)
    for k in [k for k in os.environ if k.startswith("OTEL_")]: del os.environ[k]
    s = vt.Sched(seed, strategy="seq", early_timer=0.0, tick=1, step_limit=10 ** 7); st = State(); st.batches = []; st.hang = False
    def batch():
        for k, n in NM.items(): env(r, ("OTEL_BSP_" if op["kind"] == "span" else "OTEL_BLRP_") + n, op["env"][k])
        kw = {AN[k]: int(v) for k, v in op["arg"].items() if v != "u"}
        try: p = (BatchSpanProcessor if op["kind"] == "span" else BatchLogRecordProcessor)(exporter(op["kind"], st), **kw); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e)); return
        emit = (lambda: p.on_end(SP)) if op["kind"] == "span" else (lambda: p.emit(LD)); m = {"delay": -1}
        time.sleep(0); t0 = time.monotonic(); emit(); time.sleep(200)
        if st.batches: m["delay"] = int(round((st.batches[0][1] - t0) * 1000))
        st.batches.clear()
        for _ in range(JOB.get("n", 2060)): emit()
        time.sleep(200); m["total"] = sum(n for n, _ in st.batches); m["batch"] = max((n for n, _ in st.batches), default=0)
        st.hang = True; emit(); t0 = time.monotonic(); p.force_flush(); m["timeout"] = ms(t0); o["m"] = m
    def metric():
        env(r, "OTEL_METRIC_EXPORT_INTERVAL", op["env"]["interval"]); env(r, "OTEL_METRIC_EXPORT_TIMEOUT", op["env"]["timeout"])
        class E(MetricExporter):
            def export(self, data, timeout_millis=0, **k): st.batches.append((timeout_millis, time.monotonic())); return MetricExportResult.SUCCESS
            def shutdown(self, timeout_millis=0, **k): pass
            def force_flush(self, timeout_millis=0): return True
        kw = {n: int(v) for n, v in (("export_interval_millis", op["arg"]["interval"]), ("export_timeout_millis", op["arg"]["timeout"])) if v != "u"}
        t0 = time.monotonic()
        try: rd = PeriodicExportingMetricReader(E(), **kw); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e)); return
        mp = MeterProvider(metric_readers=[rd], shutdown_on_exit=False); mp.get_meter("m").create_counter("c").add(1)
        time.sleep(200); o["first"] = -1; o["timeout"] = 0
        if st.batches: o["first"] = int(round((st.batches[0][1] - t0) * 1000)); o["timeout"] = int(st.batches[0][0])
    s.run(batch if op["op"] == "batch" else metric)
    if s.aborted: o = {"op": "fail", "what": "hang:" + str(s.aborted), "of": op}
    return o
def rop(r):
    if r.random() < .5:
        w = r.choice(["span", "log"]); full = r.random() < .8
        if full: q, b = r.choice([("u", "u"), ("u", "2"), ("7", "3"), ("3", "3"), ("3", "7"), ("40", "7"), ("abc", "7"), ("7", "abc"), ("0", "2"), ("-3", "1"), ("7", "0"), ("e", "e")])
        e = {"q": q, "b": b, "d": r.choice(["u", "40", "100", "abc", "e", "0", "-3", "1.5"]), "t": r.choice(["u", "40", "100", "7", "abc", "e"])} if full else {k: "u" for k in "qdbt"}
        a = {"q": r.choice(["u", "u", "7", "0", "100"]), "b": r.choice(["u", "u", "2", "7"]), "d": r.choice(["u", "40", "-3"]), "t": r.choice(["u", "100"])} if not full or r.random() < .3 else {k: "u" for k in "qdbt"}
        return {"op": "batch", "kind": w, "arg": a, "env": e}
    return {"op": "metric", "arg": {"interval": r.choice(["u", "u", "40", "0", "-3"]), "timeout": r.choice(["u", "u", "100"])}, "env": {"interval": r.choice(["u", "40", "100", "abc", "e", "0", "-3", "inf", "nan"]), "timeout": r.choice(["u", "7", "100", "abc", "e"])}}
tr = []
todo = [(i, g["ops"]) for i, g in enumerate(JOB["scripts"])] if "scripts" in JOB else [(x, [rop(random.Random(x))]) for x in range(JOB["from"], JOB["to"])]
for i, ops in todo:
    tr.append({"id": f"num-{i}", "cfg": {"x": 0}, "ev": [run(i, x) for x in ops], "seed": i}); gc.collect()
    if any(e["op"] == "fail" for e in tr[-1]["ev"]): break
finish(tr)
