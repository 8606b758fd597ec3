"""Simple processors and the context around exports (T10)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from opentelemetry import context as C
from opentelemetry.context import _SUPPRESS_INSTRUMENTATION_KEY as SUP
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider, SpanLimits
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import SimpleLogRecordProcessor, BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry.sdk.metrics import MeterProvider, Counter
from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader, MetricExporter, MetricExportResult, AggregationTemporality as AT
RES = Resource({})
KEY = C.create_key("v")

class Samp(Sampler):
    def should_sample(self, parent_context, trace_id, name, *a, **k):
        return SamplingResult({"s": Decision.RECORD_AND_SAMPLE, "r": Decision.RECORD_ONLY, "d": Decision.DROP}[name.split(":")[1]])
    def get_description(self): return "s"

class World:
    def __init__(self, kind):
        self.kind = kind; self.ev = []; self.names = {}; self.outc = {}; w = self
        self.shutdowns = 0
        class Inner(LogExporter):
            def export(self, batch): return LogExportResult.SUCCESS
            def shutdown(self): pass
        ip = LoggerProvider(resource=RES, shutdown_on_exit=False); ip.add_log_record_processor(SimpleLogRecordProcessor(Inner())); self.inner = ip.get_logger("i")
        class SE(SpanExporter):
            def export(self, b): return w.export([int(x.name.split(":")[0]) for x in b], SpanExportResult)
        class LE(LogExporter):
            def export(self, b): return w.export([int(x.log_record.body) for x in b], LogExportResult)
            def shutdown(self): pass
        class ME(MetricExporter):
            def export(self, md, timeout_millis=10_000, **kw):
                ids = [i for rm in md.resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points for i in range(1, 62) if p.value >> i & 1]
                return w.export(ids, MetricExportResult)
            def force_flush(self, timeout_millis=10_000): return True
            def shutdown(self, timeout_millis=30_000, **kw): pass
        if kind in ("span", "bspan"):
            self.prov = TracerProvider(sampler=Samp(), resource=RES, shutdown_on_exit=False); self.t = self.prov.get_tracer("t")
            self.prov.add_span_processor(SimpleSpanProcessor(SE()) if kind == "span" else BatchSpanProcessor(SE(), max_export_batch_size=2, max_queue_size=64))
        elif kind in ("log", "blog"):
            self.prov = LoggerProvider(resource=RES, shutdown_on_exit=False); self.l = self.prov.get_logger("l")
            self.prov.add_log_record_processor(SimpleLogRecordProcessor(LE()) if kind == "log" else BatchLogRecordProcessor(LE(), max_export_batch_size=2, max_queue_size=64))
        else:
            self.prov = MeterProvider([PeriodicExportingMetricReader(ME(preferred_temporality={Counter: AT.DELTA}), 10**9)], resource=RES, shutdown_on_exit=False)
            self.c = self.prov.get_meter("m").create_counter("c")
    def who(self): return self.names.get(threading.get_ident(), "worker")
    def log(self, **k): self.ev.append(k)
    def sup(self): return C.get_value(SUP) is True
    def export(self, ids, R):
        t = self.who()
        self.log(op="X", t=t, ids=ids, sup=self.sup(), ctx=C.get_value(KEY) or 0)
        o = next((self.outc[i] for i in ids if i in self.outc), "ok")
        try:
            if o == "leak": C.attach(C.set_value(KEY, 99))
            if o == "nest": self.inner.emit(LogRecord(body="x", resource=RES))
            if o == "raise": raise RuntimeError("x")
            if o == "kill": raise KeyboardInterrupt()
            return R.FAILURE if o == "fail" else R.SUCCESS
        finally:
            self.log(op="XE", t=t, sup=self.sup())
    def item(self, t, i, smp, o):
        self.outc[i] = o; err = ""
        if self.kind not in ("span", "bspan"): smp = True
        self.log(op="call", t=t, id=i, smp=smp)
        try:
            if self.kind in ("span", "bspan"): self.t.start_span(f"{i}:{'s' if smp else random.Random(i).choice('rd')}").end()
            elif self.kind in ("log", "blog"): self.l.emit(LogRecord(body=str(i), resource=RES))
            else:
                self.c.add(1 << i); self.prov.force_flush()
        except vt.Killed: raise
        except KeyboardInterrupt: err = "kill"
        except BaseException as ex: err = repr(ex)
        self.log(op="ret", t=t, id=i, smp=smp, err=err)
        self.see(t)
    def see(self, t): self.log(op="ctx", t=t, ctx=C.get_value(KEY) or 0, sup=C.get_value(SUP) is not None)
    def run(self, t, ops, base, shut=False):
        self.names[threading.get_ident()] = t; toks = []; n = base
        for op in ops:
            if op["op"] == "att": self.log(op="att", t=t, v=op["v"]); toks.append(C.attach(C.set_value(KEY, op["v"])))
            elif op["op"] == "det":
                C.detach(toks.pop()); self.log(op="det", t=t); self.see(t)
            elif op["op"] == "shut":
                self.log(op="shut")
                try: self.prov.shutdown()
                except vt.Killed: raise
                except KeyboardInterrupt: pass
                self.see(t)
            else: n += 1; self.item(t, n, op["smp"], op["o"])
        while toks: C.detach(toks.pop()); self.log(op="det", t=t); self.see(t)

def fresh(fn): C.contextvars_ctx.run(fn) if hasattr(C, "contextvars_ctx") else __import__("contextvars").Context().run(fn)

def execute(kind, plans, seed, strategy=None):
    s = vt.Sched(seed, tick=0, strategy=strategy, early_timer=0.0); box = []
    def main():
        w = World(kind); box.append(w)
        if len(plans) == 1: w.run("a", plans[0], 0)
        else:
            th = [threading.Thread(target=w.run, args=(f"t{j}", p, j * 12)) for j, p in enumerate(plans)]
            for x in th: x.start()
            for x in th: x.join()
        if kind in ("bspan", "blog"):
            w.names[threading.get_ident()] = "m"; w.prov.force_flush(); w.see("m"); w.prov.shutdown()
        elif kind == "metric":
            try: w.prov.shutdown()
            except BaseException: pass
    s.run(main)
    ev = box[0].ev
    if s.aborted: ev.append({"op": "fail", "what": "hang-" + s.aborted})
    for n, e in s.errors:
        if not (kind != "span" and isinstance(e, KeyboardInterrupt)): ev.append({"op": "fail", "what": f"thread-died-{type(e).__name__}"})
    return ev

out = []
for i, sc in enumerate(JOB.get("scripts", [])):
    out.append({"id": f"s{i}", "cfg": sc["cfg"], "ev": execute(sc["cfg"]["kind"], [sc["ops"]], 1, "seq"), "script": sc["ops"]})
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    r = random.Random(seed * 13 + 1); kind = r.choice(["span", "log", "metric", "span", "log", "bspan", "blog"])
    outs = ["ok", "ok", "fail", "raise", "leak", "nest"] + (["kill"] if kind in ("span", "log", "metric") else [])
    plans = []
    for _ in range(r.choice([1, 2, 3, 4])):
        d = 0; ops = []
        for _ in range(r.randint(1, 9)):
            x = r.random()
            if x < 0.25: ops.append({"op": "att", "v": r.randint(1, 3)}); d += 1
            elif x < 0.4 and d: ops.append({"op": "det"}); d -= 1
            else: ops.append({"op": "item", "smp": r.random() < 0.75, "o": r.choice(outs)})
        plans.append(ops)
    out.append({"id": f"r{seed}", "cfg": {"kind": kind}, "ev": execute(kind, plans, seed), "seed": seed})
finish(out)
