"""Providers with recording parts (G02)."""
import os, time, random, threading, types
import logging; logging.disable(50)
from opentelemetry import trace, metrics, _logs, _events
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor, SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import MetricReader, PeriodicExportingMetricReader, MetricExporter, MetricExportResult
from opentelemetry.sdk._logs import LoggerProvider, LogRecordProcessor, LoggingHandler
from opentelemetry.sdk._logs._internal import SynchronousMultiLogRecordProcessor, ConcurrentMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import SimpleLogRecordProcessor, BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk.resources import Resource
class Boom(Exception): pass
TRUES = ["true", "TRUE", "True", " true "]; FALSES = [None, "", "false", "1", "yes", "tru"]
class Part:
    """Mixed into a processor, reader or exporter: notes its shutdown, which may take time and raise."""
    def note(self, w, p, raises, dur): self.w, self.p, self.raises, self.dur = w, p, raises, dur; return self
    def shut(self):
        self.w.log(op="part", p=self.p)
        if self.dur: time.sleep(self.dur)
        self.w.log(op="parte", p=self.p)
        if self.raises: raise Boom(self.p)
    def shutdown(self, *a, **k): self.shut()
    def got(self): self.w.log(op="rec", p=self.p)
class SP(Part, SpanProcessor):
    def on_start(self, span, parent_context=None): self.got()
    def on_end(self, span): self.got()
class SE(Part, SpanExporter):
    def export(self, spans): self.got(); return SpanExportResult.SUCCESS
class LP(Part, LogRecordProcessor):
    def emit(self, log_data): self.got()
    def force_flush(self, timeout_millis=30000): return True
class LE(Part, LogExporter):
    def export(self, batch): self.got(); return LogExportResult.SUCCESS
class MR(Part, MetricReader):
    def _receive_metrics(self, metrics_data, timeout_millis=10000, **kw):
        if metrics_data is not None and metrics_data.resource_metrics: self.got()
class ME(Part, MetricExporter):
    def export(self, metrics_data, timeout_millis=10000, **kw):
        if metrics_data.resource_metrics: self.got()
        return MetricExportResult.SUCCESS
    def force_flush(self, timeout_millis=10000): return True
class World:
    def __init__(self, cfg, r, emit):
        self.cfg, self.r, self.emit = cfg, r, emit; self.n = 0; self.t = 0; self.old = []; self.mp_parts = []; self.p = None
        if cfg["sig"] != "metrics": self.make()
    def log(self, **k): self.emit(k)
    def make(self, readers=()):
        c, r = self.cfg, self.r
        v = r.choice(TRUES if c["disabled"] else FALSES)
        if v is None: os.environ.pop("OTEL_SDK_DISABLED", None)
        else: os.environ["OTEL_SDK_DISABLED"] = v
        res = Resource({}); conc = c["multi"] == "conc"; k = {"shutdown_on_exit": c["onexit"]}
        if c["sig"] == "trace": self.p = TracerProvider(resource=res, active_span_processor=(ConcurrentMultiSpanProcessor(2) if conc else SynchronousMultiSpanProcessor() if r.random() < 0.5 else None), **k)
        elif c["sig"] == "metrics": self.p = MeterProvider(list(readers), resource=res, **k)
        else: self.p = LoggerProvider(resource=res, multi_log_record_processor=(ConcurrentMultiLogRecordProcessor(2) if conc else SynchronousMultiLogRecordProcessor() if r.random() < 0.5 else None), **k)
        os.environ.pop("OTEL_SDK_DISABLED", None)
    def provider(self):
        if self.p is None: self.make(self.mp_parts)
        return self.p
    def add(self, raises, dur=0.0, kind=None):
        self.n += 1; i = self.n; r = self.r; kind = kind or r.choice(["own", "own", "simple", "batch"])
        self.log(op="add", p=i, raises=raises); s = self.cfg["sig"]
        if s == "trace":
            x = SP().note(self, i, raises, dur) if kind == "own" else (SimpleSpanProcessor if kind == "simple" else BatchSpanProcessor)(SE().note(self, i, raises, dur))
            self.p.add_span_processor(x)
        elif s == "logs":
            x = LP().note(self, i, raises, dur) if kind == "own" else (SimpleLogRecordProcessor if kind == "simple" else BatchLogRecordProcessor)(LE().note(self, i, raises, dur))
            self.p.add_log_record_processor(x)
        else: self.mp_parts.append(MR().note(self, i, raises, dur) if kind != "batch" else PeriodicExportingMetricReader(ME().note(self, i, raises, dur), export_interval_millis=3600000))
    def shut(self, timeout=None):
        self.provider(); self.t += 1; t = self.t; self.log(op="shb", t=t); ok = False
        try:
            if timeout is not None and self.cfg["sig"] == "metrics": self.p.shutdown(timeout)
            else: self.p.shutdown()
            ok = True
        except Exception as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="she", t=t, raised=not ok)
    def use(self, shut_before=False):
        p = self.provider(); r = self.r; s = self.cfg["sig"]; what = "?"; ok = False
        try:
            x = r.random()
            if not self.old or x < 0.35:
                what = "get"; nm = r.choice(["lib", "lib", ""]) if s != "logs" else "lib"
                at = r.choice([None, {"k": 1}])
                if s == "trace": o = p.get_tracer(nm, r.choice([None, "1"]), None, at)
                elif s == "metrics": o = p.get_meter(nm, r.choice([None, "1"]), None, at)
                else: o = r.choice([lambda: p.get_logger(nm, "1", None, at), lambda: EventLoggerProvider(p).get_event_logger(nm), lambda: LoggingHandler(logger_provider=p)])()
                self.old.append(o)
            o = r.choice(self.old)
            if s == "trace":
                what = "span"
                with o.start_as_current_span("s", attributes={"a": 1}) as sp: sp.add_event("e"); sp.set_attribute("b", 2)
                o.start_span("t").end()
            elif s == "metrics":
                if isinstance(o, tuple): what = "record"; getattr(o[0], o[1])(1, {"a": 1})
                else:
                    what = "create"; bad = self.cfg["disabled"] and r.random() < 0.2
                    k, f = r.choice([("counter", "add"), ("up_down_counter", "add"), ("histogram", "record"), ("gauge", "set"), ("observable_counter", ""), ("observable_gauge", ""), ("observable_up_down_counter", "")])
                    m = getattr(o, "create_" + k); nm = "1 bad" if bad else f"i{r.randint(1, 4)}.{k}"
                    i = m(nm, [lambda op: [metrics.Observation(1)]]) if not f else m(nm, r.choice(["", "s"]))
                    if f: self.old.append((i, f)); getattr(i, f)(1)
            else:
                what = "emit"
                if isinstance(o, LoggingHandler): o.handle(logging.LogRecord("n", r.choice([20, 30, 40]), "f", 1, "hi %s", ("x",), None)); o.flush() if r.random() < 0.2 and not shut_before else None
                elif isinstance(o, _events.EventLogger): o.emit(_events.Event("e"))
                else:
                    from opentelemetry.sdk._logs import LogRecord
                    o.emit(LogRecord(body="x", resource=getattr(o, "resource", None)))
            ok = True
        except Exception as ex: self.log(op="note", what=what + ": " + repr(ex)[:200])
        self.log(op="use", what=what, raised=not ok)
    def flush(self):
        p = self.provider()
        try: p.force_flush(1000)
        except Exception as ex: self.log(op="note", what="flush: " + repr(ex)[:200])
