"""Histories of the four global providers with recording providers (G01)."""
from common import JOB, finish
import sys, os, tempfile, types
EP = tempfile.mkdtemp(prefix="ep"); os.mkdir(EP + "/vfake-1.0.dist-info")
open(EP + "/vfake-1.0.dist-info/METADATA", "w").write("Metadata-Version: 2.1\nName: vfake\nVersion: 1.0\n")
open(EP + "/vfake-1.0.dist-info/entry_points.txt", "w").write("".join(f"[opentelemetry_{k}_provider]\nvfake = vfakeprov:{k}\n" for k in ("tracer", "meter", "logger", "event_logger")))
sys.path.insert(0, EP)
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from opentelemetry import trace, metrics, _logs, _events
from opentelemetry.test.globals_test import reset_trace_globals, reset_metrics_globals, reset_logging_globals, reset_event_globals
from opentelemetry.util._importlib_metadata import entry_points
assert list(entry_points(group="opentelemetry_tracer_provider", name="vfake"))
ENV = {"trace": "OTEL_PYTHON_TRACER_PROVIDER", "metrics": "OTEL_PYTHON_METER_PROVIDER", "logs": "OTEL_PYTHON_LOGGER_PROVIDER", "events": "OTEL_PYTHON_EVENT_LOGGER_PROVIDER"}
EPN = {"trace": "tracer", "metrics": "meter", "logs": "logger", "events": "event_logger"}
W = None
def scope(n, v, u, a): return "|".join([n, v or "", u or "", repr(sorted(dict(a or {}).items()))])
class Boom(Exception): pass
# -- recording providers ---------------------------------------------------
def rec(p, m, d, id=None): W.rec.append({"p": p, "m": m, "id": int(d.rsplit("#", 1)[1].split("|")[0]) if id is None else id, "d": d})
class FTracer(trace.Tracer):
    def __init__(self, p, d): self.p, self.d = p, d
    def start_span(self, name, context=None, kind=trace.SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True, set_status_on_exception=True):
        m = int(name[1:]); rec(self.p, m if (attributes or {}).get("m") == m and start_time == m and kind is trace.SpanKind.CLIENT and not record_exception else -m, self.d); return trace.INVALID_SPAN
    @trace._agnosticcontextmanager
    def start_as_current_span(self, name, context=None, kind=trace.SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True, set_status_on_exception=True, end_on_exit=True):
        m = int(name[1:]); rec(self.p, m if (attributes or {}).get("m") == m and start_time == m and not end_on_exit else -m, self.d); yield trace.INVALID_SPAN
class FTP(trace.TracerProvider):
    def __init__(self, n): self.n = n
    def get_tracer(self, instrumenting_module_name, instrumenting_library_version=None, schema_url=None, attributes=None):
        return FTracer(self.n, scope(instrumenting_module_name, instrumenting_library_version, schema_url, attributes))
class FI:
    def __init__(self, p, id, d): self.p, self.id, self.d = p, id, d
    def go(self, amount, attributes=None, context=None): rec(self.p, amount if (attributes or {}).get("m") == amount else -amount, self.d, self.id)
    add = record = set = go
class FMeter(metrics.Meter):
    def __init__(self, p, sc): self.p, self.sc = p, sc
    def mk(self, kind, name, unit, desc, cbs=(), adv=None):
        if "!" in name: raise Boom(name)
        id = int(name.split(".")[0][1:]); d = mdef(kind, name, unit, desc, cbs, adv, self.sc); W.made.append({"p": self.p, "id": id, "d": d})
        return FI(self.p, id, d)
    def create_counter(self, name, unit="", description=""): return self.mk("counter", name, unit, description)
    def create_up_down_counter(self, name, unit="", description=""): return self.mk("udc", name, unit, description)
    def create_gauge(self, name, unit="", description=""): return self.mk("gauge", name, unit, description)
    def create_histogram(self, name, unit="", description="", *, explicit_bucket_boundaries_advisory=None): return self.mk("hist", name, unit, description, (), explicit_bucket_boundaries_advisory)
    def create_observable_counter(self, name, callbacks=None, unit="", description=""): return self.mk("ocounter", name, unit, description, callbacks)
    def create_observable_up_down_counter(self, name, callbacks=None, unit="", description=""): return self.mk("oudc", name, unit, description, callbacks)
    def create_observable_gauge(self, name, callbacks=None, unit="", description=""): return self.mk("ogauge", name, unit, description, callbacks)
class FMP(metrics.MeterProvider):
    def __init__(self, n): self.n = n
    def get_meter(self, name, version=None, schema_url=None, attributes=None): return FMeter(self.n, scope(name, version, schema_url, attributes))
class FLogger(_logs.Logger):
    def __init__(self, p, d): self.p, self.d = p, d
    def emit(self, record): rec(self.p, record.body, self.d)
class FLP(_logs.LoggerProvider):
    def __init__(self, n): self.n = n
    def get_logger(self, name, version=None, schema_url=None, attributes=None): return FLogger(self.n, scope(name, version, schema_url, attributes))
class FEP(_events.EventLoggerProvider):
    def __init__(self, n): self.n = n
    def get_event_logger(self, name, version=None, schema_url=None, attributes=None): return FLogger(self.n, scope(name, version, schema_url, attributes))
FAKE = {"trace": FTP, "metrics": FMP, "logs": FLP, "events": FEP}
def loaded(sig):
    def make():
        W.nenv += 1; return FAKE[sig](99 + W.nenv)
    return make
mod = types.ModuleType("vfakeprov")
for k, v in EPN.items(): setattr(mod, v, loaded(k))
sys.modules["vfakeprov"] = mod
def mdef(kind, name, unit, desc, cbs, adv, sc): return "|".join([kind, name, unit, desc, ",".join(c.__name__ for c in cbs or ()), repr(list(adv) if adv else None), sc])
SET = {"trace": lambda p: trace.set_tracer_provider(p), "metrics": lambda p: metrics.set_meter_provider(p), "logs": lambda p: _logs.set_logger_provider(p), "events": lambda p: _events.set_event_logger_provider(p)}
GET = {"trace": lambda: trace.get_tracer_provider(), "metrics": lambda: metrics.get_meter_provider(), "logs": lambda: _logs.get_logger_provider(), "events": lambda: _events.get_event_logger_provider()}
RESET = {"trace": reset_trace_globals, "metrics": reset_metrics_globals, "logs": reset_logging_globals, "events": reset_event_globals}
class World:
    def __init__(self, sig, env, r):
        self.sig, self.env, self.r = sig, env, r; self.ev = []; self.made = []; self.rec = []; self.nenv = 0; self.n = 0; self.m = 0; self.nt = 0
        self.users = []; self.meters = []
        for s in RESET: RESET[s]()
        for v in ENV.values(): os.environ.pop(v, None)
        if env: os.environ[ENV[sig]] = "vfake"
    def log(self, **k): self.ev.append(k)
    def set(self, i):
        self.log(op="setb", i=i); ok = False
        try: SET[self.sig](FAKE[self.sig](i)); ok = True
        except vt.Killed: raise
        except BaseException as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="sete", i=i, raised=not ok)
    def read(self):
        self.nt += 1; t = self.nt; self.log(op="getb", t=t); p = None
        try: p = GET[self.sig]()
        except vt.Killed: raise
        except BaseException as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="gete", t=t, i=getattr(p, "n", 0), raised=p is None); return p
    def user(self, a, via):
        """A tracer, logger or event logger."""
        self.n += 1; id = self.n; nm, ver, url, at = a; nm = f"{nm}#{id}"; d = scope(nm, ver, url, at); s = self.sig; x = None
        self.log(op="mkb", id=id, d=d)
        try:
            if via == "p":
                p = GET[s]()
                x = (p.get_tracer if s == "trace" else p.get_logger if s == "logs" else p.get_event_logger)(nm, ver, url, at)
            elif s == "trace": x = trace.get_tracer(nm, ver, schema_url=url, attributes=at)
            elif s == "logs": x = _logs.get_logger(nm, ver or "", schema_url=url, attributes=at)
            else: x = _events.get_event_logger(nm, ver, schema_url=url, attributes=at)
        except vt.Killed: raise
        except BaseException as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="mke", id=id, raised=x is None, invalid=False)
        if x is not None: self.users.append((id, x))
    def meter(self, a, via):
        nm, ver, url, at = a
        try: x = GET["metrics"]().get_meter(nm, ver, url, at) if via == "p" else metrics.get_meter(nm, ver or "", schema_url=url, attributes=at)
        except vt.Killed: raise
        except BaseException as ex: self.log(op="fail", what="get_meter raised: " + repr(ex)[:100]); return
        self.meters.append((x, scope(nm, ver, url, at)))
    def instrument(self, mt, invalid):
        x, sc = mt; r = self.r; self.n += 1; id = self.n; kind = r.choice(["counter", "udc", "gauge", "hist", "hist", "ocounter", "oudc", "ogauge"])
        nm = f"i{id}.{'!' if invalid else ''}x"; un = r.choice(["", "s"]); ds = r.choice(["", "desc"]); adv = r.choice([None, [1, 2.5]]) if kind == "hist" else None
        def cb(o): return []
        cb.__name__ = f"cb{id}"
        cbs = r.choice([None, [], [cb], [cb, cb]]) if kind[0] == "o" else None
        self.log(op="mkb", id=id, d=mdef(kind, nm, un, ds, cbs, adv, sc)); y = None
        try:
            if kind == "counter": y = x.create_counter(nm, un, ds)
            elif kind == "udc": y = x.create_up_down_counter(nm, unit=un, description=ds)
            elif kind == "gauge": y = x.create_gauge(nm, un, ds)
            elif kind == "hist": y = x.create_histogram(nm, un, ds, explicit_bucket_boundaries_advisory=adv)
            elif kind == "ocounter": y = x.create_observable_counter(nm, cbs, un, ds)
            elif kind == "oudc": y = x.create_observable_up_down_counter(nm, cbs, unit=un, description=ds)
            else: y = x.create_observable_gauge(nm, callbacks=cbs, unit=un, description=ds)
        except vt.Killed: raise
        except BaseException as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="mke", id=id, raised=y is None, invalid=invalid)
        if y is not None and kind[0] != "o": self.users.append((id, (y, kind)))
    def use(self, u):
        id, x = u; self.m += 1; m = self.m; self.log(op="mb", m=m, id=id); ok = False; s = self.sig
        try:
            if s == "trace":
                if m % 2: x.start_span(f"s{m}", None, trace.SpanKind.CLIENT, {"m": m}, start_time=m, record_exception=False)
                else:
                    with x.start_as_current_span(f"s{m}", attributes={"m": m}, start_time=m, end_on_exit=False): pass
            elif s == "metrics": {"counter": lambda: x[0].add, "udc": lambda: x[0].add, "gauge": lambda: x[0].set, "hist": lambda: x[0].record}[x[1]]()(m, {"m": m})
            elif s == "logs": x.emit(_logs.LogRecord(body=m))
            else: x.emit(_events.Event("e", body=m))
            ok = True
        except vt.Killed: raise
        except BaseException as ex: self.log(op="note", what=repr(ex)[:200])
        self.log(op="me", m=m, raised=not ok)
SC = [("a", None, None, None), ("a", "1", None, {}), ("b", "2", "http://u", None), ("b", None, "http://v", {"k": 1}), ("c", "3", None, {"k": "v", "l": 2})]
def step(w, r, sets):
    x = r.random()
    if x < 0.25 and sets: w.set(sets.pop())
    elif x < 0.4: w.read()
    elif x < 0.65 or not w.users:
        if w.sig != "metrics": w.user(r.choice(SC), r.choice("pf"))
        elif x < 0.47 or not w.meters: w.meter(r.choice(SC), r.choice("pf"))
        else: w.instrument(r.choice(w.meters), r.random() < w.pinv)
    else: w.use(r.choice(w.users))
def run(seed, mode):
    global W
    r = random.Random(seed * 17 + 5); sig = r.choice(["trace", "metrics", "metrics", "metrics", "logs", "events"]); env = r.random() < 0.2
    s = vt.Sched(seed, strategy="seq", early_timer=0.0) if mode == "seq" else vt.Sched(seed, early_timer=0.0)
    w = W = World(sig, env, r); w.pinv = r.choice([0, 0, 0.2])
    def main():
        sets = list(range(r.choice([0, 1, 1, 2, 3] if mode == "seq" else [1, 2, 2, 3]), 0, -1))
        for _ in range(r.randint(3, 25) if mode == "seq" else r.randint(0, 8)): step(w, r, sets if mode == "seq" else None)
        if mode != "seq":
            def go(n, sets):
                for _ in range(n): step(w, r, sets)
            th = [threading.Thread(target=w.set, args=(i,)) for i in sets] + [threading.Thread(target=go, args=(r.randint(1, 5), None)) for _ in range(r.choice([1, 2, 3]))]
            r.shuffle(th)
            for t in th: t.start()
            for t in th: t.join()
        for u in list(w.users): w.use(u)
        w.read()
        w.log(op="final", made=w.made, rec=w.rec)
    s.run(main)
    if s.aborted: w.log(op="fail", what="hang:" + str(s.aborted))
    if s.errors: w.log(op="fail", what="died:" + repr(s.errors)[:300])
    return {"id": f"{mode}-{seed}", "cfg": {"sig": sig, "env": env}, "ev": w.ev, "seed": seed}
tr = [run(x, JOB["mode"]) for x in range(JOB["from"], JOB["to"])]
import shutil; shutil.rmtree(EP, ignore_errors=True)
finish(tr)
