"""Real forks of processes with export pipelines (T11).

Every scenario runs in a process S of its own, forked from this driver while it
is still single-threaded.  A background or application thread of S is stopped
at its n-th line of library code; S forks at that moment and lets it go on.
"""
from common import JOB, finish
import warnings; warnings.simplefilter("ignore")
import logging; logging.disable(50)
import concurrent.futures.thread   # imported lazily by the library otherwise: the import lock is not the pipelines'
import _thread, json, os, random, select, signal, sys, threading, time
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider, Counter
from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader, MetricExporter, MetricExportResult, AggregationTemporality as AT
REPO = "/repo/"; THR = threading.__file__; SELF = os.path.abspath(__file__)

class Parker:
    """Stops one thread at its n-th traced line until released."""
    def __init__(self, n):
        self.n = n; self.k = 0; self.pid = os.getpid(); self.at = _thread.allocate_lock(); self.at.acquire(); self.go = _thread.allocate_lock(); self.go.acquire(); self.hit = False; self.where = ""
    def trace(self, frame, ev, arg):
        if self.hit or os.getpid() != self.pid: return None
        fn = frame.f_code.co_filename
        if not (fn.startswith(REPO) or fn == THR or (fn == SELF and frame.f_code.co_name in ("cb", "export"))): return None
        return self.line
    def line(self, frame, ev, arg):
        if self.hit or os.getpid() != self.pid: return None
        if ev == "line":
            self.k += 1
            if self.k >= self.n:
                self.hit = True; self.where = f"{frame.f_code.co_filename.split('/')[-1]}:{frame.f_code.co_name}:{frame.f_lineno}"
                sys.settrace(None); self.at.release(); self.go.acquire(True, 20)
                return None
        return self.line

class W:
    def __init__(self, kind, r):
        self.kind, self.r, self.ev, self.p = kind, r, [], "P"
        res = Resource({}); w = self; self.fast = r.random() < 0.5; delay = 15 if self.fast else 60000
        class SE(SpanExporter):
            def export(self, batch):
                w.ev.append({"op": "X", "p": w.p, "ids": [int(x.name) for x in batch]}); return SpanExportResult.SUCCESS
        class LE(LogExporter):
            def export(self, batch):
                w.ev.append({"op": "X", "p": w.p, "ids": [int(x.log_record.body) for x in batch]}); return LogExportResult.SUCCESS
            def shutdown(self): pass
        class ME(MetricExporter):
            def export(self, md, timeout_millis=10_000, **kw):
                ids = [b for rm in md.resource_metrics for sm in rm.scope_metrics for m in sm.metrics if m.name == "c" for p in m.data.data_points for b in range(1, 62) if p.value >> b & 1]
                w.ev.append({"op": "X", "p": w.p, "ids": ids}); return MetricExportResult.SUCCESS
            def force_flush(self, timeout_millis=10_000): return True
            def shutdown(self, timeout_millis=30_000, **kw): pass
        q = dict(max_queue_size=64, max_export_batch_size=r.choice([1, 2, 64]), schedule_delay_millis=delay)
        if kind == "span":
            self.prov = TracerProvider(resource=res, shutdown_on_exit=False); self.prov.add_span_processor(BatchSpanProcessor(SE(), **q)); t = self.prov.get_tracer("t")
            self.emit1 = lambda i: t.start_span(str(i)).end()
        elif kind == "log":
            self.prov = LoggerProvider(resource=res, shutdown_on_exit=False); self.prov.add_log_record_processor(BatchLogRecordProcessor(LE(), **q)); l = self.prov.get_logger("l")
            self.emit1 = lambda i: l.emit(LogRecord(body=str(i), resource=res))
        else:
            self.prov = MeterProvider([PeriodicExportingMetricReader(ME(preferred_temporality={Counter: AT.DELTA}), delay)], resource=res, shutdown_on_exit=False); m = self.prov.get_meter("m"); c = m.create_counter("c")
            def cb(o):
                x = 0
                for _ in range(3): x += 1
                return [Observation(x)]
            m.create_observable_gauge("g", callbacks=[cb])
            at = [{"k": str(k)} for k in range(3)]
            self.emit1 = lambda i: c.add(1 << i, at[i % 3])
    def emit(self, i, p=None):
        p = p or self.p
        self.ev.append({"op": "e", "p": p, "id": i})
        try: self.emit1(i)
        except BaseException as ex: self.ev.append({"op": "err", "p": p, "what": repr(ex)})
        else: self.ev.append({"op": "er", "p": p, "id": i})
    def flush(self, t):
        self.ev.append({"op": "f", "p": self.p, "t": t}); ok = False
        try: ok = bool(self.prov.force_flush(10000))
        except BaseException as ex: self.ev.append({"op": "err", "p": self.p, "what": repr(ex)})
        self.ev.append({"op": "flush", "p": self.p, "t": t, "ok": ok})
    def wait(self):
        """What was emitted is exported without a flush."""
        want = {e["id"] for e in self.ev if e["op"] == "er" and e["p"] == self.p}; end = time.monotonic() + 10
        while time.monotonic() < end:
            if want <= {i for e in list(self.ev) if e["op"] == "X" and e["p"] == self.p for i in e["ids"]}: break
            time.sleep(0.002)
        self.ev.append({"op": "waited", "p": self.p})
    def shut(self):
        try: self.prov.shutdown()
        except BaseException as ex: self.ev.append({"op": "err", "p": self.p, "what": repr(ex)})
        self.ev.append({"op": "shut", "p": self.p})

def forked(fn, limit):
    """Run fn in a forked process; its JSON result, or None if it hangs or dies."""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r); os.setsid() if limit > 40 else None
            data = json.dumps(fn()).encode()
            while data: data = data[os.write(w, data):]
        except BaseException as ex:
            import traceback; traceback.print_exc(); sys.stderr.flush()
        finally: os._exit(0)
    os.close(w)
    return pid, r, time.monotonic() + limit
def result(h, group=False):
    pid, r, end = h; buf = b""; ok = True
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]: ok = False; break
        x = os.read(r, 65536)
        if not x: break
        buf += x
    if not ok:
        try: os.killpg(pid, signal.SIGKILL) if group else os.kill(pid, signal.SIGKILL)
        except OSError: pass
    os.close(r); os.waitpid(pid, 0)
    try: return json.loads(buf)
    except ValueError: return None

def child_ops(w, r, me, base, depth):
    n = 0; k = r.choice([1, 2, 3])
    for _ in range(k): w.emit(base + n); n += 1
    if r.random() < 0.3:
        th = [threading.Thread(target=w.emit, args=(base + 4 + j,)) for j in range(2)]
        for t in th: t.start()
        for t in th: t.join()
    (w.wait if w.fast and r.random() < 0.5 else lambda: w.flush("m"))()
    w.emit(base + 7)
    out = []
    if depth and r.random() < 0.4:
        w.ev.append({"op": "fork", "p": me, "ch": me + "c"})
        def grand():
            w.ev = []; w.p = me + "c"; return child_ops(w, r, me + "c", 41, 0)
        h = forked(grand, 22)
        if r.random() < 0.5: w.emit(base + 8)
        g = result(h); out = g if g is not None else [{"op": "hang", "p": me + "c"}]
    if r.random() < 0.7: w.flush("m")
    w.shut()
    return w.ev + out

def scenario(seed):
    r = random.Random(seed * 31 + 7); kind = JOB["kind"]
    park = Parker(r.choice([r.randint(1, 40), r.randint(1, 120), r.randint(1, 400)])); who = r.choice(["worker", "app", "none"])
    if who == "worker": threading.settrace(park.trace)
    w = W(kind, r)
    threading.settrace(None)
    pre = r.choice([1, 2, 3, 5]); done = _thread.allocate_lock(); done.acquire(); fl = r.random() < 0.6
    def app():
        for i in range(1, pre + 1): w.emit(i, "P")
        if fl: w.flush("a")
        if r0.random() < 0.5: w.emit(9, "P")
        if w.fast: time.sleep(0.02)
        done.release()
    r0 = random.Random(seed)
    if who == "app": threading.settrace(park.trace)
    t = threading.Thread(target=app); t.start(); threading.settrace(None)
    end = time.monotonic() + 0.3
    if who != "none":
        while time.monotonic() < end and not park.at.acquire(False):
            if done.acquire(False): done.release(); end = min(end, time.monotonic() + 0.03)
            time.sleep(0.0005)
    elif r.random() < 0.5: time.sleep(r.random() * 0.02)
    pre_ev = list(w.ev)
    box = []
    def do_fork():
        w.ev.append({"op": "fork", "p": "P", "ch": "C"})
        def child():
            w.ev = []; w.p = "C"; return child_ops(w, r, "C", 21, 1)
        box.append(forked(child, 30))
    if r.random() < 0.7: do_fork()
    else:
        ft = threading.Thread(target=do_fork); ft.start(); ft.join()
    try: park.go.release()
    except RuntimeError: pass
    w.emit(11); t.join()
    w.flush("b"); w.emit(12)
    (w.wait if w.fast else lambda: w.flush("c"))()
    ch = result(box[0]); w.shut()
    return {"ev": w.ev + (ch if ch is not None else [{"op": "hang", "p": "C"}]), "where": park.where}
out = []; hit = 0
for seed in range(JOB["from"], JOB["to"]):
    x = result(forked(lambda: scenario(seed), 120), group=True)
    if x is None: x = {"ev": [{"op": "hang", "p": "P"}], "where": ""}
    hit += bool(x["where"])
    hung = any(e["op"] == "hang" or e["op"] == "flush" and not e["ok"] for e in x["ev"])
    out.append({"id": f"{JOB['kind']}-{seed}", "cfg": {"kind": JOB["kind"]}, "ev": x["ev"], "seed": seed, "where": x["where"]})
    if hung: break   # hangs take long, and one tells enough
finish(out, {"forks_at_chosen_points": hit, "forks": len(out)})
