"""Multi processors of tracer and logger providers (T09)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading, time, gc
gc.disable()     # collected executors wake their threads, which must not happen in another execution
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor, SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk._logs import LoggerProvider, LogRecord, LogRecordProcessor
from opentelemetry.sdk._logs._internal import SynchronousMultiLogRecordProcessor, ConcurrentMultiLogRecordProcessor
RES = Resource({})

class World:
    def __init__(self, s, sig, kind, nth):
        self.s, self.sig, self.kind = s, sig, kind; self.ev = []; self.cur = {}; self.nf = 0; self.nx = 0; self.byt = {}
        if sig == "span":
            self.prov = TracerProvider(resource=RES, shutdown_on_exit=False, active_span_processor=ConcurrentMultiSpanProcessor(nth) if kind == "par" else random.choice([None, SynchronousMultiSpanProcessor()]))
            self.t = self.prov.get_tracer("t")
        else:
            self.prov = LoggerProvider(resource=RES, shutdown_on_exit=False, multi_log_record_processor=ConcurrentMultiLogRecordProcessor(nth) if kind == "par" else None)
            self.l = self.prov.get_logger("l")
    def log(self, **k): k["t"] = (self.s.now - vt.EPOCH) // 1000; self.ev.append(k)
    def proc(self, p, outs):
        w = self; n = [0]
        def flush(tmo=30000):
            f = w.byt.get(round(tmo * 1000)) if w.kind == "par" else w.cur.get(threading.get_ident())
            d, o = outs[n[0] % len(outs)]; n[0] += 1
            w.log(op="flp", f=f, p=p, tmo=round(tmo * 1000))
            if d: time.sleep(d / 1e6)
            w.log(op="flpr", f=f, p=p, r=o)
            if o == "raise": raise ValueError("flush")
            return {"true": True, "false": False}[o]
        def down(): w.log(op="shp", p=p)
        if self.sig == "span":
            class P(SpanProcessor):
                def on_start(self, span, parent_context=None): w.log(op="got", x=int(span.name) * 2, p=p, kind="start")
                def on_end(self, span): w.log(op="got", x=int(span.name) * 2 + 1, p=p, kind="end")
                def force_flush(self, timeout_millis=30000): return flush(timeout_millis)
                def shutdown(self): down()
        else:
            class P(LogRecordProcessor):
                def emit(self, log_data): w.log(op="got", x=int(log_data.log_record.body), p=p, kind="emit")
                def force_flush(self, timeout_millis=30000): return flush(timeout_millis)
                def shutdown(self): down()
        return P()
    def add(self, p, outs):
        x = self.proc(p, outs); self.log(op="addc", p=p)
        (self.prov.add_span_processor if self.sig == "span" else self.prov.add_log_record_processor)(x)
        self.log(op="addr", p=p)
    def call(self, x, kind, fn):
        self.log(op="evc", x=x, kind=kind); err = ""
        try: r = fn()
        except vt.Killed: raise
        except BaseException as ex: err = type(ex).__name__; r = None
        self.log(op="evr", x=x, err=err); return r
    def event(self, gap=None):
        self.nx += 1; n = self.nx
        if self.sig == "log": self.call(n, "emit", lambda: self.l.emit(LogRecord(body=str(n), resource=RES)))
        else:
            sp = self.call(n * 2, "start", lambda: self.t.start_span(str(n)))
            if gap: gap()
            if sp is not None: self.call(n * 2 + 1, "end", sp.end)
    def flush(self, tmo):
        self.nf += 1; f = f"f{self.nf}"
        if self.kind == "par": tmo += self.nf; self.byt[tmo] = f
        self.cur[threading.get_ident()] = f
        self.log(op="flc", f=f, tmo=tmo)
        prov = EventLoggerProvider(self.prov) if self.sig == "log" and self.nf % 2 else self.prov
        try: r = "true" if prov.force_flush(tmo / 1000) else "false"
        except vt.Killed: raise
        except BaseException as ex: r = type(ex).__name__
        self.log(op="flr", f=f, r=r)
    def shut(self):
        self.log(op="shc"); self.prov.shutdown(); self.log(op="shr")

def run(sig, kind, nth, seed, strategy, body):
    s = vt.Sched(seed, tick=0 if strategy else 100, strategy=strategy, early_timer=0.0); box = []
    def main():
        w = World(s, sig, kind, nth); box.append(w); body(w)
    s.run(main); ev = box[0].ev
    if not strategy: gc.collect()
    if s.aborted: ev.append({"op": "fail", "what": "hang-" + s.aborted})
    for n, e in s.errors: ev.append({"op": "fail", "what": f"thread-died-{type(e).__name__}"})
    return ev

out = []
for i, sc in enumerate(JOB.get("scripts", [])):
    for sig in ("span", "log"):
        def body(w):
            n = 0
            for op in sc["ops"]:
                if op["op"] == "add": n += 1; w.add(n, [(op["d"], op["o"])])
                elif op["op"] == "ev": w.event()
                else: w.flush(op["tmo"])
            w.shut()
        random.seed(i)
        out.append({"id": f"{sig}-s{i}", "cfg": {"kind": sc["cfg"]["kind"], "slack": 0}, "ev": run(sig, sc["cfg"]["kind"], 1 + i % 3, i, "seq", body), "script": sc["ops"]})
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    r = random.Random(seed * 17 + 3); random.seed(seed); sig = r.choice(["span", "log"]); kind = r.choice(["seq", "seq", "par"])
    outs = lambda: [(r.choice([0, 0, 1000, 300000, 1000000]), r.choice(["true"] * 6 + ["false", "raise"])) for _ in range(4)]
    pre = r.choice([0, 1, 2]); adders = [[(10 * (j + 1) + i, outs()) for i in range(r.randint(1, 2))] for j in range(r.choice([0, 1, 2, 3]))]
    first = [(i + 1, outs()) for i in range(pre)]; senders = [r.randint(1, 3) for _ in range(r.choice([1, 2, 3]))]
    fl = [r.choice([900, 200000, 1300000, 30000000]) for _ in range(r.choice([0, 1, 2]))]; nth = r.choice([1, 2, 3])
    nfl = r.choice([1, 2]) if kind == "seq" else 1
    def body(w):
        for p, o in first: w.add(p, o)
        def adder(ps):
            for p, o in ps: w.add(p, o)
        def sender(n):
            for _ in range(n): w.event(lambda: None)
        def flusher():
            for t in fl: w.flush(t)
        th = [threading.Thread(target=adder, args=(a,)) for a in adders] + [threading.Thread(target=sender, args=(n,)) for n in senders] + [threading.Thread(target=flusher) for _ in range(nfl)]
        for t in th: t.start()
        for t in th: t.join()
        w.event(); w.flush(r.choice([500000, 30000000])); w.shut()
    out.append({"id": f"{sig}-r{seed}", "cfg": {"kind": kind, "slack": 20000}, "ev": run(sig, kind, nth, seed, None, body), "seed": seed})
finish(out)
