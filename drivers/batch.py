"""Runs BatchSpanProcessor / BatchLogRecordProcessor under the deterministic
scheduler and records what can be observed."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading, time
KIND = JOB["kind"]
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
from opentelemetry._logs import SeverityNumber

class ByName(Sampler):
    def __init__(self, no): self.no = no
    def should_sample(self, parent_context, trace_id, name, *a, **k):
        d = self.no.get(name, "s")
        return SamplingResult({"s": Decision.RECORD_AND_SAMPLE, "r": Decision.RECORD_ONLY, "d": Decision.DROP}[d])
    def get_description(self): return "x"

def scenario(seed):
    r = random.Random(seed * 7919 + 13)
    mode = JOB["mode"]
    timed = mode in ("timed", "burst")
    prompt = timed or seed % 2 == 0
    s = vt.Sched(seed, tick=200, early_timer=0.0 if prompt else None, strategy=r.choice([None, "rr"]) if mode == "burst" else None)
    mq = r.choice([1, 2, 3, 4, 6]); mb = r.randint(1, mq)
    delay = r.choice([20, 100, 5000])
    nprod = r.choice([1, 2, 2, 3])
    plan = []; n = 0
    uns = {}
    for p in range(nprod):
        ops = []
        for _ in range(r.randint(1, 4 if nprod > 1 else 8)):
            n += 1
            ops.append((f"i{n}", r.choice([0, 0, 0, delay / 10, delay / 2, delay, delay * 1.7]) if (timed or r.random() < 0.4) else 0))
            if KIND == "span" and r.random() < 0.15:
                uns[f"i{n}"] = r.choice("rd")
        plan.append(ops)
    outcomes = {k: (r.choice(["ok", "ok", "ok", "fail", "raise"]), r.choice([0, 0, 0.001, delay / 3000, delay / 1000, delay * 2.3 / 1000])) for k in range(40)}
    nf = 0 if timed else r.choice([0, 1, 1, 2] if mode == "deliver" else [1, 2, 2, 3])
    flushes = [(f"f{k+1}", r.choice([None, 10, 30000, delay * 3]), r.choice([0, 0, delay / 2, delay * 1.2])) for k in range(nf)]
    ns = r.choice([0, 0, 1, 2]) if not timed else 0     # concurrent shutdowns before the final one
    shuts = [(f"s{k+1}", r.choice([0, delay / 3, delay * 1.1])) for k in range(ns)]
    latefl = not timed and r.random() < 0.3
    if mode == "join":
        # slow exports; ends, flushes and shutdowns arrive while an export is under way
        mq = r.choice([3, 4, 6, 10]); mb = r.choice([1, 1, 2, 3, mq]); mb = min(mb, mq); delay = 5000
        uns = {}; plan = []; n = 0
        for p in range(r.choice([1, 1, 2])):
            ops = []
            for _ in range(r.randint(2, 5)):
                n += 1
                ops.append((f"i{n}", r.choice([0, 0, 5, 10, 20, 40])))
            plan.append(ops)
        outcomes = {k: (r.choice(["ok", "ok", "ok", "ok", "fail", "raise"]), r.choice([0.01, 0.05, 0.1])) for k in range(40)}
        flushes = [(f"f{k+1}", r.choice([None, None, None, 30]), r.choice([0, 3, 8, 13, 18, 25, 35, 45, 60])) for k in range(r.choice([2, 3, 4]))]
        shuts = [("s1", r.choice([20, 60, 150]))] if r.random() < 0.2 else []
        latefl = r.random() < 0.2
    if mode == "burst":
        # an idle worker; several threads end items at the same moment, so that a batch fills up
        mb = r.choice([1, 2, 2, 3, 4]); mq = mb + r.choice([1, 2, 4]); delay = 5000
        n = mb + r.choice([0, 1, 1, 2]); uns = {}
        t0 = r.choice([0, 1, 10])
        plan = [[(f"i{k+1}", t0)] for k in range(n)]
        if r.random() < 0.5:          # some arrive beforehand and wait
            k = r.randint(0, n - 2) if n > 2 else 0
            plan = [[(f"i{j+1}", 0) for j in range(k)]] * (k > 0) + [[(f"i{j+1}", 10)] for j in range(k, n)]
        if r.random() < 0.3:
            n += 1; plan.append([(f"i{n}", r.choice([20, 300]))])
        outcomes = {k: ("ok", 0) for k in range(40)}
    def main():
        cnt = [0]; kept = []
        def name(x):
            try: return x.name if KIND == "span" else x.log_record.body
            except Exception as ex: return "?" + repr(ex)
        def export(batch):
            names = []
            kept.append(batch)
            for x in batch:
                try:
                    names.append(x.name if KIND == "span" else x.log_record.body)
                except Exception as ex:
                    names.append("?" + repr(ex))
            s.event(e="X", b=names)
            k = cnt[0]; cnt[0] += 1
            o, d = outcomes[k % 40]
            try:
                if d: time.sleep(d)
                if o == "raise": raise ValueError("exporter raised")
            finally:
                s.event(e="XR", o=o)
            return o == "ok"
        if KIND == "span":
            class Ex(SpanExporter):
                def export(self, spans): return SpanExportResult.SUCCESS if export(spans) else SpanExportResult.FAILURE
                def shutdown(self): s.event(e="XS")
                def force_flush(self, timeout_millis=30000): return True
            proc = BatchSpanProcessor(Ex(), max_queue_size=mq, schedule_delay_millis=delay, max_export_batch_size=mb)
            tp = TracerProvider(sampler=ByName(uns), shutdown_on_exit=False); tp.add_span_processor(proc)
            tr = tp.get_tracer("x")
            def emit(name):
                sp = tr.start_span(name)
                s.event(e="C", i=name); sp.end(); s.event(e="R", i=name)
        else:
            class Ex(LogExporter):
                def export(self, batch): return LogExportResult.SUCCESS if export(batch) else LogExportResult.FAILURE
                def shutdown(self): s.event(e="XS")
            proc = BatchLogRecordProcessor(Ex(), max_queue_size=mq, schedule_delay_millis=delay, max_export_batch_size=mb)
            lp = LoggerProvider(shutdown_on_exit=False); lp.add_log_record_processor(proc)
            lg = lp.get_logger("x")
            def emit(name):
                rec = LogRecord(timestamp=1, body=name, severity_number=SeverityNumber.INFO)
                s.event(e="C", i=name); lg.emit(rec); s.event(e="R", i=name)
        def guard(f, *a):
            try:
                f(*a)
            except vt.Killed:
                raise
            except BaseException as ex:
                s.event(e="RAISED", what=repr(ex))
        def producer(ops):
            for name, dly in ops:
                if dly: time.sleep(dly / 1000)
                emit(name)
        def flush(k, tmo, dly):
            if dly: time.sleep(dly / 1000)
            s.event(e="F", k=k)
            x = proc.force_flush() if tmo is None else proc.force_flush(tmo)
            s.event(e="FR", k=k, r="true" if x is True else "false" if x is False else repr(x), tmo=int((30000 if tmo is None else tmo) * 1000))
        def shut(k, dly):
            if dly: time.sleep(dly / 1000)
            s.event(e="S", n=k); proc.shutdown(); s.event(e="SR", n=k)
        ths = [threading.Thread(target=guard, args=(producer, ops)) for ops in plan]
        ths += [threading.Thread(target=guard, args=(flush, *f)) for f in flushes]
        ths += [threading.Thread(target=guard, args=(shut, *f)) for f in shuts]
        r.shuffle(ths)
        for t in ths: t.start()
        for t in ths: t.join()
        if timed:
            time.sleep((delay * 2 + 100) / 1000 + (n + 2) * delay * 2.4 / 1000)
            s.event(e="Q")
        if latefl: guard(flush, "fz", None, 0)
        guard(shut, "sz", 0)
        guard(emit, "iz")
        if not timed: guard(flush, "fy", 50, 0)
        # an exporter may keep what it was handed: the batches must still be the ones of the calls
        s.event(e="KEPT", b=[[name(x) for x in b] for b in kept])
    ok = s.run(main)
    ev = s.log
    if s.aborted or not ok:
        ev.append({"e": "HANG", "why": str(s.aborted), "blocked": str(getattr(s, "blocked", "")), "t": ev[-1]["t"] if ev else 0})
    for name, ex in s.errors:
        ev.append({"e": "THREAD-DIED", "what": name + repr(ex), "t": ev[-1]["t"] if ev else 0})
    nx = []
    for e in reversed(ev):
        if e["e"] == "X": nx = e["b"]
        e["nx"] = nx
    return {"id": f"{KIND}-{mode}-{seed}", "seed": seed, "strategy": s.strategy,
            "cfg": {"mq": mq, "mb": mb, "uns": sorted(uns), "delay": int(delay * 1000), "slack": 1000, "timed": timed, "prompt": prompt,
                    "items": [f"i{k+1}" for k in range(n)] + ["iz"], "flushes": [f[0] for f in flushes] + ["fz", "fy"], "shuts": [f[0] for f in shuts] + ["sz"]},
            "ev": ev}, s

traces = []; stats = {"steps": 0, "switches": 0, "distinct_schedules": 0}
seen = set()
for seed in range(JOB["from"], JOB["to"]):
    t, s = scenario(seed)
    traces.append(t)
    stats["steps"] += s.steps; stats["switches"] += s.switches
    seen.add(str([[e["e"], e.get("i"), e.get("b")] for e in t["ev"]]))
    if s.aborted == "wall":
        break
stats["distinct_schedules"] = len(seen)
finish(traces, stats)
