"""PeriodicExportingMetricReader under the deterministic scheduler (M08)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading, time, math
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider, Counter
from opentelemetry.sdk.metrics.export import PeriodicExportingMetricReader, MetricExporter, MetricExportResult, AggregationTemporality as AT
from opentelemetry.sdk.resources import Resource

class Exp(MetricExporter):
    def __init__(self, w): super().__init__(preferred_temporality={Counter: AT.DELTA}); self.w = w; self.n = 0
    def export(self, md, timeout_millis=10_000, **kw):
        w = self.w; ids = []; k = self.n; self.n += 1
        for rm in md.resource_metrics:
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    if m.name == "c":
                        for p in m.data.data_points:
                            ids += [b + 1 for b in range(31) if p.value >> b & 1]
        w.log(op="X", ids=ids, by=w.who(), x=k)
        o, d = w.outcomes[k % len(w.outcomes)]
        try:
            if d: time.sleep(d)
            if o == "raise": raise RuntimeError("export failed")
            return MetricExportResult.FAILURE if o == "fail" else MetricExportResult.SUCCESS
        finally:
            w.log(op="XR", x=k, by=w.who())
    def force_flush(self, timeout_millis=10_000): return True
    def shutdown(self, timeout_millis=30_000, **kw):
        self.w.log(op="XS")
        if self.w.xsd: time.sleep(self.w.xsd)
        self.w.log(op="XSR")

class World:
    def __init__(self, s, r, cfg):
        self.s, self.r, self.ev, self.app, self.cfg = s, r, [], {}, cfg
        self.bit = 0
    def who(self): return self.app.get(threading.get_ident(), "ticker")
    def log(self, **k):
        k["t"] = (self.s.now - vt.EPOCH) // 1000
        self.ev.append(k)

def scenario(seed):
    r = random.Random(seed * 7919 + 5)
    mode = JOB["mode"]; timed = mode == "timed"
    prompt = timed or seed % 2 == 0
    s = vt.Sched(seed, tick=200, early_timer=0.0 if prompt else None)
    iv = r.choice([20, 100, 5000]); to = r.choice([30000, 30000, 30000, iv / 2])
    inf = not timed and r.random() < 0.1
    cfg = {"iv": 0 if inf else int(iv * 1000), "to": int(to * 1000), "slack": 3000 if prompt else 10**9, "via": r.choice(["reader", "provider"])}
    cbd = lambda: r.choice([0, 0, 0, 0, iv * 0.3, iv * 1.5, to * 0.6 if to < 1000 else 0, to * 1.4 if r.random() < 0.5 else 0]) / 1000
    ncb = r.choice([0, 1, 1, 2])
    plan = []; n = 0
    for p in range(r.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(r.randint(1, 4)):
            n += 1
            if n <= 28: ops.append((n, r.choice([0, 0, iv / 10, iv / 2, iv, iv * 1.7]) / 1000 if (timed or r.random() < 0.4) else 0))
        plan.append(ops)
    fl = [(f"f{i}", r.choice([None, None, iv / 3, 30000]), r.choice([0, 0, iv / 2, iv * 1.01, iv * 1.2])) for i in range(r.choice([0, 0, 1]) if timed else r.choice([0, 1, 1, 2, 3]))]
    sh = [(f"s{i}", r.choice([0, iv / 3, iv * 1.1])) for i in range(0 if timed else r.choice([0, 0, 1, 2]))]
    sto = r.choice([None, None, None, iv / 4])
    late = r.random() < 0.4; coll = not timed and r.random() < 0.3
    box = []
    def main():
        w = World(s, r, cfg); box.append(w)
        w.outcomes = [(r.choice(["ok", "ok", "ok", "fail", "raise"]), r.choice([0, 0, 0.001, iv / 3000, iv / 1000, iv * 2.3 / 1000])) for _ in range(40)]
        w.xsd = r.choice([0, 0, iv / 1000])
        w.app[threading.get_ident()] = "main"
        cbs = [[(cbd(), r.random() < 0.15) for _ in range(60)] for _ in range(ncb)]
        cnt = [0] * ncb
        def mkcb(i):
            def cb(o):
                d, bad = cbs[i][cnt[i] % 60]; cnt[i] += 1
                w.log(op="CB", by=w.who())
                if d: time.sleep(d)
                w.log(op="CBR", by=w.who())
                if bad: raise RuntimeError("callback")
                return [Observation(cnt[i])]
            return cb
        def beat(o):       # marks the collections, always has something to report
            w.log(op="T", by=w.who()); return [Observation(1)]
        w.log(op="start")
        rd = PeriodicExportingMetricReader(Exp(w), math.inf if inf else iv, to)
        mp = MeterProvider([rd], resource=Resource({}), shutdown_on_exit=False)
        m = mp.get_meter("m"); m.create_observable_gauge("beat", callbacks=[beat])
        for i in range(ncb): m.create_observable_gauge(f"g{i}", callbacks=[mkcb(i)])
        c = m.create_counter("c")
        w.log(op="made")
        def rec(ops):
            w.app[threading.get_ident()] = "rec"
            for i, d in ops:
                if d: time.sleep(d)
                w.log(op="R", id=i); c.add(2 ** (i - 1)); w.log(op="RR", id=i)
        def flush(f, tmo, d):
            w.app[threading.get_ident()] = f
            if d: time.sleep(d / 1000)
            t = 10000 if tmo is None else tmo; w.log(op="F", f=f, to=int(t * 1000)); err = ""
            try: (rd if cfg["via"] == "reader" else mp).force_flush(*([] if tmo is None else [tmo]))
            except vt.Killed: raise
            except BaseException as ex: err = type(ex).__name__
            w.log(op="FR", f=f, err=err)
        def shut(f, d, tmo=None):
            w.app[threading.get_ident()] = f
            if d: time.sleep(d / 1000)
            w.log(op="S", f=f, to=int((30000 if tmo is None else tmo) * 1000)); err = ""
            try: (rd if cfg["via"] == "reader" else mp).shutdown(*([] if tmo is None else [tmo]))
            except vt.Killed: raise
            except BaseException as ex: err = type(ex).__name__
            w.log(op="SR", f=f, err=err)
        def collect(f):
            w.app[threading.get_ident()] = f
            w.log(op="F", f=f, to=0)
            try: rd.collect()
            except vt.Killed: raise
            except BaseException as ex: pass
            w.log(op="FR", f=f, err="collect")
        th = [threading.Thread(target=rec, args=(o,)) for o in plan] + [threading.Thread(target=flush, args=x) for x in fl] + [threading.Thread(target=shut, args=x) for x in sh]
        if coll: th.append(threading.Thread(target=collect, args=("u1",)))
        r.shuffle(th)
        for t in th: t.start()
        for t in th: t.join()
        if timed or r.random() < 0.5: time.sleep(iv * r.choice([0.5, 1.5, 3.2]) / 1000)
        w.app[threading.get_ident()] = "sf"
        shut("sf", 0, sto)
        if late:
            w.log(op="R", id=29); c.add(2 ** 28); w.log(op="RR", id=29)
            for k in ("lf", "lc"): (flush(k, None, 0) if k == "lf" else collect(k))
            time.sleep(iv * 2 / 1000); shut("sz", 0)
        time.sleep(iv * 4 / 1000 + 0.1)
        w.log(op="end")
    s.run(main)
    w = box[0]
    if s.aborted: w.log(op="fail", what="hang:" + str(s.aborted) + repr(getattr(s, "blocked", "")))
    if s.errors: w.log(op="fail", what="died:" + repr(s.errors))
    return {"id": f"{mode}-{seed}", "cfg": cfg, "ev": w.ev, "seed": seed}
finish([scenario(x) for x in range(JOB["from"], JOB["to"])])
