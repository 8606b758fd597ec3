"""Exemplars: filters, reservoirs, spans, racing recorders and collectors (M09)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from functools import partial
from opentelemetry import trace, context as ctxapi
from opentelemetry.trace import SpanContext, NonRecordingSpan, TraceFlags
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider, Counter, UpDownCounter, Histogram, ObservableCounter, AlwaysOnExemplarFilter, AlwaysOffExemplarFilter, TraceBasedExemplarFilter, SimpleFixedSizeExemplarReservoir
from opentelemetry.sdk.metrics import _Gauge as Gauge
from opentelemetry.sdk.metrics.export import MetricReader, AggregationTemporality as AT
from opentelemetry.sdk.metrics.view import View, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation
from metrics_util import encat
FILTER = {"on": AlwaysOnExemplarFilter, "off": AlwaysOffExemplarFilter, "trace": TraceBasedExemplarFilter}
CLS = {"counter": Counter, "udc": UpDownCounter, "hist": Histogram, "gauge": Gauge, "exp": Histogram, "ocounter": ObservableCounter}
BD = [10, 100, 1000, 10**6]
class Reader(MetricReader):
    def __init__(self, *a): super().__init__(*a); self.got = []
    def _receive_metrics(self, md, timeout_millis=10_000, **kw): self.got.append(md)
    def shutdown(self, timeout_millis=30_000, **kw): pass
def span_of(x):
    if x is None: return None
    if x[0] == "remote": return NonRecordingSpan(SpanContext(x[1], x[2], True, TraceFlags(1 if x[3] else 0)))
    class S(NonRecordingSpan): pass
    return S(SpanContext(x[1], x[2], False, TraceFlags(1 if x[3] else 0)))
class World:
    def __init__(self, s, c, r):
        self.s, self.c, self.r = s, c, r; self.ev = []; self.mid = self.cid = 0; self.obs = []
        T = {"C": AT.CUMULATIVE, "D": AT.DELTA}; k = c["kind"]
        self.rd = [Reader({CLS[k]: T[t]}) for t in c["rd"]]
        kw = {"attribute_keys": None if c["all"] else set(c["keys"])}
        if k == "exp": kw["aggregation"] = ExponentialBucketHistogramAggregation(max_size=c["size"])
        elif k == "hist" and c["res"] == "aligned": kw["aggregation"] = ExplicitBucketHistogramAggregation(boundaries=c["bd"])
        if c["res"] == "simple" and k != "exp" and (c["size"] != 1 or k == "hist"): kw["exemplar_reservoir_factory"] = lambda a: partial(SimpleFixedSizeExemplarReservoir, size=c["size"])
        self.mp = MeterProvider(self.rd, views=[View(instrument_name="i", **kw)], exemplar_filter=FILTER[c["filter"]](), shutdown_on_exit=False)
        m = self.mp.get_meter("m")
        if k == "ocounter": m.create_observable_counter("i", callbacks=[self.cb])
        else: self.rec = {"counter": lambda: m.create_counter("i").add, "udc": lambda: m.create_up_down_counter("i").add, "gauge": lambda: m.create_gauge("i").set,
                          "hist": lambda: m.create_histogram("i").record, "exp": lambda: m.create_histogram("i").record}[k]()
    def log(self, **k): self.ev.append(k)
    def call(self, v, a, sp, ri=0):
        self.mid += 1; m = str(self.mid)
        self.log(op="call", id=m, v=v, a=encat(a), r=ri, tid=hex(sp[1]) if sp else "", sid=hex(sp[2]) if sp else "", smp=bool(sp and sp[3]), t=self.s.now)
        return m
    def record(self, v, a, sp, how="explicit"):
        m = self.call(v, a, sp); err = ""
        try:
            if sp is None: self.rec(v, a)
            elif how == "explicit":
                self.rec(v, a, trace.set_span_in_context(span_of(sp)))
            else:
                tok = ctxapi.attach(trace.set_span_in_context(span_of(sp)))
                try: self.rec(v, a)
                finally: ctxapi.detach(tok)
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="ret", id=m, err=err, t=self.s.now)
    def cb(self, options):
        out = []
        for v, a, sp in self.obs:
            self.call(v, a, sp, self.ri)
            out.append(Observation(v, a, trace.set_span_in_context(span_of(sp)) if sp else None))
        return out
    def collect(self, ri):
        self.ri = ri; self.cid += 1; cid = str(self.cid); rd = self.rd[ri - 1]; rd.got.clear(); err = ""; pts = []
        self.log(op="ccall", cid=cid, r=ri)
        try: rd.collect()
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        for md in rd.got:
            for m in md.resource_metrics[0].scope_metrics[0].metrics:
                for p in m.data.data_points:
                    v = getattr(p, "value", None)
                    if v is None: v = p.sum
                    pts.append({"at": encat(p.attributes), "v": int(v) if self.c["conc"] else 0,
                                "ex": [{"v": e.value, "t": e.time_unix_nano, "tid": "" if e.trace_id is None else hex(e.trace_id), "sid": "" if e.span_id is None else hex(e.span_id), "fa": encat(e.filtered_attributes)} for e in p.exemplars]})
        self.log(op="cret", cid=cid, err=err, pts=pts)
    def done(self, tid, seed):
        ts = sorted({e["t"] for e in self.ev if "t" in e} | {x["t"] for e in self.ev for p in e.get("pts", ()) for x in p["ex"]}); rk = {t: i for i, t in enumerate(ts)}
        for e in self.ev:
            if "t" in e: e["t"] = rk[e["t"]]
            for p in e.get("pts", ()):
                for x in p["ex"]: x["t"] = rk[x["t"]]
        if self.s.aborted: self.log(op="fail", what="hang:" + str(self.s.aborted))
        if self.s.errors: self.log(op="fail", what="died:" + repr(self.s.errors))
        return {"id": tid, "cfg": self.c, "ev": self.ev, "seed": seed}

def rnd_cfg(r, conc):
    k = r.choice(["counter", "udc", "hist", "hist", "gauge", "exp"] + ([] if conc else ["ocounter"]))
    al = k == "hist" and r.random() < 0.7
    c = {"kind": k, "filter": r.choice(["on", "on", "on", "trace", "trace", "off"]), "res": "aligned" if al else "simple", "bd": [], "size": r.choice([1, 1, 2, 3, 5]),
         "all": r.random() < 0.4, "keys": r.choice([["k1"], [], ["k1", "k2"]]), "rd": r.choice([["C"], ["D"], ["C", "D"], ["D", "D"]]), "conc": conc}
    if k == "exp": c["size"] = r.choice([2, 3, 4, 160])
    if al: c["bd"] = r.choice([BD, BD[:1], [0, 50], BD]); c["size"] = len(c["bd"]) + 1
    if k == "exp" and c["size"] > 20: c["size"] = 20
    return c
def rnd_attrs(r):
    x = r.random()
    if x < 0.2: return r.choice([None, {}])
    return {k: r.choice(["a", "b"]) for k in r.sample(["k1", "k2", "k3"], r.choice([1, 2, 3]))}
def rnd_span(r):
    if r.random() < 0.4: return None
    return (r.choice(["remote", "local"]), r.getrandbits(128) | 1, r.getrandbits(64) | 1, r.random() < 0.6)

def sequential(seed):
    r = random.Random(seed * 3 + 1); c = rnd_cfg(r, False); s = vt.Sched(seed, strategy="seq", early_timer=0.0, tick=r.choice([0, 1])); box = []; random.seed(seed)
    vals = list(range(2, 60)) + [200, 300, 500, 2000, 3000, 10**6, 10**6 + 1, 10**7]; r.shuffle(vals)
    def main():
        w = World(s, c, r); box.append(w)
        for _ in range(r.randint(2, 30)):
            if r.random() < 0.78 and c["kind"] != "ocounter" and vals:
                v = vals.pop()
                if c["kind"] in ("udc", "gauge", "counter") and r.random() < 0.1: v = -v
                if r.random() < 0.1 and 0 in vals + [0] and not any(e["op"] == "call" and e["v"] == 0 for e in w.ev): v = 0
                w.record(v, rnd_attrs(r), rnd_span(r), r.choice(["explicit", "attach"]))
            else:
                w.obs = [(vals.pop(), rnd_attrs(r), rnd_span(r)) for _ in range(r.randint(0, 3)) if vals] if c["kind"] == "ocounter" else []
                w.collect(r.randint(1, len(w.rd)))
            if r.random() < 0.2: s.advance(5)
        w.obs = []
        for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return box[0].done(f"seq-{seed}", seed)
def concurrent(seed):
    r = random.Random(seed * 5 + 2); c = rnd_cfg(r, True); s = vt.Sched(seed, early_timer=0.0, tick=1); box = []; random.seed(seed)
    def main():
        w = World(s, c, r); box.append(w); bits = list(range(28)); r.shuffle(bits); at = [rnd_attrs(r) for _ in range(r.choice([1, 2]))]
        def rec(plan):
            for v, a, sp, h in plan: w.record(v, a, sp, h)
        def col(j, n):
            for _ in range(n): w.collect(j)
        th = [threading.Thread(target=rec, args=([(2 ** bits.pop(), r.choice(at), rnd_span(r), r.choice(["explicit", "attach"])) for _ in range(r.randint(1, 6))],)) for _ in range(r.choice([1, 2, 3]))]
        th += [threading.Thread(target=col, args=(j, r.randint(1, 4))) for j in range(1, len(w.rd) + 1)]
        r.shuffle(th)
        for t in th: t.start()
        for t in th: t.join()
        for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return box[0].done(f"conc-{seed}", seed)
def scripted(k, g):
    s = vt.Sched(1, strategy="seq", early_timer=0.0, tick=1); c = g["cfg"]; box = []; r = random.Random(k); random.seed(k)
    def main():
        w = World(s, c, r); box.append(w)
        for n, op in enumerate(g["ops"]):
            if op["op"] == "rec":
                sp = ("local", int(op["tid"][1:]) + 77, 5, op["smp"]) if op["tid"] else None
                w.record((0 if op["v"] == 1 else 500) + n + 1, {k: v[0][2:] for k, v in op["a"]}, sp, r.choice(["explicit", "attach"]))
            else: w.collect(op["r"])
        for j in (1, 2): w.collect(j)
    s.run(main)
    return box[0].done(f"gen-{k}", 0)
tr = [scripted(k, g) for k, g in enumerate(JOB.get("scripts", []))]
for x in range(JOB.get("from", 0), JOB.get("to", 0)): tr.append((concurrent if JOB["mode"] == "conc" else sequential)(x))
finish(tr)
