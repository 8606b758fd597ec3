"""Exponential histograms under wide ranges of values, rescaling, merging and racing threads (M03)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading, math, struct
from decimal import Decimal, getcontext
from opentelemetry.sdk.metrics import MeterProvider, Histogram, UpDownCounter
from opentelemetry.sdk.metrics.export import MetricReader, AggregationTemporality as AT, ExponentialHistogram
from opentelemetry.sdk.metrics.view import View, ExponentialBucketHistogramAggregation
getcontext().prec = 60
LN2 = Decimal(2).ln()
MINN = 2.0 ** -1022

def index20(v):
    """Index at scale 20 of a positive value, None if too near a boundary to be told in floating point."""
    if v < MINN: v = MINN
    m, e = math.frexp(v)
    if m == 0.5: return ((e - 1) << 20) - 1
    x = Decimal(v).ln() / LN2 * (1 << 20)
    k = x.to_integral_value(rounding="ROUND_CEILING")
    if min(k - x, x - (k - 1)) < Decimal("0.001"): return None
    return int(k) - 1

def near_coarse(v, ix):
    """True if v is close (in floating point) to a boundary of some scale without being on it."""
    return any(abs(((ix + 1) % (1 << k)) - 0) in (0, 1, (1 << k) - 1) for k in range(1, 20)) and math.frexp(v)[0] != 0.5 and (ix + 1) % (1 << 8) in (0, 1, 255)

class Reader(MetricReader):
    def __init__(self, *a): super().__init__(*a); self.got = []
    def _receive_metrics(self, md, timeout_millis=10_000, **kw): self.got.append(md)
    def shutdown(self, timeout_millis=30_000, **kw): pass

class World:
    def __init__(self, s, c, conc):
        self.s, self.c, self.conc = s, c, conc; self.ev = []; self.cid = self.mid = 0; self.vals = {0.0}; self.total = {}; self.exact = []
        T = {"C": AT.CUMULATIVE, "D": AT.DELTA}
        self.rd = [Reader({Histogram: T[t], UpDownCounter: T[t]}) for t in c["rd"]]
        agg = ExponentialBucketHistogramAggregation(max_size=c["size"], max_scale=c["maxscale"])
        self.mp = MeterProvider(self.rd, views=[View(instrument_name="h", aggregation=agg)], shutdown_on_exit=False)
        m = self.mp.get_meter("m")
        self.rec = m.create_histogram("h").record if conc else m.create_up_down_counter("h").add
    def log(self, **k): self.ev.append(k)
    def record(self, v, a):
        self.mid += 1; m = str(self.mid)
        ix = 0 if v == 0 else index20(abs(float(v)))
        self.vals.add(v); self.exact.append((m, a, v))
        self.log(op="call", id=m, sg=(v > 0) - (v < 0), ix=ix, rk=v, v=int(v) if self.conc else 0, a=a)
        err = ""
        try: self.rec(v, {"k": a})
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="ret", id=m, err=err)
    def collect(self, r):
        self.cid += 1; cid = str(self.cid); rd = self.rd[r - 1]; rd.got.clear(); err = ""; pts = []
        self.log(op="ccall", cid=cid, r=r)
        try: rd.collect()
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        for md in rd.got:
            for m in md.resource_metrics[0].scope_metrics[0].metrics:
                for p in m.data.data_points:
                    a = p.attributes["k"]; ok = True
                    if not self.conc:
                        key = (r, a) if self.c["rd"][r - 1] == "D" else None
                        xs = [v for m, b, v in self.exact[(self.total.get((r, a), 0) if key else 0):] if b == a]
                        self.total[(r, a)] = len(self.exact)
                        try: want = math.fsum(float(v) for v in xs)
                        except OverflowError: want = None                # (partial sums leave the floating point range)
                        if want is not None and not math.isinf(math.fsum(abs(float(v)) / 4 for v in xs) * 4):
                            ok = abs(p.sum - want) <= 1e-9 * math.fsum(abs(float(v)) for v in xs) + 1e-300
                    self.log_rank(p.min); self.log_rank(p.max)
                    pts.append({"at": a, "tp": {AT.CUMULATIVE: "C", AT.DELTA: "D"}.get(m.data.aggregation_temporality, ""), "cnt": p.count, "zero": p.zero_count, "scale": p.scale,
                                "po": p.positive.offset, "pos": list(p.positive.bucket_counts), "no": p.negative.offset, "neg": list(p.negative.bucket_counts),
                                "mn": p.min, "mx": p.max, "sumok": ok, "v": int(p.sum) if self.conc else 0})
                    if not isinstance(m.data, ExponentialHistogram): pts[-1]["tp"] = "?"
        self.log(op="cret", cid=cid, err=err, pts=pts)
    def log_rank(self, v): self.vals.add(v)
    def done(self, tid, seed):
        rk = {v: i for i, v in enumerate(sorted(self.vals))}
        for e in self.ev:
            if e["op"] == "call": e["rk"] = rk[e["rk"]]
            for p in e.get("pts", ()): p["mn"], p["mx"] = rk[p["mn"]], rk[p["mx"]]
        if self.s.aborted: self.log(op="fail", what="hang:" + str(self.s.aborted))
        if self.s.errors: self.log(op="fail", what="died:" + repr(self.s.errors))
        return {"id": tid, "cfg": self.c, "ev": self.ev, "seed": seed}

def rnd_value(r, style):
    while True:
        x = r.random()
        if x < 0.08: return r.choice([0, 0.0])
        if style == "wide":
            v = r.choice([lambda: math.ldexp(r.uniform(1, 2), r.randint(-1021, 1022)), lambda: math.ldexp(1.0, r.randint(-1022, 1023)), lambda: r.choice([5e-324, 1e-310, MINN, 1.7976931348623157e308]),
                          lambda: r.uniform(0, 10), lambda: r.randint(1, 10**6)])()
        elif style == "near": v = r.uniform(1, 1.3)
        elif style == "pow": v = 2.0 ** r.randint(-8, 8) if r.random() < 0.5 else 4 ** r.randint(0, 6)
        else: v = math.exp(r.gauss(r.choice([0, 0, 3, -3]), r.choice([0.1, 1, 3])))
        ix = index20(float(v))
        if ix is None or near_coarse(float(v), ix): continue
        return -v if r.random() < 0.3 else v

def sequential(seed):
    r = random.Random(seed * 3 + 1); s = vt.Sched(seed, strategy="seq", early_timer=0.0); box = []
    c = {"size": r.choice([2, 3, 4, 5, 8, 16, 160, 160]), "maxscale": r.choice([20, 20, 20, 10, 3, 0, -3]), "rd": r.choice([["C", "D"], ["C"], ["D"], ["D", "C", "C"]])}
    style = r.choice(["wide", "near", "pow", "gauss"])
    def main():
        w = World(s, c, False); box.append(w)
        for _ in range(r.randint(2, 40)):
            if r.random() < 0.75: w.record(rnd_value(r, r.choice([style, style, "gauss"])), r.choice("aab"))
            else: w.collect(r.randint(1, len(w.rd)))
        for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return box[0].done(f"seq-{seed}", seed)

def concurrent(seed):
    r = random.Random(seed * 5 + 2); s = vt.Sched(seed, early_timer=0.0, tick=1); box = []
    c = {"size": r.choice([2, 3, 4, 8, 160]), "maxscale": r.choice([20, 4, 0]), "rd": r.choice([["C", "D"], ["C"], ["D"], ["D", "C"]])}
    def main():
        w = World(s, c, True); box.append(w); bits = list(range(28)); r.shuffle(bits)
        def rec(plan):
            for v, a in plan: w.record(v, a)
        def col(j, n):
            for _ in range(n): w.collect(j)
        th = [threading.Thread(target=rec, args=([(2 ** bits.pop(), r.choice("aab")) for _ in range(r.randint(1, 7))],)) for _ in range(r.choice([1, 2, 3]))]
        th += [threading.Thread(target=col, args=(j, r.randint(1, 3))) for j in range(1, len(w.rd) + 1)]
        r.shuffle(th)
        for t in th: t.start()
        for t in th: t.join()
        for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return box[0].done(f"conc-{seed}", seed)

def scripted(k, g):
    s = vt.Sched(1, strategy="seq", early_timer=0.0); box = []
    c = {**g["cfg"]}
    def main():
        w = World(s, c, False); box.append(w)
        for op in g["ops"]:
            if op["op"] == "rec": w.record(op["sg"] * 1.5 * 2.0 ** op["ix"], "a")
            else: w.collect(op["r"])
        for j in (1, 2): w.collect(j)
    s.run(main)
    return box[0].done(f"gen-{k}", 0)

tr = [scripted(k, g) for k, g in enumerate(JOB.get("scripts", []))]
for x in range(JOB.get("from", 0), JOB.get("to", 0)): tr.append((concurrent if JOB["mode"] == "conc" else sequential)(x))
finish(tr)
