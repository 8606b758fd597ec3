"""Runs metric pipelines: views, sync and async instruments, several readers, racing threads
(M01, M02, M04, M05, M07)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider, AlwaysOffExemplarFilter, Counter, UpDownCounter, Histogram, ObservableCounter, ObservableGauge, ObservableUpDownCounter, TraceBasedExemplarFilter
from opentelemetry.sdk.metrics import _Gauge as Gauge
from opentelemetry.sdk.metrics.export import MetricReader, AggregationTemporality as AT, Sum, Gauge as GaugeData, Histogram as HistData, ExponentialHistogram as ExpData
from opentelemetry.sdk.metrics.view import View, SumAggregation, LastValueAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, DropAggregation, DefaultAggregation
from opentelemetry.sdk.metrics._internal.exceptions import MetricsTimeoutError
from opentelemetry.sdk.resources import Resource
from vals import enc, enckey
from math import inf

KINDS = ["counter", "udc", "hist", "gauge", "ocounter", "oudc", "ogauge"]
ASYNC = KINDS[4:]
CLS = {"counter": Counter, "udc": UpDownCounter, "hist": Histogram, "gauge": Gauge, "ocounter": ObservableCounter, "oudc": ObservableUpDownCounter, "ogauge": ObservableGauge}
DEFB = [0, 5, 10, 25, 50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 7500, 10000]
U = 4                                    # amounts and bounds are in quarters

def num(v, r=None):
    x = v / U
    if v % U == 0 and (r is None or r.random() < 0.7): return v // U
    return x
def encat(a):
    out = []
    for k, v in (a or {}).items():
        e = enc(v)
        if e[0] == "M": e = ["L"] + e[1:]
        out.append([k, e])
    return sorted(out)
def unit(x):
    y = x * U
    return int(y) if y == int(y) and abs(y) < 2**31 else -2147483648 + 7

def rnd_attrs(r, rich):
    if r.random() < 0.25: return r.choice([None, {}])
    d = {}
    for k in r.sample(["k1", "k2", "k3"], r.choice([1, 1, 2, 3])):
        d[k] = r.choice(["a", "b"] + (["a", 7, -1, -2, -1, -2, 2.5, True, ["x", "y"], ["x"], ""] if rich else []))
    return d

def rnd_agg(r, exp=False):
    a = r.choice(["sum", "last", "hist", "hist", "drop"] + ["exp", "exp"] * exp)
    return {"a": a, "bd": r.choice([[], [], [0, 8, 20], [4], [-8, 0, 8]]) if a == "hist" else [], "mm": r.random() < 0.8 if a == "hist" else True}
SYNC = KINDS[:4]
NOAGG = {"a": "", "bd": [], "mm": True}

def rnd_cfg(r, mode):
    sc = [{"nm": n, "ver": v, "url": u} for n, v, u in r.sample([("m1", "1", "u"), ("m1", "2", "u"), ("m1", "1", "v"), ("m2", "1", "u")], r.choice([1, 1, 2, 3]))]
    kinds = {"seq": ["counter", "udc", "gauge", "counter", "hist"], "hist": ["hist", "hist", "hist", "counter", "udc", "gauge"], "async": ASYNC * 2 + ["counter"], "views": KINDS,
             "time": KINDS, "idle": ["hist", "hist", "counter", "udc", "gauge"], "conc": ["counter", "udc", "hist", "hist", "gauge", "ocounter"], "aconc": ASYNC + ["counter"]}[mode]
    inst = []
    for i in range(r.randint(1, 5 if mode == "views" else 3)):
        k = r.choice(kinds)
        nm = r.choice(["alpha", "Beta", "gam.ma", "be-ta/x"]) + str(i)
        inst.append({"k": k, "cname": nm, "nm": nm.lower(), "un": f"u{i}" if r.random() < 0.8 else f"{i}By", "ds": r.choice(["", f"d{i}"]), "sc": r.randint(1, len(sc)),
                     "ad": r.choice([[], [], [2, 6], [0, 40]]) if k == "hist" else [], "ncb": r.choice([0, 1, 1, 2, 3]) if k in ASYNC else 0})
    exp = not any(x["k"] in ASYNC for x in inst)     # (exponential histograms of observations: nothing is promised)
    views = []
    if mode in ("views", "hist") or r.random() < 0.35:
        nodesc = False
        for j in range(r.choice([0, 1, 2, 3, 4] if mode == "views" else [0, 0, 1, 2])):
            w = {"type": r.choice(["", "", r.choice(KINDS), r.choice(inst)["k"]]), "name": r.choice(["", r.choice(inst)["nm"], r.choice(inst)["cname"], "*", "al*", "b?ta*", "*1", "nomatch"]),
                 "unit": r.choice(["", "", "", "u*", r.choice(inst)["un"], "u?"]), "mname": r.choice(["", "", "m1", "m2"]), "mver": r.choice(["", "", "", "1", "2"]), "murl": r.choice(["", "", "", "u", "v"])}
            if not any(w.values()): w["name"] = "*"
            w["given"] = w["name"]; w["name"] = w["name"].lower()      # as passed to View(); names are case-insensitive
            w["vname"] = r.choice(["", "", f"vn{j}"]) if not set("*?") & set(w["name"]) else ""
            w["vdesc"] = f"vd{j}"
            if not nodesc and r.random() < 0.3: w["vdesc"] = ""; nodesc = True
            w["all"] = r.random() < 0.4
            w["keys"] = [] if w["all"] else r.sample(["k1", "k2", "k3", "zz"], r.choice([0, 1, 1, 2]))
            g = rnd_agg(r, exp) if r.random() < (0.7 if mode in ("hist", "views") else 0.5 if mode == "time" else 0.3) else dict(NOAGG)
            w["agg"], w["bd"], w["mm"] = g["a"], g["bd"], g["mm"]
            views.append(w)
    rd = []
    for _ in range(r.choice([1, 2, 2, 3])):
        t = r.choice(["D", "D", "mix"] if mode == "idle" else ["C", "D", "mix"])
        rd.append({"tp": {k: r.choice("CD") if t == "mix" else t for k in KINDS},
                   "ag": {k: (rnd_agg(r, k in SYNC) if r.random() < (0.5 if mode == "idle" else 0.15 if mode in ("views", "hist", "time") else 0.03) else dict(NOAGG)) for k in KINDS}})
    return {"sc": sc, "inst": inst, "views": views, "rd": rd, "defb": [x * U for x in DEFB]}

SHARED = {}
def mkagg(g, share=None):
    """Aggregation objects are shared between views and readers, as applications do."""
    key = (g["a"], tuple(g["bd"]), g["mm"])
    if share is not None and key in share: return share[key]
    a = {"sum": SumAggregation, "last": LastValueAggregation, "drop": DropAggregation, "exp": ExponentialBucketHistogramAggregation, "": DefaultAggregation}.get(g["a"])
    x = a() if a else ExplicitBucketHistogramAggregation(boundaries=[num(b) for b in g["bd"]] or None, record_min_max=g["mm"])
    if share is not None: share[key] = x
    return x

class Reader(MetricReader):
    def __init__(self, *a):
        super().__init__(*a); self.got = {}
    def _receive_metrics(self, metrics_data, timeout_millis=10_000, **kw):
        self.got.setdefault(threading.get_ident(), []).append(metrics_data)
    def shutdown(self, timeout_millis=30_000, **kw): pass

class World:
    def __init__(self, s, c, r, conc=False):
        self.s, self.c, self.r, self.conc = s, c, r, conc
        self.ev = []; self.cid = 0; self.mid = 0; self.cur = {}; self.inst = {}
        share = {} if r.random() < 0.6 else None
        views = []
        for w in c["views"]:
            kw = dict(instrument_type=CLS.get(w["type"]), instrument_name=w.get("given", w["name"]) or None, instrument_unit=w["unit"] or None, meter_name=w["mname"] or None,
                      meter_version=w["mver"] or None, meter_schema_url=w["murl"] or None, name=w["vname"] or None, description=w["vdesc"] or None,
                      attribute_keys=None if w["all"] else set(w["keys"]))
            if w["agg"]: kw["aggregation"] = mkagg({"a": w["agg"], "bd": w["bd"], "mm": w["mm"]}, share)
            views.append(View(**kw))
        TP = {"C": AT.CUMULATIVE, "D": AT.DELTA}
        self.rd = [Reader({CLS[k]: TP[t] for k, t in x["tp"].items()}, {CLS[k]: mkagg(g, share) for k, g in x["ag"].items() if g["a"]}) for x in c["rd"]]
        self.res = Resource({"r": "1"})
        self.mp = MeterProvider(self.rd, resource=self.res, views=views, shutdown_on_exit=False, exemplar_filter=r.choice([AlwaysOffExemplarFilter(), TraceBasedExemplarFilter(), None]))
    def log(self, **kw): self.ev.append(kw)
    def create(self, i):
        d = self.c["inst"][i - 1]; sc = self.c["sc"][d["sc"] - 1]
        m = self.mp.get_meter(sc["nm"], sc["ver"], sc["url"])
        k = d["k"]; err = ""
        try:
            if k in ASYNC:
                f = {"ocounter": m.create_observable_counter, "oudc": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[k]
                x = f(d["cname"], callbacks=[self.mkcb(i, b) for b in range(1, d["ncb"] + 1)], unit=d["un"], description=d["ds"])
            elif k == "hist":
                x = m.create_histogram(d["cname"], unit=d["un"], description=d["ds"], **({"explicit_bucket_boundaries_advisory": [num(b) for b in d["ad"]]} if d["ad"] else {}))
            else:
                x = {"counter": m.create_counter, "udc": m.create_up_down_counter, "gauge": m.create_gauge}[k](d["cname"], unit=d["un"], description=d["ds"])
            self.inst[i] = x
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="made", i=i, err=err)
    def mkcb(self, i, b):
        r = self.r; w = self
        kind = r.choice(["list", "list", "gen", "genobj", "tuple"])
        def plan():
            q = w.script_obs.pop(0) if w.script_obs else None
            if q is not None: return [(dict(a), v) for a, v in q], False
            if r.random() < 0.06: w.s.sleep(r.choice([0.1, 3]))
            n = r.choice([0, 1, 1, 2, 3])
            return [(rnd_attrs(r, True), r.randint(-20, 200)) for _ in range(n)], r.random() < 0.12
        def rec(obs):
            w.log(op="cb", cid=w.cur.get(threading.get_ident(), "none"), i=i, b=b, obs=[[encat(a), v] for a, v in obs])
        def mk(a, v): return Observation(num(v, r), a)
        if kind in ("list", "tuple"):
            def cb(options):
                obs, bad = plan()
                if bad: rec([]); raise RuntimeError("callback")
                rec(obs)
                return (list if kind == "list" else tuple)(mk(a, v) for a, v in obs)
            return cb
        if kind == "gen":
            def cb(options):
                obs, bad = plan()
                if bad: obs = obs[: r.randint(0, len(obs))]
                rec(obs)
                for a, v in obs: yield mk(a, v)
                if bad: raise RuntimeError("callback")
            return cb
        def g():
            options = yield
            while True:
                obs, bad = plan(); rec(obs)
                options = yield [mk(a, v) for a, v in obs]
        return g()
    def record(self, i, v, a, fancy=True):
        self.mid += 1; m = str(self.mid); k = self.c["inst"][i - 1]["k"]; r = self.r
        if isinstance(a, dict):
            items = list(a.items()); r.shuffle(items); a = {k: list(v) if isinstance(v, list) else v for k, v in items}
        self.log(op="call", id=m, i=i, v=v, a=encat(a))
        err = ""
        try:
            x = self.inst[i]
            f = {"counter": "add", "udc": "add", "hist": "record", "gauge": "set"}[k]
            getattr(x, f)(num(v, r), a)
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="ret", id=m, err=err)
        if isinstance(a, dict) and fancy and r.random() < 0.5:
            a["k1"] = "spoiled"; a["spoiled"] = "x"
            for y in a.values():
                if isinstance(y, list): y.append("spoiled")
    def collect(self, ri, timeout=10_000):
        self.cid += 1; cid = str(self.cid); rd = self.rd[ri - 1]; me = threading.get_ident()
        self.cur[me] = cid
        t0 = self.s.now
        self.log(op="ccall", cid=cid, r=ri, t=t0)
        err = ""; rd.got[me] = []
        try: rd.collect(timeout_millis=timeout)
        except vt.Killed: raise
        except MetricsTimeoutError: err = "timeout"
        except BaseException as ex: err = repr(ex)
        t1 = self.s.now
        data = rd.got[me]; pts = []; sg = []; res = len(data) <= 1
        for md in data:
            if len(md.resource_metrics) != 1: res = False
            for rm in md.resource_metrics:
                if rm.resource != self.res or rm.schema_url != self.res.schema_url: res = False
                for sm in rm.scope_metrics:
                    sc = 0
                    for j, x in enumerate(self.c["sc"], 1):
                        if (sm.scope.name, sm.scope.version, sm.scope.schema_url) == (x["nm"], x["ver"], x["url"]): sc = j
                    if sm.schema_url != sm.scope.schema_url: res = False
                    sg.append(sc)
                    for m in sm.metrics:
                        d = m.data
                        kd = {Sum: "sum", GaugeData: "gauge", HistData: "hist", ExpData: "exp"}.get(type(d), "?")
                        if not d.data_points: res = False
                        for p in d.data_points:
                            q = {"sc": sc, "nm": m.name, "ds": m.description or "", "un": m.unit, "kd": kd, "tp": {AT.CUMULATIVE: "C", AT.DELTA: "D"}.get(getattr(d, "aggregation_temporality", None), ""),
                                 "mo": bool(getattr(d, "is_monotonic", False)), "at": encat(p.attributes), "st": -1 if p.start_time_unix_nano is None else p.start_time_unix_nano,
                                 "et": p.time_unix_nano, "v": unit(p.sum if kd in ("hist", "exp") else p.value), "bk": [], "bd": [], "cnt": 0, "hm": True, "mn": 0, "mx": 0}
                            if kd == "hist":
                                q["bk"] = list(p.bucket_counts); q["bd"] = [unit(b) for b in p.explicit_bounds]; q["cnt"] = p.count
                            if kd == "exp": q["cnt"] = p.count
                            if kd in ("hist", "exp"):
                                q["hm"] = not (p.min == inf and p.max == -inf)
                                if q["hm"]: q["mn"], q["mx"] = unit(p.min), unit(p.max)
                            pts.append(q)
        self.log(op="cret", cid=cid, err=err, slow=(t1 - t0) >= timeout * 1e6, pts=pts, sg=sg, res=res, t=t1)
        return err

def ranks(ev):
    ts = set()
    for e in ev:
        if "t" in e: ts.add(e["t"])
        for p in e.get("pts", ()): ts.add(p["st"]); ts.add(p["et"])
    ts.discard(-1)
    m = {t: i for i, t in enumerate(sorted(ts))}; m[-1] = -1
    for e in ev:
        if "t" in e: e["t"] = m[e["t"]]
        for p in e.get("pts", ()): p["st"] = m[p["st"]]; p["et"] = m[p["et"]]
    return ev

def reorder(ev):
    """Collections of one reader are serialised by the SDK but may return in another order: delay the
    results of those that collected later (by end time), and of overlapping ones without any points."""
    call = {e["cid"]: (n, e["r"]) for n, e in enumerate(ev) if e["op"] == "ccall"}
    key = {n: (n, 0) for n in range(len(ev))}
    for r in {x[1] for x in call.values()}:
        idx = [n for n, e in enumerate(ev) if e["op"] == "cret" and call[e["cid"]][1] == r and not e["err"]]
        full = sorted((n for n in idx if ev[n]["pts"]), key=lambda n: ev[n]["pts"][0]["et"]); top = -1
        for j, n in enumerate(full):
            top = max(top, n); key[n] = (top, j + 1)
        for n in idx:
            if not ev[n]["pts"]: key[n] = max([(n, 0)] + [(key[m][0], key[m][1] + 0.5) for m in full if call[ev[m]["cid"]][0] < n])
    return [ev[n] for n in sorted(range(len(ev)), key=lambda n: key[n])]

def finish_trace(tid, c, w, s, seed=None):
    if s.aborted: w.log(op="fail", what="hang:" + str(s.aborted))
    if s.errors: w.log(op="fail", what="died:" + repr(s.errors))
    t = {"id": tid, "cfg": c, "ev": reorder(ranks(w.ev))}
    if seed is not None: t["seed"] = seed
    return t

def sequential(seed, mode):
    r = random.Random(seed * 7 + 1); c = rnd_cfg(r, mode)
    s = vt.Sched(seed, strategy="seq", early_timer=0.0, tick=r.choice([0, 1, 1000]))
    box = []
    def main():
        w = World(s, c, r); box.append(w); w.script_obs = []
        n = len(c["inst"]); todo = list(range(1, n + 1)); r.shuffle(todo)
        for _ in range(r.choice([1, n])): 
            if todo: w.create(todo.pop())
        vals = r.choice([[1, 4, 8, 9], list(range(-12, 60)), [-4, 0, 20, 21, 19, 40, 100, 30000, 40000, 40001, 2]])
        rich = r.random() < 0.6
        rounds = r.randint(2, 4) if mode == "idle" else 0      # few attribute sets over many collections, most of them with nothing new
        some = [rnd_attrs(r, False) for _ in range(2 if rounds else 0)]
        while rounds and todo: w.create(todo.pop())
        for _ in range(rounds):
            for i in r.sample(list(w.inst), r.randint(1, len(w.inst))):
                for _ in range(r.choice([1, 1, 2])): w.record(i, r.choice(vals), r.choice(some), False)
            for _ in range(r.choice([1, 2, 2, 3])):
                s.advance(r.choice([1, 10**6]))
                for j in range(1, len(w.rd) + 1):
                    if r.random() < 0.8: w.collect(j)
        for _ in range(0 if rounds else r.randint(3, 22)):
            x = r.random()
            if x < 0.08 and todo: w.create(todo.pop())
            elif x < 0.72:
                i = r.choice(list(w.inst))
                if c["inst"][i - 1]["k"] in ASYNC: 
                    if r.random() < 0.5: continue
                    w.collect(r.randint(1, len(w.rd)))
                    continue
                w.record(i, r.choice(vals), rnd_attrs(r, rich))
            elif x < 0.95: w.collect(r.randint(1, len(w.rd)), r.choice([10_000, 10_000, 10_000, 1000, 90]))
            else: s.advance(r.choice([0, 1, 10**9]))
            if r.random() < 0.2: s.advance(r.choice([1, 10**6]))
        for j in range(1, len(w.rd) + 1): w.collect(j)
        for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return finish_trace(f"{mode}-{seed}", c, box[0], s, seed)

def concurrent(seed, mode):
    r = random.Random(seed * 13 + 5); c = rnd_cfg(r, mode)
    for w in c["views"]: w["agg"] = "" if w["agg"] == "last" else w["agg"]
    s = vt.Sched(seed, early_timer=0.0, tick=r.choice([1, 1000]))
    box = []
    def main():
        w = World(s, c, r, True); box.append(w); w.script_obs = []
        n = len(c["inst"])
        for i in range(1, n + 1): w.create(i)
        sync = [i for i in range(1, n + 1) if c["inst"][i - 1]["k"] not in ASYNC]
        bits = list(range(29)); r.shuffle(bits)
        at = [rnd_attrs(r, False) for _ in range(r.choice([1, 2, 3]))]
        def recorder(plan):
            for i, v, a in plan: w.record(i, v, a, False)
        def collector(plan):
            for x in plan: w.collect(x)
        th = []
        for _ in range(r.choice([1, 2, 2, 3])):
            plan = [(r.choice(sync), 2 ** bits.pop(), r.choice(at)) for _ in range(r.randint(1, 6)) if sync]
            th.append(threading.Thread(target=recorder, args=(plan,)))
        for _ in range(r.choice([1, 1, 2]) + (mode == "aconc")):
            th.append(threading.Thread(target=collector, args=([r.randint(1, len(w.rd)) for _ in range(r.randint(1, 4))],)))
        r.shuffle(th)
        for t in th: t.start()
        for t in th: t.join()
        for _ in range(2):
            for j in range(1, len(w.rd) + 1): w.collect(j)
    s.run(main)
    return finish_trace(f"{mode}-{seed}", c, box[0], s, seed)

def scripted(k, g):
    c = g["cfg"]; r = random.Random(k)
    s = vt.Sched(1, strategy="seq", early_timer=0.0)
    box = []
    def main():
        w = World(s, c, r); box.append(w); w.script_obs = []
        plain = lambda a: {k: v[0][2:] for k, v in a}
        for i in range(1, len(c["inst"]) + 1): w.create(i)
        for op in g["ops"]:
            if op["op"] == "rec": w.record(op["i"], op["v"], plain(op["a"]))
            else:                                        # every first callback observes obs, the others nothing
                w.script_obs = [q for x in c["inst"] if x["k"] in ASYNC for q in [[(plain(a), v) for a, v in op["obs"]]] + [[]] * (x["ncb"] - 1)]
                w.collect(op["r"])
        for j in range(1, len(w.rd) + 1): w.script_obs = [[]] * 20; w.collect(j)
    s.run(main)
    return finish_trace(f"gen-{k}", c, box[0], s)

traces = [scripted(k, g) for k, g in enumerate(JOB.get("scripts", []))]
for x in range(JOB.get("from", 0), JOB.get("to", 0)):
    traces.append(concurrent(x, JOB["mode"]) if JOB["mode"] in ("conc", "aconc") else sequential(x, JOB["mode"]))
finish(traces)
