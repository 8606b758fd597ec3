"""Prometheus scrapes: names, labels, values, overlapping scrapes, flushes and recordings (E04)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading, warnings; warnings.simplefilter("ignore")
from prometheus_client import REGISTRY, PROCESS_COLLECTOR, PLATFORM_COLLECTOR, GC_COLLECTOR, generate_latest
for x in (PROCESS_COLLECTOR, PLATFORM_COLLECTOR, GC_COLLECTOR): REGISTRY.unregister(x)
from opentelemetry.exporter.prometheus import PrometheusMetricReader
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.view import View, ExplicitBucketHistogramAggregation
from opentelemetry.sdk.resources import Resource
ASYNC = ["ocounter", "oudc", "ogauge"]
def encv(v):
    if isinstance(v, (list, tuple)): return ["a", [encv(x) for x in v]]
    if isinstance(v, bool): return ["b", str(v).lower()]
    if isinstance(v, str): return ["s", v]
    return ["i" if isinstance(v, int) else "d", repr(v)]
def enca(a): return [[k, encv(v)] for k, v in sorted((a or {}).items())]
def num(x): return int(x) if float(x) == int(x) and abs(x) < 2**31 else -2147483648 + 9
def le(x):
    try: return x if x == "+Inf" else str(int(float(x))) if float(x) == int(float(x)) else x
    except Exception: return "bad:" + str(x)
class Fixed:
    def __init__(self, fams): self.f = fams
    def collect(self): return self.f

NAMES = ["req.count", "req_count", "req-Count", "x/y", "dur", "c_total", "a1.2-3", "t_seconds", "a.b.c", "q_bytes_total", "z_per_second", "m1"]
UNITS = ["", "", "1", "s", "ms", "By", "{item}", "By/s", "m/s", "1/s", "{a}/s", "%", "widget", "a.b", "s/", "/s", "KiBy", "x{y}z", "__", "%x/%y", "by te", "m/y/s", "{a}b{c}", "}{"]
KEYS = ["k", "a.b", "a_b", "a-b", "1x", "9", "K", "x.y.z", "_p", "", "..", "__u", "a:b"]
def rnd_attrs(r, rich):
    if r.random() < .25: return r.choice([None, {}])
    v = (lambda: r.choice(["a", "b"])) if not rich else lambda: r.choice(["a", "b", "", "x y", 'q"', "é", "\n", 7, 2.5, True, False, ["p", "q"], [1, 2], [True]])
    return {k: v() for k in r.sample(KEYS if rich else KEYS[:3] + ["K"], r.choice([1, 1, 2, 3]))}
def rnd_cfg(r, conc):
    inst = []
    for nm in r.sample(NAMES, r.choice([1, 2, 3, 4])):
        k = r.choice(["counter", "udc", "hist", "gauge"] + ASYNC)
        inst.append({"k": k, "cname": nm, "nm": nm.lower(), "un": r.choice(UNITS), "ds": r.choice(["", "some text", "a|b", 'x"\n\\']), "bd": r.choice([[0, 5, 10], [5], [-5, 0, 5], []]) if k == "hist" else [], "m": r.choice(["s1", "s2"])})
    return {"inst": inst, "target": r.random() < .6, "res": enca(rr := {k: r.choice(["v", 3, ["a"]]) for k in r.sample(["service.name", "a.b", "a_b", "h"], r.choice([0, 1, 2, 3]))}), "conc": conc, "_res": rr}

class World:
    def __init__(self, s, c, r, obs=None):
        self.s, self.c, self.r, self.ev, self.n, self.cur, self.inst, self.obs = s, c, r, [], 0, {}, {}, obs
        self.reader = PrometheusMetricReader(disable_target_info=not c["target"])
        views = [View(instrument_name=d["cname"], aggregation=ExplicitBucketHistogramAggregation(boundaries=[float(b) if r.random() < .5 else b for b in d["bd"]])) for d in c["inst"] if d["k"] == "hist"]
        self.mp = MeterProvider([self.reader], resource=Resource(c["_res"]), views=views, shutdown_on_exit=False)
    def log(self, **k): self.ev.append(k)
    def create(self, i):
        d = self.c["inst"][i - 1]; m = self.mp.get_meter(d["m"]); k = d["k"]
        f = {"counter": m.create_counter, "udc": m.create_up_down_counter, "hist": m.create_histogram, "gauge": m.create_gauge, "ocounter": m.create_observable_counter, "oudc": m.create_observable_up_down_counter, "ogauge": m.create_observable_gauge}[k]
        self.inst[i] = f(d["cname"], unit=d["un"], description=d["ds"], **({"callbacks": [self.mkcb(i)]} if k in ASYNC else {}))
    def mkcb(self, i):
        def cb(options):
            r = self.r
            if self.obs is not None: obs = self.obs
            else:
                obs = []; seen = []
                if r.random() < .1: self.s.sleep(0.01)
                for _ in range(r.choice([0, 1, 1, 2])):
                    a = rnd_attrs(r, not self.c["conc"]) or {}
                    if enca(a) not in seen: seen.append(enca(a)); obs.append((a, r.randint(0, 50)))
            u = {}
            for a, v in obs: u[frozenset((k, tuple(v) if isinstance(v, list) else v) for k, v in a.items())] = (a, v)      # equal sets would be added up
            obs = list(u.values())
            self.log(op="cb", sid=self.cur.get(threading.get_ident(), "none"), i=i, obs=[[enca(a), v] for a, v in obs])
            return [Observation(v, a) for a, v in obs]
        return cb
    def record(self, i, v, a):
        self.n += 1; m = f"m{self.n}"; k = self.c["inst"][i - 1]["k"]; err = ""
        self.log(op="call", id=m, i=i, v=v, a=enca(a))
        try: getattr(self.inst[i], {"counter": "add", "udc": "add", "hist": "record", "gauge": "set"}[k])(float(v) if self.r.random() < .4 else v, a)
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="ret", id=m, err=err)
    def scrape(self):
        self.n += 1; sid = f"s{self.n}"; self.cur[threading.get_ident()] = sid
        self.log(op="scall", sid=sid); err = text = ""; fams = []
        try: fams = list(REGISTRY.collect())
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        try: generate_latest(Fixed(fams))
        except vt.Killed: raise
        except BaseException as ex: text = repr(ex)
        self.log(op="sret", sid=sid, err=err, text=text, fams=[{"name": f.name, "type": f.type, "doc": f.documentation, "unit": f.unit,
            "samples": [[x.name, sorted([k, le(v) if k == "le" else v] for k, v in x.labels.items()), num(x.value)] for x in f.samples]} for f in fams])
        self.cur.pop(threading.get_ident(), None)
    def flush(self):
        self.n += 1; sid = f"f{self.n}"; self.cur[threading.get_ident()] = sid
        self.log(op="fcall", sid=sid); err = ""
        try: self.mp.force_flush() if self.r.random() < .5 else self.reader.collect()
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="fret", sid=sid, err=err); self.cur.pop(threading.get_ident(), None)
    def down(self):
        err = ""
        try: self.mp.shutdown()
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        self.log(op="downret", err=err)

def done(tid, c, w, s, seed):
    if s.aborted: w.log(op="fail", what="hang:" + str(s.aborted))
    if s.errors: w.log(op="fail", what="died:" + repr(s.errors))
    try: REGISTRY.unregister(w.reader._collector)
    except KeyError: pass
    return {"id": tid, "cfg": {k: v for k, v in c.items() if k[0] != "_"}, "ev": w.ev, "seed": seed}
def scripted(k, g):
    c = dict(g["cfg"]); c["_res"] = {a: v[1] for a, v in c["res"]}
    c["inst"] = [dict(d, cname=d["nm"], m="s") for d in c["inst"]]
    s = vt.Sched(1, strategy="seq", early_timer=0.0); box = []
    plain = lambda a: {k: v[1] for k, v in a}
    def main():
        w = World(s, c, random.Random(k), []); box.append(w)
        for i in range(1, len(c["inst"]) + 1): w.create(i)
        for o in g["ops"]:
            if o["op"] == "rec": w.record(o["i"], o["v"], plain(o["a"]))
            elif o["op"] == "obs": w.obs = [x for x in w.obs if x[0] != plain(o["a"])] + [(plain(o["a"]), o["v"])]
            elif o["op"] == "flush": w.flush()
            else: w.scrape()
        w.scrape(); w.scrape()
    s.run(main)
    return done(f"gen-{k}", c, box[0], s, k)
def sequential(seed):
    r = random.Random(seed * 7 + 3); c = rnd_cfg(r, False)
    s = vt.Sched(seed, strategy="seq", early_timer=0.0); box = []
    def main():
        w = World(s, c, r); box.append(w)
        for i in range(1, len(c["inst"]) + 1): w.create(i)
        sync = [i for i in w.inst if c["inst"][i - 1]["k"] not in ASYNC]
        at = [rnd_attrs(r, True) for _ in range(r.choice([1, 2, 4]))]
        for _ in range(r.randint(2, 14)):
            x = r.random()
            if x < .6 and sync: w.record(r.choice(sync), r.choice([0, 1, 5, 6, 10, 11, 100, -3]), r.choice(at))
            elif x < .7: w.flush()
            else: w.scrape()
        w.scrape()
        if r.random() < .2: w.down(); w.scrape()
    s.run(main)
    return done(f"seq-{seed}", c, box[0], s, seed)
def concurrent(seed):
    r = random.Random(seed * 11 + 5); c = rnd_cfg(r, True)
    s = vt.Sched(seed, early_timer=0.0, tick=r.choice([1, 1000])); box = []
    def main():
        w = World(s, c, r); box.append(w)
        for i in range(1, len(c["inst"]) + 1): w.create(i)
        sync = [i for i in w.inst if c["inst"][i - 1]["k"] not in ASYNC]
        at = [rnd_attrs(r, False) for _ in range(r.choice([1, 2, 3]))]
        def recorder(plan):
            for p in plan: w.record(*p)
        def scraper(n):
            for _ in range(n): w.scrape()
        def flusher(n):
            for _ in range(n): w.flush()
        th = []
        if sync:
            for _ in range(r.choice([0, 1, 2])): th.append(threading.Thread(target=recorder, args=([(r.choice(sync), r.choice([0, 1, 5, 6, 100]), r.choice(at)) for _ in range(r.randint(1, 6))],)))
        for _ in range(r.choice([1, 2, 2, 3])): th.append(threading.Thread(target=scraper, args=(r.choice([1, 2, 3]),)))
        for _ in range(r.choice([0, 0, 1])): th.append(threading.Thread(target=flusher, args=(r.choice([1, 2]),)))
        r.shuffle(th)
        for t in th: t.start()
        for t in th: t.join()
        w.scrape()
    s.run(main)
    return done(f"conc-{seed}", c, box[0], s, seed)
out = [scripted(k, g) for k, g in enumerate(JOB.get("scripts", []))]
for x in range(JOB.get("from", 0), JOB.get("to", 0)):
    out.append(concurrent(x) if JOB["mode"] == "conc" else sequential(x))
    if out[-1]["ev"] and out[-1]["ev"][-1]["op"] == "fail": break
finish(out)
