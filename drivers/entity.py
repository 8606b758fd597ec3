"""Identity of instruments, meters, loggers and tracers (M06)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider, Counter, UpDownCounter, Histogram, ObservableCounter, ObservableUpDownCounter, ObservableGauge
from opentelemetry.sdk.metrics import _Gauge as Gauge
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk._logs import LoggerProvider
from opentelemetry.sdk.resources import Resource
KINDS = ["counter", "udc", "hist", "gauge", "ocounter", "oudc", "ogauge"]
MRO = [(Counter, "counter"), (UpDownCounter, "udc"), (Histogram, "hist"), (Gauge, "gauge"), (ObservableCounter, "ocounter"), (ObservableUpDownCounter, "oudc"), (ObservableGauge, "ogauge")]
cp = lambda x: [ord(c) for c in x]
st = lambda x: "".join(map(chr, x))
def enc(x): return "N" if x is None else "s:" + x
def encat(a):
    if not a: return "N" if a is None else "A"
    return "A" + repr(sorted((k, repr(tuple(v) if isinstance(v, list) else v)) for k, v in a.items()))
class World:
    def __init__(self, s):
        self.s = s; self.ev = []; self.ids = {}; self.keep = []; self.vals = {}
        self.rd = InMemoryMetricReader(); res = Resource({})
        self.mp = MeterProvider([self.rd], resource=res, shutdown_on_exit=False)
        self.tp = TracerProvider(resource=res, shutdown_on_exit=False); self.lp = LoggerProvider(resource=res, shutdown_on_exit=False)
        self.scopes = []     # meters by number
    def oid(self, x):
        self.keep.append(x)
        return self.ids.setdefault(id(x), len(self.ids) + 1)
    def log(self, **k): self.ev.append(k)
    def get(self, p, nm, ver, url, at):
        x = None; err = ""
        try: x = {"m": self.mp.get_meter, "l": self.lp.get_logger, "t": self.tp.get_tracer}[p](nm, ver, url, at)
        except vt.Killed: raise
        except BaseException as ex: err = repr(ex)
        sc = getattr(x, "_instrumentation_scope", None)
        ver2 = "" if p == "t" and ver is None else ver
        seen = ["?"] if sc is None else [sc.name, enc(sc.version), enc(sc.schema_url), encat(dict(sc.attributes))]
        # in the scope itself an absent schema URL is empty and absent attributes are none
        want_url = url or ""; want_at = at or {}
        self.log(op="gm", p=p, nm=nm, ver=enc(ver2), url=enc(want_url), at="N" if at is None and p == "l" else encat(want_at), id=self.oid(x) if x is not None else 0, sc=seen[:3] + [("N" if at is None and p == "l" and seen[3:] == ["A"] else x3) for x3 in seen[3:]], err=err)
        return x
    def mk(self, mi, meter, k, nm, un, ds, shape="kw"):
        x = None; err = ""
        key = (mi, k, nm.lower(), un, ds)
        v = self.vals.setdefault(key, len(self.vals) + 1)
        f = getattr(meter, {"counter": "create_counter", "udc": "create_up_down_counter", "hist": "create_histogram", "gauge": "create_gauge", "ocounter": "create_observable_counter",
                            "oudc": "create_observable_up_down_counter", "ogauge": "create_observable_gauge"}[k])
        kw = {"callbacks": [lambda o, v=v: [Observation(v)]]} if k[0] == "o" else {}
        try: x = f(nm, unit=un, description=ds, **kw)
        except vt.Killed: raise
        except BaseException as ex: err = type(ex).__name__
        kind = next((n for c, n in MRO if isinstance(x, c)), "?")
        self.log(op="mk", m=mi, k=k, nm=cp(nm), un=cp(un), ds=ds, v=v, id=self.oid(x) if x is not None else 0, err=err,
                 pub=[cp(getattr(x, "name", "?")), cp(getattr(x, "unit", "?")), getattr(x, "description", "?"), kind] if x is not None else [])
        return x
    def add(self, x, k, v):
        # the event first: additions commute, and no collection is under way
        self.log(op="add", id=self.oid(x), k=k, v=7 if k == "gauge" else v)
        {"counter": lambda: x.add(v), "udc": lambda: x.add(v), "hist": lambda: x.record(v), "gauge": lambda: x.set(7)}[k]()
    def dump(self):
        rows = []; num = {id(m._instrumentation_scope): i + 1 for i, m in enumerate(self.scopes)}
        md = self.rd.get_metrics_data()
        for rm in (md.resource_metrics if md else []):
            for sm in rm.scope_metrics:
                mi = next((i + 1 for i, m in enumerate(self.scopes) if m._instrumentation_scope == sm.scope), 0)
                for m in sm.metrics:
                    t = type(m.data).__name__
                    t = {"Sum": "sum+" if getattr(m.data, "is_monotonic", 0) else "sum", "Histogram": "hist", "Gauge": "gauge"}.get(t, t)
                    for p in m.data.data_points:
                        rows.append({"m": mi, "nm": cp(m.name), "un": cp(m.unit), "ds": m.description, "t": t, "v": p.sum if t == "hist" else p.value})
        self.log(op="dump", rows=rows)
    def done(self, tid, seed):
        if self.s.aborted: self.log(op="fail", what="hang:" + str(self.s.aborted))
        if self.s.errors: self.log(op="fail", what="died:" + repr(self.s.errors))
        return {"id": tid, "cfg": {"x": 0}, "ev": self.ev, "seed": seed}
L = "abcxyzABCXYZ"
def name(r):
    b = r.choice(L) + "".join(r.choice(L + "0129-_./") for _ in range(r.choice([0, 1, 3, 8])))
    x = r.random()
    if x < 0.45: return r.choice(["req", "Req", "REQ", "req.s", "r-q", "a", "A"])
    if x < 0.7: return b
    return r.choice(["", " ", b + " ", " " + b, b + "\n", "req ", "\treq", "1" + b, "_" + b, "." + b, "-a", "/", b + ",", b + "é", "é" + b, b + "\u0661", "a" * 254, "A" * 255, "b" * 256, "b" * 300, b + "\x00", "a b", "a+b", "a:b", "a\\b", "a" + "\u212a", b + "@", "a[", "a`", "Z{"])
def unit(r):
    x = r.random()
    if x < 0.6: return r.choice(["", "s", "By", "ms,", "1"])
    return r.choice(["a" * 62, "a" * 63, "a" * 64, "é", "{x}", "\x7f", "\x80", "\n", "a\x00", "µs", "S", " ", "%", "\u0661"])
DESC = ["", "d", "D", ",", "s,d", "é", "a\nb", "('x',)"]
def scopes(r):
    return [(r.choice(["lib", "Lib", "lib2"]), r.choice([None, "", "1"]), r.choice([None, "", "http://u", "http://v"]), r.choice([None, None, {}, {"a": 1}, {"a": 2}, {"a": [1, 2]}, {"a": "1"}])) for _ in range(r.choice([2, 3, 5]))]
def sequential(seed):
    r = random.Random(seed * 11 + 3); s = vt.Sched(seed, strategy="seq", early_timer=0.0); box = []
    def main():
        w = World(s); box.append(w); pool = scopes(r); made = []
        nms = [name(r) for _ in range(3)]; uns = [unit(r) for _ in range(2)]; dss = r.sample(DESC, 2)
        if r.random() < 0.4: nms += [nms[0].swapcase(), " " + nms[0]]
        if r.random() < 0.3: uns += ["a,b", "a"]; dss += ["c", "b,c"]
        for _ in range(r.randint(5, 30)):
            x = r.random()
            if x < 0.35 or not w.scopes:
                p = r.choice("mmmlt"); sc = r.choice(pool)
                o = w.get(p, *sc)
                if p == "m" and o is not None and all(q is not o for q in w.scopes): w.scopes.append(o)
            elif x < 0.8:
                mi = r.randrange(len(w.scopes)); k = r.choice(KINDS)
                o = w.mk(mi + 1, w.scopes[mi], k, r.choice(nms) if r.random() < 0.8 else name(r), r.choice(uns), r.choice(dss))
                if o is not None and k[0] != "o": made.append((o, k))
            elif made:
                w.add(*r.choice(made), r.randint(1, 9))
        w.dump()
    s.run(main)
    return box[0].done(f"seq-{seed}", seed)
def concurrent(seed):
    r = random.Random(seed * 13 + 4); s = vt.Sched(seed, early_timer=0.0); box = []
    def main():
        w = World(s); box.append(w); pool = scopes(r)[:2]
        ident = [(r.choice(KINDS), r.choice(["req", "a/b", "x"]), r.choice(["", "s"]), r.choice(["", "d"])) for _ in range(r.choice([1, 1, 2]))]
        bad = r.random() < 0.3
        share = w.get("m", *pool[0]) if r.random() < 0.6 else None
        if share is not None: w.scopes.append(share)
        def go(plan):
            for x in plan:
                if x[0] == "get":
                    w.get(*x[1:])
                else:
                    m = share if share is not None else w.get("m", *pool[0])
                    if share is None and all(q is not m for q in w.scopes): w.scopes.append(m)
                    mi = next(i for i, q in enumerate(w.scopes) if q is m) + 1
                    o = w.mk(mi, m, *x[1:])
                    if o is not None and x[1][0] != "o":
                        w.add(o, x[1], 1)
        def plan():
            out = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.3: out.append(("get", r.choice("ml"), *r.choice(pool)))
                else:
                    k, n, u, d = r.choice(ident)
                    out.append(("mk", k, n if r.random() < 0.5 else n.upper(), "é" if bad and r.random() < 0.3 else u, d))
            return out
        th = [threading.Thread(target=go, args=(plan(),)) for _ in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.3 and all(x[0] != "gauge" for x in ident): th.append(threading.Thread(target=w.rd.collect))     # a gauge reports each value once
        for t in th: t.start()
        for t in th: t.join()
        w.dump()
    s.run(main)
    return box[0].done(f"conc-{seed}", seed)
def scripted(k, g):
    s = vt.Sched(1, strategy="seq", early_timer=0.0); box = []
    def main():
        w = World(s); box.append(w)
        for i in (1, 2): w.scopes.append(w.get("m", f"lib{i}", None, None, None))
        for op in g["ops"]:
            o = w.mk(op["m"], w.scopes[op["m"] - 1], op["k"], st(op["nm"]), st(op["un"]), op["ds"])
            if o is not None and op["k"] != "ocounter": w.add(o, op["k"], 1)
        w.dump()
    s.run(main)
    return box[0].done(f"gen-{k}", 0)
tr = [scripted(k, g) for k, g in enumerate(JOB.get("scripts", []))]
for x in range(JOB.get("from", 0), JOB.get("to", 0)): tr.append((concurrent if JOB["mode"] == "conc" else sequential)(x))
finish(tr)
