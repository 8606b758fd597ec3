"""Composite and global propagation (P06)."""
from common import JOB, finish
import logging; logging.disable(50)
import json, os, random, subprocess, sys, threading
from opentelemetry import context as C, propagate
from opentelemetry.context.context import Context
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.propagators.textmap import TextMapPropagator, DefaultGetter, DefaultSetter, default_getter, default_setter
calls = []; expect = {}
class G(DefaultGetter): pass
class S(DefaultSetter): pass
class Leaf(TextMapPropagator):
    def __init__(self, p): self.p = p
    def inject(self, carrier, context=None, setter=default_setter):
        calls.append(self.p["id"]); expect["args"] &= carrier is expect["carrier"] and context is expect["context"] and setter is expect["setter"]
        for k, v in self.p["w"]: setter.set(carrier, k, v)
    def extract(self, carrier, context=None, getter=default_getter):
        calls.append(self.p["id"]); expect["args"] &= carrier is expect["carrier"] and getter is expect["getter"]
        c = Context() if context is None else context
        for k, v in self.p["s"]: c = C.set_value(k, v, c)
        return c
    @property
    def fields(self): return set(self.p["f"])
def build(p): return Leaf(p) if p["k"] == "leaf" else CompositePropagator([build(x) for x in p["of"]] if len(p["of"]) % 2 else tuple(build(x) for x in p["of"]))
def rand_leaf(r, i):
    w = [[r.choice("abcd"), r.randint(1, 9)] for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return {"k": "leaf", "id": i, "w": w, "f": sorted({k for k, _ in w} | set(r.sample("abxyz", r.choice([0, 0, 1])))), "s": [[r.choice("uvw"), r.randint(1, 9)] for _ in range(r.choice([0, 1, 2]))]}
def rand_tree(r, d, n):
    if d == 0 or r.random() < 0.4: n[0] += 1; return rand_leaf(r, n[0])
    return {"k": "comp", "of": [rand_tree(r, d - 1, n) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]}
def inj(ev, r, p, prop, api):
    carrier = {"a": 0, "q": 0} if r.random() < 0.5 else {}; before = [list(x) for x in carrier.items()]; calls.clear(); st = r.choice([default_setter, S()]); ctx = r.choice([None, Context(), C.set_value("u", 5, Context())])
    expect.update(args=True, carrier=carrier, context=ctx, setter=st); bad = False
    try:
        f = propagate.inject if api else prop.inject
        if st is default_setter and r.random() < 0.5: f(carrier, ctx)
        elif r.random() < 0.5: f(carrier, setter=st, context=ctx)
        else: f(carrier, ctx, st)
    except Exception: bad = True
    ev.append({"op": "inj", "p": p, "raised": bad, "calls": list(calls), "before": before, "got": [list(x) for x in carrier.items()], "args": expect["args"]})
def ext(ev, r, p, prop, api):
    carrier = {"a": "1"}; calls.clear(); g = r.choice([default_getter, G()]); none = r.random() < 0.3; ctx = None if none else C.set_value("q", 7, C.set_value("u", 5, Context()) if r.random() < 0.5 else Context())
    expect.update(args=True, carrier=carrier, getter=g); bad = False; got = None
    try:
        f = propagate.extract if api else prop.extract
        got = f(carrier, ctx) if g is default_getter and r.random() < 0.5 else f(carrier, context=ctx, getter=g)
    except Exception: bad = True
    ev.append({"op": "ext", "p": p, "none": none, "raised": bad, "calls": list(calls), "before": [list(x) for x in (ctx or {}).items()], "got": [list(x) for x in got.items()] if isinstance(got, dict) else [], "iscontext": isinstance(got, Context), "args": expect["args"]})
def use(ev, r, p, op=None):
    prop = build(p); ops = [op] if op else r.choices(["inj", "ext", "fields"], k=4)
    for o in ops:
        if o == "inj": inj(ev, r, p, prop, False)
        elif o == "ext": ext(ev, r, p, prop, False)
        else: ev.append({"op": "fields", "p": p, "got": list(prop.fields)})
def glob(ev, r):
    orig = propagate.get_global_textmap(); ids = {}
    ev.append({"op": "global", "got": 0})
    for i in range(1, r.randint(2, 5)):
        p = rand_tree(r, 1, [0]); p = p if p["k"] == "comp" else {"k": "comp", "of": [p]}; prop = build(p); ids[id(prop)] = i
        if r.random() < 0.3: t = threading.Thread(target=propagate.set_global_textmap, args=(prop,)); t.start(); t.join()
        else: propagate.set_global_textmap(prop)
        ev.append({"op": "setglobal", "id": i}); got = []
        t = threading.Thread(target=lambda: got.append(propagate.get_global_textmap())); t.start(); t.join(); got.append(propagate.get_global_textmap())
        for g in got: ev.append({"op": "global", "got": ids.get(id(g), -1)})
        inj(ev, r, p, prop, True); ext(ev, r, p, prop, True)
    propagate.set_global_textmap(orig)
ENVPROG = r'''
import json, sys, logging; logging.disable(50)
res = {"error": "", "keys": [], "fields": [], "span": False, "bag": False, "iscontext": True}
try:
    from opentelemetry import propagate
except BaseException as ex: res["error"] = type(ex).__name__
else:
    from opentelemetry import trace, baggage
    from opentelemetry.context.context import Context
    c = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(5, 6, False, trace.TraceFlags(1), trace.TraceState([("a", "b")]))), Context())
    c = baggage.set_baggage("k", "v", c); car = {}; propagate.inject(car, c)
    res["keys"] = list(car); res["fields"] = sorted(propagate.get_global_textmap().fields)
    full = {"traceparent": "00-" + "a" * 32 + "-" + "b" * 16 + "-01", "baggage": "k=v", "b3": "a" * 32 + "-" + "b" * 16, "x-b3-traceid": "a" * 32, "x-b3-spanid": "b" * 16, "uber-trace-id": "a:b:0:1", "uberctx-k": "v"}
    got = propagate.extract(full); res["iscontext"] = isinstance(got, Context)
    if res["iscontext"]:
        res["span"] = trace.get_current_span(got).get_span_context().is_valid; res["bag"] = baggage.get_baggage("k", got) == "v"
print("RES " + json.dumps(res))
'''
def env(ev, setting):
    e = {k: v for k, v in os.environ.items() if k != "OTEL_PROPAGATORS"}
    if setting is not None: e["OTEL_PROPAGATORS"] = setting
    p = subprocess.run([sys.executable, "-c", ENVPROG], env=e, capture_output=True, text=True, timeout=120)
    l = [x for x in p.stdout.splitlines() if x.startswith("RES ")]
    if not l: ev.append({"op": "fail", "what": "environment-run"}); return
    ev.append({"op": "env", "unset": setting is None, "names": [x.strip() if x.strip().lower() != "none" else "none" for x in (setting or "").split(",")], "setting": setting or "", **json.loads(l[0][4:])})
out = []
for i, sc in enumerate(JOB.get("scripts", [])):
    ev = []
    for j, op in enumerate(sc["ops"]): use(ev, random.Random(i * 5 + j), op["p"], op["op"]); use(ev, random.Random(i), op["p"], "fields")
    out.append({"id": f"s{i}", "cfg": sc["cfg"], "ev": ev})
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    r = random.Random(seed * 13 + 5); ev = []
    if seed % 4 == 0: glob(ev, r)
    else: use(ev, r, rand_tree(r, 3, [0]))
    out.append({"id": f"r{seed}", "cfg": {"x": 0}, "ev": ev, "seed": seed})
NAMES = ["tracecontext", "baggage", "b3", "b3multi", "jaeger"]
for seed in range(JOB.get("efrom", 0), JOB.get("eto", 0)):
    r = random.Random(seed); ev = []; i = seed % 100000
    fixed = [None, "none", "tracecontext", "baggage", "b3multi, jaeger", " baggage ,tracecontext", "nosuch", "tracecontext,nosuch", "b3,b3", "none,", "tracecontext,,baggage", "NONE", " None "]
    if i < len(fixed): s = fixed[i]
    else: s = r.choice([",", ", ", " ,"]).join(r.choice(NAMES) if r.random() < 0.93 else r.choice(["Tracecontext", "w3c", "b3 multi", "xray"]) for _ in range(r.randint(1, 5)))
    env(ev, s); out.append({"id": f"e{seed}", "cfg": {"x": 0}, "ev": ev})
finish(out)
