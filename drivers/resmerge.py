"""Merging, creating and detecting resources (R01); time is virtual."""
from common import JOB, finish
import sys, os, tempfile, types
EP = tempfile.mkdtemp(prefix="ep"); os.mkdir(EP + "/vfake-1.0.dist-info")
open(EP + "/vfake-1.0.dist-info/METADATA", "w").write("Metadata-Version: 2.1\nName: vfake\nVersion: 1.0\n")
open(EP + "/vfake-1.0.dist-info/entry_points.txt", "w").write("[opentelemetry_resource_detector]\n" + "".join(f"d{i} = vfakedet:d{i}\n" for i in range(1, 9)))
sys.path.insert(0, EP)
import vt; vt.install()
import gc; gc.disable()
import logging, random, threading, time
from vals import dec, enc, rnd_val
from opentelemetry.sdk import resources as R
def cod(s): return [ord(c) for c in s]
def st(l): return "".join(map(chr, l))
def vcod(v):
    t = enc(v); return cod(t[0]) if t[0] not in ("L", "M") else cod("|".join(t))
def pairs(m): return [[cod(k), vcod(v)] for k, v in m.items()]
def val(l):
    s = st(l); return tuple(dec([x])for x in s[2:].split("|")) if s[:2] == "L|" else () if s == "L" else dec([s])
def mk(x): return R.Resource({st(k): val(v) for k, v in x["m"]}, x["u"] or None)
def obs(r): return {"m": pairs(r.attributes), "u": r.schema_url}
class Errors(logging.Handler):
    n = 0
    def emit(self, record): Errors.n += record.levelno >= logging.ERROR
R.logger.addHandler(Errors()); R.logger.propagate = False; logging.getLogger("opentelemetry.attributes").disabled = True
class Boom(Exception): pass
class Det(R.ResourceDetector):
    def __init__(self, d): super().__init__(d["demand"]); self.d = d
    def detect(self):
        d = self.d
        if d["kind"] == "hang": threading.Event().wait()
        if d["dur"]: time.sleep(d["dur"] / 1000)
        if d["kind"] == "raise": raise Boom()
        return mk(d)
mod = types.ModuleType("vfakedet"); sys.modules["vfakedet"] = mod
DS = []
def entry(i):
    def make():
        if i > len(DS) or DS[i - 1]["kind"] == "missing": raise Boom("constructor")
        return Det(DS[i - 1])
    return make
for i in range(1, 9): setattr(mod, f"d{i}", entry(i))
def setenv(k, v): os.environ[k] = v if v else os.environ.pop(k, None) or ""
def one(op, r, state):
    o = dict(op)
    if op["op"] == "merge":
        a = state[0] if "a" not in op else mk(op["a"]); b = mk(op["b"]); o["a"], o["b"] = obs(a), obs(b); Errors.n = 0
        try: res = a.merge(b); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e)); return o
        o.update(r=obs(res), a2=obs(a), b2=obs(b), error=Errors.n > 0); state[0] = res; return o
    ds = op["ds"]; o["ds"] = ds; t0 = time.monotonic()
    if op["op"] == "create":
        o["timeout"] = 5000; DS[:] = ds; o["dflt"] = pairs({k: v for k, v in R._DEFAULT_RESOURCE.attributes.items()})
        for k in ("OTEL_RESOURCE_ATTRIBUTES", "OTEL_SERVICE_NAME", "OTEL_EXPERIMENTAL_RESOURCE_DETECTORS"): os.environ.pop(k, None)
        if op["env"] or r.random() < .3: os.environ["OTEL_RESOURCE_ATTRIBUTES"] = st(op["env"])
        if op["svc"] or r.random() < .3: os.environ["OTEL_SERVICE_NAME"] = st(op["svc"])
        names = [f"d{i}" if d["kind"] != "missing" or r.random() < .5 else f"nothere{i}" for i, d in enumerate(ds, 1)] + (["otel"] if r.random() < .3 else [])
        if names: os.environ["OTEL_EXPERIMENTAL_RESOURCE_DETECTORS"] = r.choice([",", ", ", " ,"]).join(names)
        attrs = {st(k): val(v) for k, v in op["attrs"]}; before = dict(attrs)
        try: res = R.Resource.create(attrs if attrs or r.random() < .5 else None, op["url"] or None); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e))
        o["kept"] = attrs == before; spoil = attrs
    else:
        dets = [Det(d) for d in ds]; init = mk(op["init"]); n = len(dets)
        try: res = R.get_aggregated_resources(dets, init, timeout=op["timeout"] / 1000); o["raised"] = False
        except Exception as e: o.update(raised=True, why=repr(e))
        o["kept"] = len(dets) == n and obs(init) == obs(mk(op["init"])); spoil = {}
    o["elapsed"] = int((time.monotonic() - t0) * 1000)
    if not o["raised"]:
        o["r"] = obs(res); spoil["spoiled"] = 1; time.sleep(100); o["r2"] = obs(res)
    if ds and "m" not in ds[0]: pass
    return o
def run(id, seed, cfg, ops):
    r = random.Random(seed * 7 + 3); ev = []; s = vt.Sched(seed, early_timer=0.0)
    state = [R.Resource({})]
    def main():
        for op in ops: ev.append(one(op, r, state))
    s.run(main)
    if s.aborted: ev.append({"op": "fail", "what": "hang:" + str(s.aborted), "ops": ops[len(ev):len(ev) + 1]})
    return {"id": id, "cfg": cfg, "ev": ev, "seed": seed}
KEYS = ["a", "b", "service.name", "telemetry.sdk.name", "process.executable.name", "k.é"]
def rkv(r, keys, n=None):
    out = {}
    for _ in range(r.choice([0, 1, 1, 2, 4]) if n is None else n):
        k = r.choice(keys); v = rnd_val(r, 0)
        if k == "process.executable.name": v = ["s:" + r.choice(["", "py", "é"])]
        if k == "service.name" and v[0][:2] != "s:": v = ["s:mine"]
        if any(x[0] in "y" for x in v): v = ["s:q"]
        if v[0] == "L" and any("|" in x for x in v): v = ["i:1"]
        out[k] = [cod(k), cod("|".join(v)) if v[0] == "L" else cod(v[0])]
    return list(out.values())
def renv(r):
    def item():
        return r.choice(["a=1", "b=x y", " a = 2 ", "service.name=env", "service.name=", "service.name", "=x", "junk", "", "k%20=v", "c=%41%zz%E2%82%AC", "c=%ff", "d=a=b", "e=", "telemetry.sdk.name=z", "process.executable.name=py3", "f=%2C%3D", "g=日本"])
    return cod(",".join(item() for _ in range(r.choice([0, 1, 2, 3, 5]))))
def rurl(r): return r.choice(["", "", "", "u1", "u2", "U1"])
def rdet(r, keys, t, urls):
    k = r.choice(["ok", "ok", "ok", "raise", "hang", "missing"] if keys is None or True else [])
    return {"kind": k, "demand": r.random() < .15, "dur": r.choice([0, 0, 0, t // 2, t - t // 10, t + t // 10, 3 * t]), "m": rkv(r, keys), "u": r.choice(urls)}
def ops(r):
    x = r.random()
    if x < .3: return [{"op": "merge", "b": {"m": rkv(r, KEYS), "u": rurl(r)}} for _ in range(r.randint(1, 5))]
    if x < .65:
        u = r.choice([["", "u1"], ["", "u2"], [""]])
        return [{"op": "create", "env": renv(r), "svc": cod(r.choice(["", "", "svc", "s%20v", " "])), "attrs": rkv(r, KEYS), "url": rurl(r), "ds": [rdet(r, [f"x{i}", f"y{i}"], 5000, u) for i in range(r.choice([0, 0, 0, 1, 2, 3, 6]))]} for _ in range(r.randint(1, 2))]
    t = r.choice([1000, 5000])
    out = {"op": "aggregate", "init": {"m": rkv(r, KEYS), "u": rurl(r)}, "timeout": t, "ds": [rdet(r, KEYS, t, ["", "", "u1", "u2"]) for _ in range(r.choice([0, 1, 2, 3, 4, 7]))]}
    for d in out["ds"]:
        if d["kind"] == "missing": d["kind"] = "ok"
    return [out]
tr = []
if "scripts" in JOB:
    todo = [(f"gen-{i}", i, g["cfg"], g["ops"]) for i, g in enumerate(JOB["scripts"])]
else:
    todo = [(f"rnd-{x}", x, {"kind": "rnd"}, ops(random.Random(x))) for x in range(JOB["from"], JOB["to"])]
for t in todo:
    tr.append(run(*t)); gc.collect()
    if any(e["op"] == "fail" for e in tr[-1]["ev"]): break
finish(tr)
