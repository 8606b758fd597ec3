"""Starts spans in all kinds of contexts with all kinds of samplers (T07, T08)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, json
from opentelemetry import trace as api, context as octx
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor
from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator
import opentelemetry.sdk.trace.id_generator as idg
from opentelemetry.sdk.trace.export import SimpleSpanProcessor, BatchSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.sampling import *
from opentelemetry.sdk.trace.sampling import ParentBasedTraceIdRatio, DEFAULT_ON, DEFAULT_OFF
from opentelemetry.trace import SpanContext, TraceFlags, TraceState, NonRecordingSpan, SpanKind, Link, set_span_in_context
from vals import *

NO = {"tid": "0", "sid": "0", "ts": "", "rem": False, "smp": False}
def encctx(c):
    return {"tid": f"{c.trace_id:x}", "sid": f"{c.span_id:x}", "ts": c.trace_state.to_header() if c.trace_state else "", "rem": bool(c.is_remote), "smp": bool(c.trace_flags & 1)}
NAMED = {"R3": 0xa3, "R1": 0xa1, "R2": 0xffffffffffffffff_ffffffffffffffff, "q1": 0xb1, "q2": 0xffffffffffffffff}
def num(x):
    return NAMED[x] if x in NAMED else int(x, 16)
def mkctx(p, flags=None):
    return SpanContext(num(p["tid"]), num(p["sid"]), p["rem"], TraceFlags((1 if p["smp"] else 0) if flags is None else flags), TraceState.from_header([p["ts"]]) if p["ts"] else TraceState())

def rnd_sampler(r, depth=0):
    x = r.random()
    if x < 0.45 and depth < 2:
        std = r.random() < 0.5
        if std:
            return {"k": "parent", "std": True, "root": rnd_sampler(r, 2), "rs": {"k": "on"}, "rn": {"k": "off"}, "ls": {"k": "on"}, "ln": {"k": "off"}}
        return {"k": "parent", "std": False, **{k: rnd_sampler(r, depth + 1) for k in ("root", "rs", "rn", "ls", "ln")}}
    return r.choice([{"k": "on"}, {"k": "off"}, {"k": "custom"}, {"k": "ratio", "r": str(r.choice([0, 1, 250000, 500000, 999999, 1000000]))}])
def ranks(m):
    if m["k"] == "ratio": return {m["r"]}
    if m["k"] == "parent": return set().union(*[ranks(m[k]) for k in ("root", "rs", "rn", "ls", "ln")])
    return set()
def rnd_tid(r):
    return r.choice([lambda: r.getrandbits(128) or 1, lambda: 1, lambda: 2**64, lambda: 2**64 - 1, lambda: 2**63, lambda: 2**63 - 1, lambda: 2**127 + 5,
                     lambda: (r.getrandbits(64) << 64) | r.choice([0, 1, 2**62, 2**63, 2**63 - 1, 2**64 - 1]) or 1])()

class Gen(IdGenerator):
    def __init__(self, r): self.r = r; self.t = []; self.s = []; self.n = 0; self.force = None; self.used = set()
    def generate_span_id(self):
        self.n += 1; x = (self.r.getrandbits(40) << 20) + self.n; self.s.append(f"{x:x}"); return x
    def generate_trace_id(self):
        while True:
            x = rnd_tid(self.r)
            if self.force is not None: x = (x >> 64 << 64 | self.n + 1) if self.force else (x >> 64 << 64 | 2**64 - 5 - self.n)
            if x not in self.used: break
        self.used.add(x); self.t.append(f"{x:x}"); return x

def rnd_script(r):
    cfg = {"sampler": rnd_sampler(r), "res": r.choice(["r1", "r2"]), "scope": "s"}
    ops = []; n = 0; depth = 0
    for _ in range(r.randint(3, 14)):
        o = r.choice(["start", "start", "start", "use", "unuse", "end"])
        if o == "start":
            n += 1
            par = r.choice(["cur", "cur", "empty", "ctx", "ctx"] + ([str(r.randint(1, n - 1))] * 3 if n > 1 else []))
            z = r.random()
            pctx = {"tid": "0" if z < 0.12 else f"{rnd_tid(r):x}", "sid": "0" if 0.08 < z < 0.2 else f"{r.getrandbits(64) or 1:x}", "ts": r.choice(["", "a=1", "a=1,b=2", "x@y=z"]), "rem": r.random() < 0.6, "smp": r.random() < 0.5}
            ops.append({"op": "start", "id": str(n), "par": par, "pctx": pctx, "verdict": r.choice(["drop", "rec", "samp"]), "cts": r.choice(["", "c=9", "d=1,e=2"])})
        elif o == "use":
            if n and r.random() < 0.7: ops.append({"op": "use", "id": str(r.randint(1, n))})
            else: ops.append({"op": "use", "id": "remote", "pctx": {"tid": f"{rnd_tid(r):x}", "sid": f"{r.getrandbits(64) or 1:x}", "ts": r.choice(["", "a=1"]), "rem": r.random() < 0.5, "smp": r.random() < 0.5}})
            depth += 1
        elif o == "unuse":
            if depth: ops.append({"op": "unuse"}); depth -= 1
        elif n:
            ops.append({"op": "end", "id": str(r.randint(1, n))})
    return cfg, ops

def run_script(tid, cfg, ops, r):
    s = vt.Sched(1, strategy="seq", early_timer=0.0)
    evs = []
    if isinstance(cfg["sampler"].get("root"), dict): pass
    def body():
        cust = {"n": 0, "v": "samp", "ts": ""}
        class C(Sampler):
            def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
                cust["n"] += 1
                d = {"drop": Decision.DROP, "rec": Decision.RECORD_ONLY, "samp": Decision.RECORD_AND_SAMPLE}[cust["v"]]
                a = dict(attributes or {}); a["smp"] = 1
                return SamplingResult(d, a, TraceState.from_header([cust["ts"]]) if cust["ts"] else None)
            def get_description(self): return "c"
        def mk(m):
            if m["k"] == "on": return ALWAYS_ON
            if m["k"] == "off": return ALWAYS_OFF
            if m["k"] == "ratio": return TraceIdRatioBased(int(m["r"]) / 1e6)
            if m["k"] == "custom": return C()
            if m["std"]:
                if m["root"]["k"] == "ratio": return ParentBasedTraceIdRatio(int(m["root"]["r"]) / 1e6)
                if m["root"]["k"] == "on": return DEFAULT_ON
                if m["root"]["k"] == "off": return DEFAULT_OFF
                return ParentBased(mk(m["root"]))
            return ParentBased(mk(m["root"]), mk(m["rs"]), mk(m["rn"]), mk(m["ls"]), mk(m["ln"]))
        gen = Gen(r)
        log = {"s": 0, "e": 0, "simple": [], "batch": []}
        class P(SpanProcessor):
            def on_start(self, span, parent_context=None): log["s"] += 1
            def on_end(self, span): log["e"] += 1
        class Ex(SpanExporter):
            def __init__(self, k): self.k = k
            def export(self, spans):
                log[self.k] += [ids.get(x.context.span_id, "?") for x in spans]; return SpanExportResult.SUCCESS
        ids = {}
        res = Resource({"r": cfg["res"], "z": 1})
        tp = TracerProvider(sampler=mk(cfg["sampler"]), resource=res, id_generator=gen, shutdown_on_exit=False)
        tp.add_span_processor(P()); tp.add_span_processor(SimpleSpanProcessor(Ex("simple"))); b = BatchSpanProcessor(Ex("batch"), max_queue_size=1000); tp.add_span_processor(b)
        tr = tp.get_tracer("lib", "1.2", "http://schema", {"sa": 1})
        spans = {}; toks = []
        done = set()
        rk = sorted(ranks(cfg["sampler"]))
        gen.used |= {num(op["pctx"]["tid"]) for op in ops if "pctx" in op}
        for op in ops:
            e = dict(op); o = op["op"]; e["raised"] = ""
            if o == "start":
                gen.t, gen.s = [], []; log["s"] = 0; cust["n"] = 0; cust["v"] = op["verdict"]; cust["ts"] = op["cts"]
                gen.force = op.get("coin")
                par = op["par"]
                if "pctx" in op:
                    e["pctx"] = {**op["pctx"], "tid": f"{num(op['pctx']['tid']):x}", "sid": f"{num(op['pctx']['sid']):x}"}
                if par == "cur": ctx = None
                elif par == "empty": ctx = octx.Context()
                elif par == "ctx":
                    ctx = set_span_in_context(NonRecordingSpan(mkctx(op["pctx"], r.choice([0, 2, 254]) + (1 if op["pctx"]["smp"] else 0))), octx.Context({"other": 1}))
                else: ctx = set_span_in_context(spans[par], r.choice([None, octx.Context()]))
                kv = rnd_kv(r, invalid=0)
                at = mkdict(kv); kind = r.choice(list(SpanKind)); st = r.choice([None, 12345]); name = "n" + op["id"]
                lks = [Link(SpanContext(5 + i, 6 + i, False), mkdict(rnd_kv(r, invalid=0))) for i in range(r.choice([0, 0, 1, 3]))]
                gl = [[x.context.span_id, sorted(encmap(x.attributes))] for x in lks]
                ga = sorted(encmap(mkdict(kv, None)))
                gave_at = {k: (tuple(v) if isinstance(v, list) else v.decode() if isinstance(v, bytes) else v) for k, v in at.items()}
                gave_at = {k: tuple(y.decode() if isinstance(y, bytes) else y for y in v) if isinstance(v, tuple) else v for k, v in gave_at.items()}
                gl = [[x.context.span_id, sorted([[enckey(k), ["L"] + [enc1(z.decode() if isinstance(z, bytes) else z) for z in v] if isinstance(v, list) else enc(v.decode() if isinstance(v, bytes) else v)] for k, v in (x.attributes or {}).items()])] for x in lks]
                lo = vt._time.time_ns()
                try:
                    if r.random() < 0.3:
                        with tr.start_as_current_span(name, ctx, kind, at, lks, st, end_on_exit=False) as sp:
                            if api.get_current_span() is not sp: e["raised"] = "not current"
                    else:
                        sp = tr.start_span(name, ctx, kind, at, lks, st)
                except vt.Killed: raise
                except BaseException as ex:
                    e["raised"] = repr(ex); evs.append({**e, "o": NO, "gt": [], "gs": [], "rd": {}, "rec": False, "started": -1, "consulted": -1}); return
                hi = vt._time.time_ns()
                spans[op["id"]] = sp; c = sp.get_span_context(); ids[c.span_id] = op["id"]
                e["o"] = encctx(c); e["gt"] = gen.t; e["gs"] = gen.s; e["rec"] = sp.is_recording(); e["started"] = log["s"]; e["consulted"] = cust["n"]
                e["rd"] = {}
                for k in rk:
                    dd = TraceIdRatioBased(int(k) / 1e6).should_sample(None, c.trace_id, "other").decision.is_sampled()
                    e["rd"][k] = dd
                e["rd"].setdefault("none", False)
                if cust["n"]: gave_at["smp"] = 1
                g = {"name": name, "kind": kind.name, "a": sorted(encmap(gave_at)), "l": gl, "st": "given" if st else "now"}
                if e["rec"] and hasattr(sp, "attributes"):
                    p = sp.parent
                    e["parent"] = [] if p is None else list(encctx(p).values())
                    e["gave"] = json.dumps(g)
                    stt = sp.start_time
                    e["got"] = json.dumps({"name": sp.name, "kind": sp.kind.name, "a": sorted(encmap(sp.attributes)), "l": [[x.context.span_id, sorted(encmap(x.attributes))] for x in sp.links],
                                           "st": "given" if stt == 12345 else "now" if lo <= stt <= hi else "bad"})
                    e["gotres"] = sp.resource.attributes.get("r", "?") if sp.resource == res else "?"
                    sc = sp.instrumentation_scope
                    e["gotscope"] = "s" if (sc.name, sc.version, sc.schema_url, dict(sc.attributes or {})) == ("lib", "1.2", "http://schema", {"sa": 1}) else "?"
                else:
                    e.update(parent=[], gave="", got="", gotres="", gotscope="")
                evs.append(e)
                for k in rk:
                    evs.append({"op": "ratio", "r": int(k), "tid": f"{c.trace_id & (2**64-1):x}", "d": e["rd"][k]})
            elif o == "use":
                if op["id"] == "remote":
                    e["pctx"] = {**op["pctx"], "tid": f"{num(op['pctx']['tid']):x}", "sid": f"{num(op['pctx']['sid']):x}"}
                    x = NonRecordingSpan(mkctx(op["pctx"]))
                else: x = spans[op["id"]]
                toks.append(octx.attach(set_span_in_context(x))); evs.append(e)
            elif o == "unuse":
                octx.detach(toks.pop()); evs.append(e)
            elif o == "end":
                if op["id"] in done: continue
                done.add(op["id"]); log["e"] = 0; log["simple"] = []
                spans[op["id"]].end()
                evs.append({**e, "ended": log["e"], "simple": log["simple"]})
        for i in list(spans):
            if i not in done and r.random() < 0.6:
                log["e"] = 0; log["simple"] = []
                spans[i].end(); evs.append({"op": "end", "id": i, "ended": log["e"], "simple": log["simple"]})
        while toks: octx.detach(toks.pop())
        b.force_flush(); evs.append({"op": "flush", "batch": log["batch"]})
        b.shutdown()
    s.run(body)
    if s.aborted or s.errors: evs.append({"op": "start", "id": "ab", "par": "empty", "verdict": "samp", "cts": "", "o": NO, "gt": [], "gs": [], "rd": {"none": False}, "rec": False, "started": -1, "consulted": -1, "raised": str(s.aborted) + repr(s.errors)})
    def fix(m):
        m.setdefault("std", False)
        for k in ("root", "rs", "rn", "ls", "ln"):
            if k in m: fix(m[k])
    fix(cfg["sampler"])
    return {"id": tid, "cfg": cfg, "ev": evs}

def ratio_trace(seed):
    """Ratio samplers asked directly, over boundary and random trace ids; the default id generator over scripted randomness."""
    r = random.Random(seed); ev = []
    rs = sorted({0, 1000000, *[r.randint(0, 1000000) for _ in range(5)], r.choice([1, 999999, 500000])})
    tids = [rnd_tid(r) for _ in range(25)]
    for x in rs:
        b = round(x / 1e6 * 2**64)
        tids += [(r.getrandbits(64) << 64) | y for y in (b, b - 1, b + 1) if 0 <= y < 2**64]
    qs = [(x, t) for x in rs for t in tids] ; r.shuffle(qs)
    for x, t in qs[:220]:
        t2 = t if r.random() < 0.5 else (r.getrandbits(64) << 64) | (t & (2**64 - 1))
        sampler = TraceIdRatioBased(x / 1e6)
        if r.random() < 0.3: sampler = ParentBased(sampler)
        d = sampler.should_sample(r.choice([None, octx.Context()]), t, r.choice(["a", "b"]), attributes={"x": r.random()}).decision
        ev.append({"op": "ratio", "r": x, "tid": f"{t:x}", "d": d is Decision.RECORD_AND_SAMPLE})
    real = random.getrandbits
    for _ in range(10):
        q = [0] * r.randint(0, 3)
        g = RandomIdGenerator()
        random.getrandbits = lambda n: q.pop() if q else real(n)
        try:
            x = r.choice([g.generate_span_id, g.generate_trace_id])()
        finally:
            random.getrandbits = real
        ev.append({"op": "gen", "id": f"{x:x}"})
    return {"id": f"ratio-{seed}", "seed": seed, "cfg": {"sampler": {"k": "on", "std": False}, "res": "", "scope": ""}, "ev": ev}

traces = []
for k, g in enumerate(JOB.get("scripts", [])):
    traces.append(run_script(f"gen-{k}", g["cfg"], g["ops"], random.Random(k)))
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    if JOB["mode"] == "ratio":
        traces.append(ratio_trace(seed)); continue
    r = random.Random(seed)
    cfg, ops = rnd_script(r)
    t = run_script(f"rnd-{seed}", cfg, ops, r); t["seed"] = seed
    traces.append(t)
finish(traces)
