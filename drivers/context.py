"""Contexts, flows and current spans (C01, C02): scripts of operations of several threads and tasks."""
from common import JOB, finish
import logging; logging.disable(50)
import asyncio, contextvars, queue, random, threading
from opentelemetry import context as C, trace
from opentelemetry.context.context import Context
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
RES = Resource({})
class Boom(Exception): pass
class Base(BaseException): pass
class Samp(Sampler):
    def should_sample(self, parent_context, trace_id, name, *a, **k): return SamplingResult([Decision.RECORD_AND_SAMPLE, Decision.RECORD_AND_SAMPLE, Decision.RECORD_ONLY][int(name) % 3])
    def get_description(self): return "s"

class World:
    def __init__(self):
        self.ev = []; self.keys = {"a": C.create_key("k"), "b": C.create_key("k")}; self.ctxs = {-1: Context()}; self.toks = {}; self.spans = {}; self.ids = {}; self.ended = []
        self.nf, self.nc, self.nt, self.ns = 1, 0, 0, 0; self.flows = {}; self.threads = []
        w = self
        class P(SpanProcessor):
            def on_end(self, span): w.ended.append(w.ids.get(span.context.span_id, -1))
        tp = TracerProvider(sampler=Samp(), resource=RES, shutdown_on_exit=False); tp.add_span_processor(P()); self.tr = tp.get_tracer("t")
        # decorated once, called any number of times by any flow
        @self.tr.start_as_current_span("3")
        def fn(body): body()
        @self.tr.start_as_current_span("3", end_on_exit=False)
        def fn2(body): body()
        @self.tr.start_as_current_span("3")
        async def afn(body): await body()
        @self.tr.start_as_current_span("3", end_on_exit=False)
        async def afn2(body): await body()
        self.fns = {True: fn, False: fn2}; self.afns = {True: afn, False: afn2}
    def log(self, **k): self.ev.append(k)
    def sp(self, c=None):
        s = trace.get_current_span(c)
        if s is trace.INVALID_SPAN: return 0
        return next((i for i, x in self.spans.items() if x is s), -1)
    def content(self, c=None): return {"a": C.get_value(self.keys["a"], c) or 0, "b": C.get_value(self.keys["b"], c) or 0, "sp": self.sp(c)}
    def obs(self, f):
        self.log(op="obs", f=f, **self.content())
        if self.ended: self.log(op="ended", ids=list(self.ended)); self.ended.clear()
    def simple(self, f, op):
        """Operations that are no blocks."""
        o = op["op"]
        if o in ("set", "mk"):
            fr = op.get("from", 0); fr = fr if fr in self.ctxs else 0
            c = C.set_value(self.keys[op["k"]], op["v"], self.ctxs[fr] if fr else None); self.nc += 1; self.ctxs[self.nc] = c
            self.log(op="mk", f=f, k=op["k"], v=op["v"], c=self.nc, got=self.content(c), **{"from": fr})
            if o == "set": self.attach(f, self.nc)
        elif o == "att":
            if op["c"] in self.ctxs or op["c"] == 0: self.attach(f, op["c"])
        elif o == "det":
            if op["tok"] in self.toks:
                err = ""
                try: C.detach(self.toks[op["tok"]])
                except BaseException as ex: err = type(ex).__name__
                self.log(op="det", f=f, tok=op["tok"], err=err)
        elif o == "look":
            for c in self.ctxs: self.log(op="look", c=c, **self.content(self.ctxs[c]))
        elif o == "mut" and op["c"] in self.ctxs:
            x = self.ctxs[op["c"]]; k = self.keys["a"]; ref = False
            try:
                match op["how"]:
                    case "set": x[k] = 99
                    case "del": del x[k]
                    case "update": x.update({k: 99})
                    case "ior": x |= {k: 99}
                    case "clear": x.clear()
                    case "pop": x.pop(k)
                    case "popitem": x.popitem()
                    case "setdefault": x.setdefault("zz", 99)
            except Exception: ref = True
            self.log(op="mut", c=op["c"], how=op["how"], refused=ref)
            self.log(op="look", c=op["c"], **self.content(self.ctxs[op["c"]]))
    def attach(self, f, c):
        self.nt += 1; self.toks[self.nt] = C.attach(self.ctxs[c] if c else C.get_current()); self.log(op="att", f=f, c=c, tok=self.nt)
    def begin(self, f, op):
        """The context manager or decorator of a block; its span is known once inside."""
        end = op["end"]; how = op["how"]
        if how == "again" and self.spans:
            i = random.Random(len(self.ev)).choice(list(self.spans)); return trace.use_span(self.spans[i], end_on_exit=False), i, False
        self.ns += 1; i = self.ns
        if how == "fn": return None, i, end
        if how == "nonrec":
            s = trace.NonRecordingSpan(trace.SpanContext(i, i, False)); self.spans[i] = s
            return trace.use_span(s, end_on_exit=end), i, False
        if how == "use":
            s = self.tr.start_span(str(i)); self.spans[i] = s; self.ids[s.get_span_context().span_id] = i
            return trace.use_span(s, end_on_exit=end), i, end
        return self.tr.start_as_current_span(str(i), end_on_exit=end), i, end
    def entered(self, f, i, end):
        self.spans.setdefault(i, trace.get_current_span()); self.ids[self.spans[i].get_span_context().span_id] = i
        self.log(op="ent", f=f, sp=i, end=end)
    def left(self, f, i, x):
        if self.flows[f].pend is None: self.log(op="fail", what="block-raised-" + type(x).__name__); return
        out, exc = self.flows[f].pend
        self.flows[f].pend = None; self.log(op="ext", f=f, out=out, prop=(x is exc) if out != "ok" else x is not None, ended=list(self.ended)); self.ended.clear()
    def leave(self, f, op):
        exc = {"ok": None, "exc": Boom(), "base": Base(), "genexit": GeneratorExit(), "stop": StopIteration()}[op["out"]]
        self.flows[f].pend = (op["out"], exc)
        return exc

class TFlow:
    """A flow that is a thread."""
    def __init__(self, w, f): self.w, self.f, self.q, self.ack = w, f, queue.Queue(), queue.Queue(); self.pend = None
    def top(self):
        try: self.loop(True)
        finally: self.ack.put(0)
    def loop(self, top=False):
        w, f = self.w, self.f
        while True:
            op = self.q.get(); o = op["op"]
            if o == "stop": return
            if o == "ext":
                exc = w.leave(f, op)
                if exc is not None: raise exc
                return
            if o == "ent":
                cm, i, end = w.begin(f, op); x = None
                try:
                    if op["how"] == "deco":
                        @cm
                        def blk(): w.entered(f, i, end); w.obs(f); self.ack.put(0); self.loop()
                        blk()
                    elif op["how"] == "fn":
                        def body(): w.entered(f, i, end); w.obs(f); self.ack.put(0); self.loop()
                        w.fns[end](body)
                    else:
                        with cm: w.entered(f, i, end); w.obs(f); self.ack.put(0); self.loop()
                except BaseException as ex: x = ex
                w.left(f, i, x)
            elif o == "spawn": spawn(w, f, op, False)
            else: w.simple(f, op)
            w.obs(f); self.ack.put(0)
    async def do(self, op): self.q.put(op); self.ack.get()

class AFlow:
    """A flow that is an asynchronous task."""
    def __init__(self, w, f): self.w, self.f, self.q, self.ack = w, f, asyncio.Queue(), asyncio.Queue(); self.pend = None
    async def top(self):
        try: await self.loop()
        finally: self.ack.put_nowait(0)
    async def loop(self):
        w, f = self.w, self.f
        while True:
            op = await self.q.get(); o = op["op"]
            if o == "stop": return
            if o == "ext":
                exc = w.leave(f, op)
                if exc is not None: raise exc
                return
            if o == "ent":
                cm, i, end = w.begin(f, op); x = None
                try:
                    if op["how"] == "deco":
                        @cm
                        async def blk(): w.entered(f, i, end); w.obs(f); self.ack.put_nowait(0); await self.loop()
                        await blk()
                    elif op["how"] == "fn":
                        async def body(): w.entered(f, i, end); w.obs(f); self.ack.put_nowait(0); await self.loop()
                        await w.afns[end](body)
                    else:
                        with cm: w.entered(f, i, end); w.obs(f); self.ack.put_nowait(0); await self.loop()
                except BaseException as ex: x = ex
                w.left(f, i, x)
            elif o == "spawn": spawn(w, f, op, True)
            else: w.simple(f, op)
            w.obs(f); self.ack.put_nowait(0)
    async def do(self, op): self.q.put_nowait(op); await self.ack.get()

def spawn(w, f, op, isasync):
    w.nf += 1; g = w.nf
    if op["how"] == "task" and isasync:
        fl = w.flows[g] = AFlow(w, g); w.threads.append(asyncio.get_running_loop().create_task(fl.top()))
    else:
        fl = w.flows[g] = TFlow(w, g)
        t = threading.Thread(target=contextvars.copy_context().run if op["how"] == "task" else fl.top, args=(fl.top,) if op["how"] == "task" else (), daemon=True); t.start()
    w.log(op="spawn", f=f, g=g, how=op["how"])

async def run(w, ops, asyncroot):
    fl = w.flows[1] = AFlow(w, 1) if asyncroot else TFlow(w, 1)
    if asyncroot: root = asyncio.create_task(fl.top())
    else: threading.Thread(target=fl.top, daemon=True).start()
    depth = {}
    for op in ops:
        f = op["f"]
        if f not in w.flows: continue
        if op["op"] == "ext":
            if not depth.get(f): continue
            depth[f] -= 1
        if op["op"] == "ent": depth[f] = depth.get(f, 0) + 1
        await w.flows[f].do(op)
        if op["op"] == "ext" and op["out"] == "stop": pass
    for f in sorted(w.flows): await w.flows[f].do({"op": "look", "f": f})
    for f in sorted(w.flows):
        while depth.get(f): depth[f] -= 1; await w.flows[f].do({"op": "ext", "f": f, "out": "ok"})
    for f in sorted(w.flows): await w.flows[f].do({"op": "stop", "f": f})

def execute(ops, asyncroot):
    w = World()
    def go():
        try: contextvars.Context().run(lambda: asyncio.run(asyncio.wait_for(run(w, ops, asyncroot), 8)))
        except BaseException as ex:
            import traceback; traceback.print_exc(); w.log(op="fail", what="execution-" + type(ex).__name__)
    t = threading.Thread(target=go, daemon=True); t.start(); t.join(20)
    if t.is_alive(): w.log(op="fail", what="hang")
    return list(w.ev)

out = []
def broken(): return sum(any(e["op"] == "fail" for e in x["ev"]) for x in out) >= 3
for i, sc in enumerate(JOB.get("scripts", [])):
    for root in (True, False):
        if broken(): break
        out.append({"id": f"s{i}{root}", "cfg": sc["cfg"], "ev": execute(sc["ops"], root), "script": sc["ops"]})
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    if broken(): break
    r = random.Random(seed * 29 + 11); ops = []; nf = 1; nt = nc = 0; root = r.random() < 0.6
    for _ in range(r.randint(5, 40)):
        f = r.randint(1, nf); x = r.random()
        if x < 0.1 and nf < 5: ops.append({"op": "spawn", "f": f, "how": r.choice(["task", "task", "thread"])}); nf += 1
        elif x < 0.25: ops.append({"op": "set", "f": f, "k": r.choice("ab"), "v": r.randint(1, 5)}); nt += 1; nc += 1
        elif x < 0.32: ops.append({"op": "mk", "f": f, "k": r.choice("ab"), "v": r.randint(1, 5), "from": r.choice([-1, 0, r.randint(0, nc)])}); nc += 1
        elif x < 0.38: ops.append({"op": "att", "f": f, "c": r.choice([-1, r.randint(0, nc), r.randint(0, nc)])}); nt += 1
        elif x < 0.52 and nt: ops.append({"op": "det", "f": f, "tok": r.choice([nt, r.randint(1, nt)])})
        elif x < 0.56 and nc: ops.append({"op": "mut", "f": f, "c": r.randint(1, nc), "how": r.choice(["set", "del", "update", "ior", "clear", "pop", "popitem", "setdefault"])})
        elif x < 0.8: ops.append({"op": "ent", "f": f, "how": r.choice(["with", "deco", "fn", "fn", "use", "nonrec", "again"]), "end": r.random() < 0.7})
        else: ops.append({"op": "ext", "f": f, "out": r.choice(["ok", "ok", "exc", "base", "genexit"])})
    out.append({"id": f"r{seed}", "cfg": {"x": 0}, "ev": execute(ops, root), "seed": seed})
finish(out)
