"""OpenTracing shim and the tracer behind it, in several flows (S01)."""
from common import JOB, finish
import logging; logging.disable(50)
import random, contextvars, warnings, fractions; warnings.simplefilter("ignore")
from urllib.parse import unquote_plus, quote_plus
import opentracing
from opentracing import Format, UnsupportedFormatException
from opentelemetry import trace, baggage, context
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.shim.opentracing_shim import create_tracer
h16 = lambda x: format(x, "016x"); h32 = lambda x: format(x, "032x")
NOTIME = [0, -1]
def txt(v): return {str: "s", bool: "b", int: "i", float: "d"}.get(type(v), "?" + type(v).__name__) + ":" + str(v)
def ids(c): return (h32(c.trace_id), h16(c.span_id)) if c.is_valid else ("", "")
def nst(s): f = fractions.Fraction(s) * 10**9; return [int(f) // 10**9, int(f) % 10**9]
def ns(t): return [t // 10**9, t % 10**9]
def bagof(ctx): return sorted([k, str(v)] for k, v in baggage.get_all(ctx).items())
def items(sh): return bagof(sh.context.baggage)
class World:
    def __init__(self, r, cfg):
        self.r = r; self.mem = InMemorySpanExporter(); self.tp = TracerProvider(); self.tp.add_span_processor(SimpleSpanProcessor(self.mem))
        self.ot = create_tracer(self.tp); self.otel = self.tp.get_tracer("lib"); self.other = self.tp.get_tracer("other")
        base = contextvars.Context(); self.flow = {t: base.copy() for t in range(1, cfg["flows"] + 1)}
        self.stack = {t: [] for t in self.flow}; self.sp = []; self.ctx = []; self.ev = []
    def run(self, t, f, *a): return self.flow[t].run(f, *a)
    # self.sp[i]: (shim span or None, otel span)
    def ref(self, who):
        """a parent, as a span or as its context"""
        if who[0] == "span":
            sh, o = self.sp[who[1] - 1]
            return self.r.choice([sh, sh.context])
        return self.ctx[who[1] - 1]
    def rctx(self, who): return None if who[0] == "none" else self.sp[who[1] - 1][0].context if who[0] == "span" else self.ctx[who[1] - 1]
    def start(self, t, api, active, fin, child, refs, ignore, name="n", tags=None, st=None):
        r = self.r; e = {"op": "start", "t": t, "api": api, "active": active, "fin": fin, "child": child, "refs": refs, "ignore": ignore, "name": name, "tags": [[k, txt(v)] for k, v in (tags or {}).items()], "st": NOTIME if st is None else nst(st), "err": ""}
        def go():
            if api == "otel":
                tr = r.choice([self.otel, self.other, self.ot.unwrap()]); kw = {"attributes": tags, "start_time": None if st is None else int(fractions.Fraction(st) * 10**9)}
                if active:
                    cm = tr.start_as_current_span(name, end_on_exit=fin, **kw); s = cm.__enter__(); self.stack[t].append(("cm", cm)); return None, s
                return None, tr.start_span(name, **kw)
            kw = {"tags": tags}
            if st is not None: kw["start_time"] = st
            if child[0] != "none": kw["child_of"] = self.ref(child)
            if refs: kw["references"] = [(opentracing.child_of if k == "child" else opentracing.follows_from)(self.rctx(x)) for k, x in refs]
            if ignore or r.random() < .3: kw["ignore_active_span"] = ignore
            if active:
                if not fin or r.random() < .3: kw["finish_on_close"] = fin
                sc = self.ot.start_active_span(name, **kw); self.stack[t].append(("scope", sc)); return sc.span, sc.span.unwrap()
            sh = self.ot.start_span(name, **kw); return sh, sh.unwrap()
        try: sh, o = self.run(t, go)
        except Exception as ex: self.ev.append({**e, "err": repr(ex), "tid": "", "sid": "", "psid": "", "links": [], "bag": []}); raise
        self.sp.append((sh, o)); c = o.get_span_context()
        e.update(tid=h32(c.trace_id), sid=h16(c.span_id), psid=h16(o.parent.span_id) if o.parent and o.parent.is_valid else "", links=[list(ids(l.context)) for l in o.links], bag=items(sh) if sh else [])
        if sh is not None and ids(sh.context.unwrap()) != ids(c): e["err"] = "shim context differs"
        if o.parent and o.parent.is_valid and o.parent.trace_id != c.trace_id: e["err"] = "parent in another trace"
        self.ev.append(e)
    def enter(self, t, who, fin, shim):
        def go():
            if who[0] == "ctx":
                cm = trace.use_span(trace.NonRecordingSpan(self.ctx[who[1] - 1].unwrap()), end_on_exit=fin); cm.__enter__(); self.stack[t].append(("cm", cm)); return
            sh, o = self.sp[who[1] - 1]
            if shim: self.stack[t].append(("scope", self.ot.scope_manager.activate(sh, fin)))
            else: cm = trace.use_span(o, end_on_exit=fin); cm.__enter__(); self.stack[t].append(("cm", cm))
        shim = shim and who[0] == "span" and self.sp[who[1] - 1][0] is not None
        self.run(t, go); self.ev.append({"op": "enter", "t": t, "who": who, "fin": fin, "shim": shim})
    def leave(self, t, exc):
        kind, x = self.stack[t].pop(); prop = False
        def go():
            y = x
            if kind == "scope" and self.r.random() < .4: y = self.ot.scope_manager.active
            if not exc:
                if kind == "scope" and self.r.random() < .5: y.close(); return False
                y.__exit__(None, None, None); return False
            try:
                try: raise ValueError("boom")
                except ValueError as ex:
                    er = ex
                    if y.__exit__(type(ex), ex, ex.__traceback__): return False
                    raise
            except ValueError as e2: return e2 is er
        prop = self.run(t, go)
        self.ev.append({"op": "leave", "t": t, "exc": exc, "prop": prop})
    def cur(self, t):
        def go():
            o = trace.get_current_span().get_span_context(); a = self.ot.active_span
            if self.r.random() < .3:
                sc = self.ot.scope_manager.active
                if (sc is None) != (a is None) or (sc is not None and ids(sc.span.context.unwrap()) != ids(a.context.unwrap())): return {"otel": ids(o)[1], "ot": "differs", "bag": []}
            return {"otel": ids(o)[1], "ot": "" if a is None else ids(a.unwrap().get_span_context())[1], "bag": [] if a is None else items(a)}
        self.ev.append({"op": "cur", "t": t, **self.run(t, go)})
    def spanop(self, t, op, n, **k):
        sh, o = self.sp[n - 1]; r = self.r; e = {"op": op, "n": n}
        def go():
            if op == "tag":
                key, v = k["k"], k["v"]; e.update(k=key, v=txt(v)); x = sh.set_tag(key, v) if sh else o.set_attribute(key, v)
            elif op == "log":
                kv, tm = k["kv"], k.get("time"); e.update(name=kv.get("event", "log"), attrs=[[a, txt(b)] for a, b in kv.items()], time=NOTIME if tm is None else nst(tm))
                if tm is None and set(kv) == {"event"} and r.random() < .5: sh.log_event(kv["event"])
                elif tm is None and set(kv) == {"event", "payload"}: sh.log_event(kv["event"], kv["payload"])
                elif tm is None: sh.log_kv(kv)
                else: sh.log_kv(kv, tm)
            elif op == "rename": e.update(name=k["name"]); sh.set_operation_name(k["name"]) if sh else o.update_name(k["name"])
            elif op == "setbag": e.update(k=k["k"], v=k["v"]); sh.set_baggage_item(k["k"], k["v"])
            elif op == "getbag": e.update(k=k["k"]); v = sh.get_baggage_item(k["k"]); e["got"] = "" if v is None else str(v)
            elif op == "finish":
                tm = k.get("time"); e["et"] = NOTIME if tm is None else nst(tm)
                if sh: sh.finish() if tm is None else sh.finish(tm)
                else: o.end() if tm is None else o.end(int(fractions.Fraction(tm) * 10**9))
            elif op == "with":
                e["exc"] = k["exc"]; prop = False
                try:
                    with sh as y:
                        assert y is sh
                        if k["exc"]: raise ValueError("boom")
                except ValueError: prop = True
                if prop != k["exc"]: self.ev.append({"op": "fail", "what": "exception-lost-or-invented"})
        try: self.run(t, go)
        except Exception as ex: self.ev.append({"op": "fail", "what": "call-raised", "why": repr(ex)}); return
        self.ev.append(e)
    def inject(self, t, who, binary):
        e = {"op": "inject", "t": t, "who": who, "binary": binary, "err": "", "tid": "", "sid": "", "bag": []}; d = {}
        x = self.ref(who) if who[0] != "none" else None
        try: self.run(t, self.ot.inject, x, Format.BINARY if binary else self.r.choice([Format.TEXT_MAP, Format.HTTP_HEADERS]), d)
        except UnsupportedFormatException: e["err"] = "unsupported"
        except Exception as ex: e["err"] = repr(ex)
        tp = d.get("traceparent")
        if tp: e["tid"], e["sid"] = tp.split("-")[1:3]
        e["bag"] = sorted([unquote_plus(k), unquote_plus(v)] for k, v in (x.split("=", 1) for x in d.get("baggage", "").split(",") if x))
        self.ev.append(e)
    def extract(self, t, tid, sid, bag=(), binary=False):
        d = {"other": "x"}; r = self.r; name = r.choice([str, str.title]) if False else str
        if sid: d["traceparent"] = f"00-{tid}-{sid}-01"
        elif r.random() < .4: d["traceparent"] = r.choice(["00-" + "0" * 32 + "-" + "1" * 16 + "-01", "junk", ""])
        if bag: d["baggage"] = ",".join(f"{k}={quote_plus(v)}" for k, v in bag)
        e = {"op": "extract", "t": t, "binary": binary, "err": "", "sent": {"tid": tid, "sid": sid, "bag": [list(x) for x in bag]}, "tid": "", "sid": "", "bag": []}
        def go():
            c = self.ot.extract(Format.BINARY if binary else r.choice([Format.TEXT_MAP, Format.HTTP_HEADERS]), d)
            if c is None: c = __import__("opentelemetry.shim.opentracing_shim", fromlist=["x"]).SpanContextShim(trace.INVALID_SPAN_CONTEXT)
            e["tid"], e["sid"] = ids(c.unwrap()); e["bag"] = bagof(c.baggage); self.ctx.append(c)
        try: self.run(t, go)
        except UnsupportedFormatException: e["err"] = "unsupported"
        except Exception as ex: e["err"] = repr(ex)
        self.ev.append(e)
    def end(self):
        out = []
        for s in self.mem.get_finished_spans():
            tid, sid = ids(s.context)
            out.append({"tid": tid, "sid": sid, "psid": h16(s.parent.span_id) if s.parent and s.parent.is_valid else "", "name": s.name, "tags": sorted([k, txt(v)] for k, v in s.attributes.items()),
                        "logs": [{"name": x.name, "attrs": sorted([k, txt(v)] for k, v in x.attributes.items()), "time": ns(x.timestamp)} for x in s.events], "error": s.status.status_code is trace.StatusCode.ERROR, "st": ns(s.start_time), "et": ns(s.end_time)})
        self.ev.append({"op": "exported", "spans": out})
VAL = ["a", "", "é x", 1, -5, True, False, 1.5, 0]
TIMES = [1.0, 1700000000.25, 1700000000.123456, 0.5, 1234567890.999999]
BK = ["k", "user", "x-y"]; BV = ["v", "a b", "é", "1"]
def mktags(r): return {k: r.choice(VAL) for k in r.sample("abcd", r.choice([0, 1, 2]))} if r.random() < .5 else None
def somewho(w, r, none=True):
    c = [["span", i + 1] for i, (sh, o) in enumerate(w.sp) if sh is not None] + [["ctx", i + 1] for i in range(len(w.ctx))] + ([["none", 0]] if none else [])
    return r.choice(c)
def rstart(w, r, t):
    api = "otel" if r.random() < .2 else "ot"; active = r.random() < .5; child, refs = ["none", 0], []
    if api == "ot" and r.random() < .5 and (w.sp or w.ctx):
        if r.random() < .5: child = somewho(w, r)
        else: refs = [[r.choice(["child", "follows"]), somewho(w, r)] for _ in range(r.choice([1, 1, 2, 3]))]
    w.start(t, api, active, r.random() < .7, child, refs, api == "ot" and r.random() < .25, r.choice(["n", "op é", "GET /"]), mktags(r), r.choice(TIMES) if r.random() < .2 else None)
def scenario(seed, script=None):
    r = random.Random(seed * 7919 + 11); cfg = script["cfg"] if script else {"flows": r.choice([1, 2, 3])}; w = World(r, cfg); x = 0
    def see(): w.cur(r.randint(1, cfg["flows"]))
    def shims(): return [i + 1 for i, (sh, o) in enumerate(w.sp) if sh is not None]
    try:
        if script:
            for o in script["ops"]:
                op = o["op"]; x += 1; t = o.get("t", 1)
                if op == "start": 
                    ok = lambda q: q[0] != "span" or w.sp[q[1] - 1][0] is not None
                    if not (ok(o["child"]) and all(ok(q[1]) for q in o["refs"])): break
                    w.start(t, o["api"], o["active"], o["fin"], o["child"], o["refs"], o["ignore"])
                elif op == "enter": w.enter(t, o["who"], o["fin"], o["shim"])
                elif op == "leave": w.leave(t, o["exc"])
                elif op == "setbag":
                    if w.sp[o["n"] - 1][0] is None: continue
                    w.spanop(t, "setbag", o["n"], k="k", v="v")
                elif op == "finish": w.spanop(t, "finish", o["n"])
                elif op == "extract": w.extract(t, format(x, "032x") if o["sid"] else "", format(x, "016x") if o["sid"] else "")
                for t in w.flow: w.cur(t)
        else:
            for _ in range(r.randint(3, 16)):
                t = r.randint(1, cfg["flows"]); q = r.random(); n = len(w.sp)
                if q < .3 or not n: rstart(w, r, t)
                elif q < .4:
                    who = ["span", r.randint(1, n)] if r.random() < .8 or not w.ctx else ["ctx", r.randint(1, len(w.ctx))]
                    if who[0] == "ctx" and not w.ctx[who[1] - 1].unwrap().is_valid: continue
                    w.enter(t, who, r.random() < .5, r.random() < .7)
                elif q < .6:
                    if w.stack[t]: w.leave(t, r.random() < .25)
                elif q < .66: w.spanop(t, "tag", r.randint(1, n), k=r.choice("abcde"), v=r.choice(VAL))
                elif q < .72 and shims(): w.spanop(t, "log", r.choice(shims()), kv=r.choice([{"event": "e", "x": 1}, {"event": "e"}, {"y": "z"}, {"event": "cache.miss", "payload": "p"}, {}]), time=r.choice(TIMES) if r.random() < .4 else None)
                elif q < .75: w.spanop(t, "rename", r.randint(1, n), name=r.choice(["m", "new é"]))
                elif q < .81 and shims(): w.spanop(t, "setbag", r.choice(shims()), k=r.choice(BK), v=r.choice(BV))
                elif q < .84 and shims(): w.spanop(t, "getbag", r.choice(shims()), k=r.choice(BK))
                elif q < .88: w.spanop(t, "finish", r.randint(1, n), time=r.choice(TIMES) if r.random() < .3 else None)
                elif q < .90 and shims(): w.spanop(t, "with", r.choice(shims()), exc=r.random() < .5)
                elif q < .95 and (shims() or w.ctx): w.inject(t, somewho(w, r), r.random() < .1)
                else:
                    v = r.random() < .75; w.extract(t, h32(r.getrandbits(128) | 1) if v else "", h16(r.getrandbits(64) | 1) if v else "", [(k, r.choice(BV)) for k in r.sample(BK, r.choice([0, 1, 2]))], r.random() < .08)
                see()
        for t in w.flow:
            while w.stack[t]: w.leave(t, False); w.cur(t)
        w.end()
    except Exception as ex:
        w.ev.append({"op": "fail", "what": "raised", "why": repr(ex)})
    return {"id": f"s-{seed}", "seed": seed, "cfg": cfg, "ev": w.ev}
out = []
for i, s in enumerate(JOB.get("scripts", [])): out.append(scenario(JOB["seed"] * 100000 + i, s))
for s in range(JOB.get("from", 0), JOB.get("to", 0)): out.append(scenario(s))
finish(out)
