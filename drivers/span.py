"""Runs operation scripts on one real span and records what the user and two
processors see after every operation (properties T04, T05, T06)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random
from opentelemetry import trace as api
from opentelemetry.sdk.trace import TracerProvider, SpanLimits, SpanProcessor
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import Status, StatusCode, Link, SpanContext, TraceFlags, TraceState, SpanKind
from vals import *

class Custom(Exception):
    pass
class Outer:
    class Nested(Custom):
        pass
EXC = {"ValueError": ValueError, "KeyError": KeyError, "Custom": Custom, "Nested": Outer.Nested,
       "GeneratorExit": GeneratorExit, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration, "AssertionError": AssertionError}
LIM = {"ma": "max_span_attributes", "me": "max_events", "ml": "max_links", "mea": "max_event_attributes", "mla": "max_link_attributes",
       "len": "max_span_attribute_length", "elen": "max_attribute_length"}
CTX = {}
for k in range(1, 9):
    CTX[f"v:{k}"] = SpanContext(1000 + k, 2000 + k, True, TraceFlags(k % 2))
CTX["x:0"] = SpanContext(0, 0, False)
CTX["x:1"] = SpanContext(0, 77, False)
CTX["x:2"] = SpanContext(77, 0, False)
CTX["t:1"] = SpanContext(0, 0, False, trace_state=TraceState([("a", "b")]))
NAMES = {id(v): k for k, v in CTX.items()}
def ctxname(c):
    for k, v in CTX.items():
        if v == c: return k
    return "?:" + repr(c)

def enct(t):
    if t is None: return -1
    d = t - vt.EPOCH
    if abs(d) < 2**30: return d
    return -t if 0 <= t < 2**30 else -2**30
def encevmap(m, name):
    out = []
    for k, v in (m or {}).items():
        if name == "exception" and k == "exception.stacktrace" and isinstance(v, str):
            # opaque but must be a stack trace of the exception
            ty, msg = str(m.get("exception.type", "?")), str(m.get("exception.message", ""))
            ok = (ty[:3] == "my " or ty.split(".")[-1] in v) and (msg[:3] == "my " or msg in v)
            v = "<stack>" if ok else "<bad stack>"
        if name == "exception" and k == "exception.escaped" and v in ("True", "False"):
            continue
        out.append([enckey(k), enc(v)])
    return out
def view(sp, rec):
    return {"name": sp.name, "a": encmap(sp.attributes), "ad": sp.dropped_attributes,
            "ev": [{"name": e.name, "ts": enct(e.timestamp), "a": encevmap(e.attributes, e.name), "d": e.dropped_attributes} for e in sp.events],
            "ed": sp.dropped_events,
            "lk": [{"ctx": ctxname(x.context), "a": encmap(x.attributes), "d": x.dropped_attributes} for x in sp.links],
            "ld": sp.dropped_links, "sc": sp.status.status_code.name, "sd": enc1(sp.status.description or None),
            "st": enct(sp.start_time), "en": enct(sp.end_time), "rec": rec}

def rtime(r):
    return r.choice([None, None, vt.EPOCH + r.randint(1, 10**6), vt.EPOCH - r.randint(1, 10**6), 0, 7])

def own_exc(r, kv):
    """The application may describe the exception itself: what it says wins."""
    if r.random() < 0.35: kv = kv + [["s:exception." + k, ["s:my " + k]] for k in r.sample(["type", "message"], r.choice([1, 1, 2]))]
    return kv

def rnd_script(r, mode):
    lim = lambda: r.choice([-1, 0, 1, 2, 3, 5])
    cfg = {k: lim() for k in ("ma", "me", "ml", "mea", "mla")}
    cfg["len"] = r.choice([-1, -1, 0, 1, 4]); cfg["elen"] = r.choice([-1, 0, 3])
    cfg["rec"] = r.random() < 0.7; cfg["sts"] = r.random() < 0.7
    if mode == "exc":
        for k in cfg:
            if k not in ("rec", "sts"): cfg[k] = -1
    inv = 0.2
    def kv(lim):
        return rnd_kv(r, invalid=0.0 if lim == 0 else inv)
    links = [[r.choice(list(CTX)), kv(cfg["mla"])] for _ in range(r.choice([0, 0, 1, 2, 4]))]
    ops = [{"op": "start", "name": "n0", "kv": kv(cfg["ma"]), "links": links, "st": rtime(r)}]
    W = {"life": "attr attr event event link name status rec end with use recexc".split(),
         "limits": "attr attr attr event event event link link link".split(),
         "exc": "with use use status status status recexc attr end".split()}[mode]
    n = r.randint(2, 14)
    for i in range(n):
        o = r.choice(W)
        if o == "end" and i < n / 2 and r.random() < 0.7: o = "attr"
        if o == "attr": ops.append({"op": "attr", "kv": kv(cfg["ma"])})
        elif o == "event": ops.append({"op": "event", "name": r.choice(["e", "f", ""]), "kv": kv(cfg["mea"]), "ts": rtime(r)})
        elif o == "link": ops.append({"op": "link", "ctx": r.choice(list(CTX)), "kv": kv(cfg["mla"])})
        elif o == "name": ops.append({"op": "name", "name": r.choice(["n1", "n2", ""])})
        elif o == "status": ops.append({"op": "status", "form": r.choice(["code", "obj"]), "c": r.choice(["OK", "ERROR", "ERROR", "UNSET"]), "d": r.choice(["n:", "s:d1", "s:d2", "s:"])})
        elif o == "rec": ops.append({"op": "rec"})
        elif o == "end": ops.append({"op": "end", "expl": True, "t": rtime(r)})
        elif o == "recexc": ops.append({"op": "recexc", "kind": r.choice(list(EXC)), "msg": r.choice(["", "boom", "a: b"]), "kv": own_exc(r, rnd_kv(r, keys="abc", invalid=0)), "t": rtime(r)} if cfg["mea"] == -1 and cfg["elen"] == -1 else {"op": "rec"})
        else:
            if not (cfg["mea"] == -1 and cfg["elen"] == -1):
                kind = "none"
            else:
                kind = r.choice(["none"] + list(EXC) * 2)
            ops.append({"op": o, "kind": kind, "msg": r.choice(["", "boom", "x: y"]), "rec": r.random() < 0.7, "sts": r.random() < 0.7, "eoe": r.random() < 0.4, "how": r.choice(["use", "use", "deco"])})
    return cfg, ops

def run_script(tid, cfg, ops, r):
    s = vt.Sched(1, strategy="seq", early_timer=0.0)
    evs = []
    def body():
        got = {"s": [0, 0], "e": [0, 0], "x": []}
        class P(SpanProcessor):
            def __init__(self, i): self.i = i
            def on_start(self, span, parent_context=None):
                got["s"][self.i] += 1
            def on_end(self, span):
                got["e"][self.i] += 1
                got["x"].append((span, cell[0].is_recording() if cell else None))
        lim = SpanLimits(**{LIM[k]: v for k, v in cfg.items() if k in LIM})      # -1 is SpanLimits.UNSET
        tp = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False, span_limits=lim)
        tp.add_span_processor(P(0)); tp.add_span_processor(P(1))
        tr = tp.get_tracer("t")
        cell = []
        for op in ops:
            e = dict(op); e.setdefault("expl", False); e["raised"] = ""; e["prop"] = "none"
            o = op["op"]
            lo = enct(vt._time.time_ns())
            tsexp = None
            try:
                if o == "start":
                    d = mkdict(op["kv"], r)
                    ld = [mkdict(kv) for _, kv in op["links"]]
                    t = op.get("st"); t = None if t is None or t == 1 else t
                    lks = [Link(CTX[c], dd) for (c, _), dd in zip(op["links"], ld)]
                    share = r.random()
                    if share < 0.3:     # the same Link objects are also given to another provider's span
                        TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False, span_limits=SpanLimits(max_link_attributes=1, max_attribute_length=1)).get_tracer("o").start_span("other", links=lks)
                    sp = tr.start_span("n0", attributes=d, links=lks, start_time=t, record_exception=cfg["rec"], set_status_on_exception=cfg["sts"])
                    cell.append(sp)
                    if share > 0.6:
                        got_s = list(got["s"]); tr.start_span("later", links=lks); got["s"] = got_s
                    spoil(d); [spoil(x) for x in ld]; lks.append(None)
                    tsexp = t
                else:
                    sp = cell[0]
                    if o == "attr":
                        d = mkdict(op["kv"], r)
                        if len(d) == 1:
                            k, v = next(iter(d.items())); sp.set_attribute(k, v)
                        else: sp.set_attributes(d)
                        spoil(d)
                    elif o == "event":
                        d = mkdict(op["kv"], r); t = op["ts"]; t = None if t == 3 else t
                        sp.add_event(op["name"], d, t); spoil(d); tsexp = t
                    elif o == "link":
                        d = mkdict(op["kv"], r); sp.add_link(CTX[op["ctx"]], d); spoil(d)
                    elif o == "name": sp.update_name(op["name"])
                    elif o == "status":
                        d = None if op["d"] == "n:" else op["d"][2:]
                        if op["form"] == "code": sp.set_status(StatusCode[op["c"]], d)
                        else: sp.set_status(Status(StatusCode[op["c"]], d))
                    elif o == "end":
                        t = op.get("t", vt.EPOCH + op.get("at", 0)) if op.get("expl") else None
                        sp.end(t)
                        e["expl"] = t is not None
                        if t is not None: e["at"] = enct(t)
                    elif o == "recexc":
                        x = EXC[op["kind"]](op["msg"]); d = mkdict(op["kv"])
                        try:
                            raise x
                        except BaseException:
                            sp.record_exception(x, attributes=d, timestamp=op["t"])
                        spoil(d); tsexp = op["t"]
                    elif o in ("with", "use"):
                        x = None if op["kind"] == "none" else EXC[op["kind"]](op["msg"])
                        caught = None
                        try:
                            if o == "with":
                                with sp as y:
                                    if x is not None: raise x
                            elif op.get("how") == "deco":
                                @api.use_span(sp, end_on_exit=op["eoe"], record_exception=op["rec"], set_status_on_exception=op["sts"])
                                def f():
                                    if x is not None: raise x
                                f()
                            else:
                                with api.use_span(sp, end_on_exit=op["eoe"], record_exception=op["rec"], set_status_on_exception=op["sts"]) as y:
                                    if y is not sp: e["raised"] = "use_span yielded something else"
                                    if api.get_current_span() is not sp: e["raised"] = "not current"
                                    if x is not None: raise x
                        except vt.Killed:
                            raise
                        except BaseException as ex:
                            caught = ex
                        # StopIteration through a generator based context manager is still the same object
                        e["prop"] = "none" if caught is None else "same" if caught is x else "other:" + repr(caught)
                        if x is not None:
                            e["mod"] = type(x).__module__; e["qual"] = type(x).__qualname__; e["name"] = type(x).__name__; e["msg"] = str(x)
                if o == "recexc":
                    e["mod"] = type(x).__module__; e["qual"] = type(x).__qualname__; e["name"] = type(x).__name__; e["msg"] = str(x)
            except vt.Killed:
                raise
            except BaseException as ex:
                e["raised"] = repr(ex)
            hi = enct(vt._time.time_ns())
            sp = cell[0] if cell else None
            if sp is None:
                evs.append({**e, "o": {}, "raised": e["raised"] or "no span"}); return
            e["lo"], e["hi"] = lo, hi
            e["o"] = view(sp, sp.is_recording())
            # timestamps taken by the code itself: the observed one if it lies between lo and hi, else lo
            def now(t):
                return t if lo <= t <= hi else lo
            if o == "start":
                e["st"] = enct(tsexp) if tsexp is not None else now(enct(sp.start_time))
            if o in ("event", "recexc", "with", "use"):
                e["ts"] = enct(tsexp) if tsexp is not None else (now(e["o"]["ev"][-1]["ts"]) if e["o"]["ev"] else lo)
            if not e["expl"]:
                e["at"] = e["o"]["en"]
            e["starts"] = list(got["s"]); e["ends"] = list(got["e"])
            e["x"] = [view(x, rec if rec is not None else True) for x, rec in got["x"]]
            for k in ("t", "how", "form"): e.pop(k, None)
            evs.append(e)
    s.run(body)
    if s.aborted or s.errors:
        evs.append({"op": "abort", "raised": str(s.aborted) + repr(s.errors), "o": {}, "expl": True})
    return {"id": tid, "cfg": cfg, "ev": evs}

traces = []
for k, g in enumerate(JOB.get("scripts", [])):
    traces.append(run_script(f"gen-{k}", g["cfg"], g["ops"], random.Random(k)))
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    r = random.Random(seed)
    cfg, ops = rnd_script(r, JOB["mode"])
    t = run_script(f"rnd-{JOB['mode']}-{seed}", cfg, ops, r); t["seed"] = seed
    traces.append(t)
finish(traces)
