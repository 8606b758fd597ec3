"""Events emitted through event loggers (L03)."""
from common import JOB, finish
import logging, os, random, time
logging.disable(50)
from vals import mkdict, rnd_kv, encmap
from opentelemetry import trace, context as C, _logs
from opentelemetry._events import Event
from opentelemetry._logs import SeverityNumber
from opentelemetry.test.globals_test import reset_logging_globals
from opentelemetry.sdk._logs import LoggerProvider, LogRecordProcessor
from opentelemetry.sdk._events import EventLoggerProvider
from opentelemetry.sdk.resources import Resource
RES = Resource({"r": "1"})
class Obj: pass
class Rec(LogRecordProcessor):
    def __init__(self): self.l = []
    def emit(self, d): self.l.append(d)
    def shutdown(self): pass
    def force_flush(self, timeout_millis=0): return True
def hexid(x): return [x >> 96 & 0xffffff, x >> 64 & 0xffffff, x >> 32 & 0xffffff, x & 0xffffff] if x else [0, 0, 0, 0]
def run(id, seed, cfg, ops):
    r = random.Random(seed * 5 + 1); ev = []; reset_logging_globals(); os.environ.pop("OTEL_SDK_DISABLED", None); rec = Rec(); P = cfg["provider"]
    if P == "disabled": os.environ["OTEL_SDK_DISABLED"] = "true"
    tp = LoggerProvider(resource=RES, shutdown_on_exit=False); tp.add_log_record_processor(rec)
    if P == "global": _logs.set_logger_provider(tp)
    ep = EventLoggerProvider({"given": tp, "disabled": tp, "noop": _logs.NoOpLoggerProvider()}.get(P))
    scopes = [("a", None, None, None), ("a", "1", "u", {"k": "v"}), ("b", "2", None, {})]; lg = {}
    kept = None
    for op in ops:
        o = dict(op)
        if op["op"] == "setglobal":
            if P == "proxy": _logs.set_logger_provider(tp)
            ev.append(o); continue
        n = r.choice([0, 0, 1, 2])
        if n not in lg or r.random() < .2: lg[n] = ep.get_event_logger(*scopes[n])
        os.environ.pop("OTEL_SDK_DISABLED", None) if r.random() < .5 and P != "disabled" else None
        body = {"none": None, "text": "b", "map": {"x": [1, {"y": None}]}, "object": Obj(), "zero": 0}[op["bodyk"]]
        tid, sid = r.getrandbits(96) << 32 | r.getrandbits(31) << 1 | 1, r.getrandbits(63) | 1
        if op["span"] == "none": sc = trace.INVALID_SPAN_CONTEXT; ctx = {}
        else: sc = trace.SpanContext(r.getrandbits(127) | 1, r.getrandbits(63) | 1, r.random() < .5, trace.TraceFlags(1 if op["span"] == "sampled" else 0)); ctx = trace.set_span_in_context(trace.NonRecordingSpan(sc), {})
        a = mkdict(op["attrs"], r); copy = dict(a); kw = {}
        if op["ids"] != "none": kw["trace_id"] = tid
        if op["ids"] == "both": kw["span_id"] = sid
        if op["flags"] >= 0: kw["trace_flags"] = trace.TraceFlags(op["flags"])
        if op["sev"]: kw["severity_number"] = SeverityNumber(op["sev"])
        given = r.choice([1, 10**18 + 7, 1700000000 * 10**9 + 1])
        if op["ts"] == "given": kw["timestamp"] = given
        t0 = time.time_ns(); e = Event(op["name"], body=body, attributes=a if a or r.random() < .5 else None, **kw); before = {k: v for k, v in vars(e).items()}
        o.update(tid=hexid(tid) if "trace_id" in kw else [], sid=hexid(sid) if "span_id" in kw else [], ctid=hexid(sc.trace_id), csid=hexid(sc.span_id), cflags=int(sc.trace_flags), raised=False, recs=[])
        rec.l.clear(); tok = C.attach(ctx)
        try: lg[n].emit(e)
        except Exception as x: o.update(raised=True, why=repr(x)[:200])
        finally: C.detach(tok)
        t1 = time.time_ns(); o["intact"] = a == copy and list(a) == list(copy) and vars(e) == before and e.name == op["name"]
        for d in rec.l:
            L = d.log_record; s = d.instrumentation_scope; w = scopes[n]
            o["recs"].append({"attrs": encmap(L.attributes), "body": L.body is body, "sev": L.severity_number.value if L.severity_number else 0, "time": "now" if t0 <= (L.timestamp or 0) <= t1 else "given" if L.timestamp == given else "other", "observed": t0 <= (L.observed_timestamp or 0) <= t1,
                              "tid": hexid(L.trace_id or 0), "sid": hexid(L.span_id or 0), "flags": int(L.trace_flags or 0), "scope": (s.name, s.version, s.schema_url or "", dict(s.attributes or {})) == (w[0], w[1], w[2] or "", w[3] or {}), "resource": L.resource.attributes.get("r") == "1"})
        ev.append(o)
        if len(rec.l) == 1:
            # what the application does to its objects afterwards, and later events, leave the record alone
            L = rec.l[0].log_record; was = encmap(L.attributes); a["later"] = 1
            for v in a.values():
                if isinstance(v, list): v.append("x")
            ev.append({"op": "again", "same": encmap(L.attributes) == was and (kept is None or encmap(kept[0].attributes) == kept[1])}); kept = (L, was)
    os.environ.pop("OTEL_SDK_DISABLED", None)
    return {"id": id, "cfg": cfg, "ev": ev, "seed": seed}
def rop(r):
    if r.random() < .08: return {"op": "setglobal"}
    return {"op": "emit", "name": r.choice(["e", "user.click", "", "é"]), "attrs": [kv for kv in rnd_kv(r, keys=["k1", "k2", "event.name", "event", "é"])], "bodyk": r.choice(["none", "text", "map", "object", "zero"]), "sev": r.choice([0, 0, r.randint(1, 24)]), "ts": r.choice(["unset", "given"]),
            "ids": r.choice(["none", "trace", "both"]), "flags": r.choice([-1, -1, 0, 1]), "span": r.choice(["none", "sampled", "unsampled"])}
tr = []
if "scripts" in JOB:
    for i, g in enumerate(JOB["scripts"]): tr.append(run(f"gen-{i}", i + JOB["seed"], g["cfg"], g["ops"]))
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x); cfg = {"provider": r.choice(["given"] * 4 + ["global", "proxy", "absent", "disabled", "noop"])}
        tr.append(run(f"rnd-{x}", x, cfg, [rop(r) for _ in range(r.randint(1, 8))]))
finish(tr)
