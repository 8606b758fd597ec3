"""Records of the logging module through LoggingHandler (L02)."""
from common import JOB, finish
import logging, random, os, sys, traceback
from fractions import Fraction
logging.raiseExceptions = False
from vals import mkdict, rnd_kv, encmap, enc
from opentelemetry import trace, context as C, _logs
from opentelemetry.test.globals_test import reset_logging_globals
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecordProcessor
from opentelemetry.sdk.resources import Resource
logging.getLogger("opentelemetry").propagate = False
RES = Resource({"r": "1"})
class Boom(Exception): pass
class BadStr:
    def __str__(self): raise RuntimeError("str")
    __repr__ = __str__
class Rec(LogRecordProcessor):
    def __init__(self): self.l = []; self.fault = False
    def emit(self, d):
        self.l.append(d)
        if self.fault: raise Boom("processor")
    def shutdown(self): pass
    def force_flush(self, timeout_millis=0): return True
def hexid(x): return [x >> 96 & 0xffffff, x >> 64 & 0xffffff, x >> 32 & 0xffffff, x & 0xffffff] if x else [0, 0, 0, 0]
class Tmpl:
    "a message object: its text is a template for the arguments"
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
class Obj:
    def __str__(self): return "<obj>"
CUSTOM = {15: "FIFTEEN", 25: "NOTICE", 35: "WARNING-ISH"}
for k, v in CUSTOM.items(): logging.addLevelName(k, v)
def run(id, seed, cfg, ops):
    r = random.Random(seed * 5 + 1); ev = []; reset_logging_globals(); os.environ.pop("OTEL_SDK_DISABLED", None); rec = Rec(); rec.fault = cfg["fault"]
    if cfg["provider"] == "disabled": os.environ["OTEL_SDK_DISABLED"] = "true"
    tp = LoggerProvider(resource=RES, shutdown_on_exit=False); tp.add_log_record_processor(rec); os.environ.pop("OTEL_SDK_DISABLED", None)
    gl = LoggerProvider(resource=RES, shutdown_on_exit=False)
    gl.add_log_record_processor(rec)
    if cfg["provider"] == "global": _logs.set_logger_provider(tp)
    prov = {"given": tp, "disabled": tp, "noop": _logs.NoOpLoggerProvider()}.get(cfg["provider"])
    h = LoggingHandler(level=cfg["hlevel"], logger_provider=prov)
    if cfg["fmt"]: h.setFormatter(logging.Formatter(cfg["fmt"] + ":%(message)s"))
    # formatting with exception information appends the traceback: keep the first line only
    if cfg["fmt"]: h.formatter.formatException = lambda ei: ""
    top = f"app{seed}"; lg0 = logging.getLogger(top); lg0.propagate = False; lg0.handlers = [h]; flt = {"on": False}
    if r.random() < .5: h.addFilter(lambda rc: not flt["on"])
    else: lg0.addFilter(lambda rc: not flt["on"])
    for op in ops:
        o = dict(op); o["raised"] = False; rec.l.clear()
        if op["op"] == "setglobal":
            if cfg["provider"] == "proxy": _logs.set_logger_provider(gl)
            ev.append(o); continue
        if op["op"] == "flush":
            try: h.flush() if r.random() < .5 else h.close() if False else h.flush()
            except Exception as e: o.update(raised=True, why=repr(e))
            ev.append(o); continue
        name = top if r.random() < .6 or o["filtered"] else top + "." + r.choice(["x", "y.z"]); lg = logging.getLogger(name); lg.setLevel(op["loglevel"])
        o["name"] = name; o["levelname"] = logging.getLevelName(op["level"]); flt["on"] = op["filtered"]
        m = op["msg"]; o["bad"] = m in ("badargs", "badstr") or op["exc"] == "badexc"; o["parts"] = []; o["objstr"] = ""; args = ()
        obj = None
        if m == "plain": msg = r.choice(["hello", "100% %s", "", "é日本", "a\nb"]); o["parts"] = ["t:" + msg]
        elif m == "args":
            a = r.choice([("x", 5), ("y%s", -1), ("", 0)]); msg = "n %s of %d!"; args = a; o["parts"] = ["t:n ", "a:" + a[0], "t: of ", f"a:{a[1]}", "t:!"]
        elif m == "dictarg": msg = "v=%(k)s"; args = ({"k": "z"},); o["parts"] = ["t:v=", "a:z"]
        elif m == "o": obj = msg = r.choice([Obj(), {"a": [1, 2]}, 42, 1.5, ["x", 1], None, True]); o["objstr"] = str(msg)
        elif m == "badargs": msg, args = r.choice([("%d", ("x",)), ("%s %s", ("x",)), ("no", ("x",)), ("%q", (1,))])
        else: msg, args = r.choice([("%s", (BadStr(),)), (BadStr(), (1,))])
        if m in ("args", "dictarg") and r.random() < .3: msg = Tmpl(msg)
        extra = mkdict(op["extra"]) or None
        o["extra"] = [x for x in op["extra"]]
        ctx = {"none": None}.get(op["span"])
        if op["span"] == "none": sc = trace.INVALID_SPAN_CONTEXT; c = {}
        else:
            sc = trace.SpanContext(r.getrandbits(128) | 1, r.getrandbits(64) | 1, op["span"] == "remote", trace.TraceFlags(r.choice([0, 1]))); c = trace.set_span_in_context(trace.NonRecordingSpan(sc), {})
        o["tid"], o["sid"], o["flags"] = hexid(sc.trace_id), hexid(sc.span_id), int(sc.trace_flags)
        tok = C.attach(c); ei = {"none": None, "nothing": True}.get(op["exc"], None); kept = []
        def go(**kw):
            kept.append(sys._getframe().f_code.co_name)
            lg.log(op["level"], msg, *args, extra=extra, **kw)
        class Tap(logging.Filter):
            def filter(self, rc): kept.append(rc); return True
        tap = Tap(); lg.addFilter(tap)
        try:
            if op["exc"] in ("none",): go()
            elif op["exc"] == "nothing": go(exc_info=True)
            elif op["exc"] in ("args", "noargs", "badexc", "empty", "zero"):
                e = Boom("why", 2) if op["exc"] == "args" else Boom("", 3) if op["exc"] == "empty" else Boom(0) if op["exc"] == "zero" else Boom() if op["exc"] == "noargs" else Boom(BadStr())
                try: raise e
                except Boom as x: err = x
                if r.random() < .5: go(exc_info=err)
                else: go(exc_info=(type(err), err, err.__traceback__))
            else:
                try: raise Boom()
                except Boom: go(exc_info=True)
        except Exception as e: o.update(raised=True, why=repr(e)[:200])
        finally: C.detach(tok); lg.removeFilter(tap)
        rcs = [k for k in kept if isinstance(k, logging.LogRecord)]; o["recs"] = []
        for d in rec.l:
            L = d.log_record; rc = rcs[-1]; A = dict(L.attributes or {})
            code = A.pop("code.filepath", None) == rc.pathname and A.pop("code.function", None) == rc.funcName == "go" and A.pop("code.lineno", None) == rc.lineno
            st = A.pop("exception.stacktrace", None)
            o["recs"].append({"isobj": L.body is obj or L.body == obj and type(L.body) is type(obj), "body": L.body if isinstance(L.body, str) else "!", "time": abs(Fraction(L.timestamp) - Fraction(rc.created) * 10**9) < 1000,
                              "sev": L.severity_number.value, "text": L.severity_text, "attrs": encmap(A), "code": code, "stack": bool(st) and "Boom" in st and "Traceback" in st, "tid": hexid(L.trace_id or 0), "sid": hexid(L.span_id or 0), "flags": int(L.trace_flags or 0),
                              "name": d.instrumentation_scope.name, "resource": L.resource.attributes.get("r") == "1"})
            if cfg["fmt"] and op["exc"] not in ("none", "nothing"): o["recs"][-1]["body"] = o["recs"][-1]["body"].rstrip("\n") if o["recs"][-1]["body"].rstrip("\n") or True else ""
        if cfg["fmt"] and op["exc"] not in ("none", "nothing") and o["parts"] and o["parts"][-1].endswith("\n"): pass
        ev.append(o)
        if o["raised"]: break
    lg0.handlers = []
    return {"id": id, "cfg": cfg, "ev": ev, "seed": seed}
def rop(r):
    x = r.random()
    if x < .04: return {"op": "setglobal"}
    if x < .08: return {"op": "flush"}
    return {"op": "log", "level": r.choice([r.randint(1, 70), r.choice([10, 20, 30, 40, 50, 15, 25, 35]), r.choice([1, 1000, 10**6, 53, 54])]), "msg": r.choice(["plain", "plain", "args", "args", "dictarg", "o", "badargs", "badstr"]), "exc": r.choice(["none"] * 5 + ["args", "noargs", "caught", "nothing", "badexc", "empty", "zero"]),
            "span": r.choice(["none", "valid", "remote"]), "extra": [kv for kv in rnd_kv(r, keys=["k1", "k2", "http.x", "user", "é"]) if kv[0][:2] == "s:" and kv[0] != "s:"], "loglevel": r.choice([1, 1, 1, 20, 45]), "filtered": r.random() < .08}
tr = []
if "scripts" in JOB:
    for i, g in enumerate(JOB["scripts"]): tr.append(run(f"gen-{i}", i, g["cfg"], g["ops"]))
else:
    for x in range(JOB["from"], JOB["to"]):
        r = random.Random(x); cfg = {"provider": r.choice(["given"] * 4 + ["global", "proxy", "absent", "disabled", "noop"]), "hlevel": r.choice([0, 0, 0, 20, 35]), "fmt": r.choice(["", "", "F"]), "fault": r.random() < .1}
        if x % 50 == 0: ops = [{"op": "log", "level": l, "msg": "plain", "exc": "none", "span": "none", "extra": [], "loglevel": 1, "filtered": False} for l in r.sample(range(1, 75), 74)]; cfg = {"provider": "given", "hlevel": 0, "fmt": "", "fault": False}
        else: ops = [rop(r) for _ in range(r.randint(1, 12))]
        tr.append(run(f"rnd-{x}", x, cfg, ops))
finish(tr)
