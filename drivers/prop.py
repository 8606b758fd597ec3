"""Propagation (P01-P05): headers and contexts as sequences of code points."""
from common import JOB, finish
import logging; logging.disable(50)
import random
from opentelemetry import context as C, trace, baggage
from opentelemetry.context.context import Context
from opentelemetry.propagators.textmap import Getter, Setter
from opentelemetry.trace.span import TraceState
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from opentelemetry.baggage.propagation import W3CBaggagePropagator
def cod(s): return [ord(c) for c in s]
def st(l): return "".join(map(chr, l))
KEY = C.create_key("other")
class OGetter(Getter):
    """Carriers that are lists of pairs."""
    def get(self, carrier, key): l = [v for k, v in carrier if k == key]; return l or None
    def keys(self, carrier): return [k for k, _ in carrier]
class OSetter(Setter):
    def set(self, carrier, key, value): carrier.append((key, value))
OG, OS = OGetter(), OSetter()

class Carrier:
    """A carrier in one of several shapes."""
    def __init__(self, r): self.kind = r.choice(["dict", "dict", "list"]); self.c = [] if self.kind == "list" else {}
    def inject(self, p, ctx): p.inject(self.c, ctx, setter=OS) if self.kind == "list" else p.inject(self.c, ctx)
    def items(self): return list(self.c) if self.kind == "list" else list(self.c.items())
    def extract(self, p, ctx): return p.extract(self.c, ctx, getter=OG) if self.kind == "list" else p.extract(self.c, ctx)
    def get(self, k): return next((v for a, v in self.items() if a == k), None)
def carrier_of(r, hs, drop=()):
    """From header name -> list of values (absent if not there)."""
    c = Carrier(r)
    if c.kind == "list": c.c = [(k, v) for k, vs in hs.items() for v in vs]
    else:
        for k, vs in hs.items(): c.c[k] = vs[0] if len(vs) == 1 and r.random() < 0.6 else (tuple(vs) if r.random() < 0.2 else list(vs))
    return c
def snapshot(c): return dict(c)
def base_ctx(r):
    """A context with other values, perhaps a span and baggage."""
    c = C.set_value(KEY, object(), Context())
    if r.random() < 0.5: c = trace.set_span_in_context(trace.NonRecordingSpan(trace.SpanContext(77, 78, False)), c)
    return c
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
TP = None
class S(Sampler):
    def should_sample(self, *a, **k): return SamplingResult(Decision.RECORD_AND_SAMPLE, trace_state=S.ts)
    def get_description(self): return ""
def span_of(r, valid, tid, sid, flags, ts):
    """A span with that context; recording or not."""
    global TP
    if valid and flags == 1 and r.random() < 0.5:
        if TP is None: TP = TracerProvider(sampler=S(), resource=Resource({}), shutdown_on_exit=False)
        S.ts = ts; gen = TP.id_generator; gen.generate_trace_id = lambda: tid; gen.generate_span_id = lambda: sid
        return TP.get_tracer("t").start_span("x", context=Context())
    return trace.NonRecordingSpan(trace.SpanContext(tid, sid, r.random() < 0.5, trace.TraceFlags(flags), ts))
def rand_ids(r):
    tid = r.choice([1, 2**128 - 1, r.getrandbits(128) or 1, r.getrandbits(64) or 1, (r.getrandbits(7) + 1) << 120 if r.random() < 0.5 else r.getrandbits(128) or 1])
    sid = r.choice([1, 2**64 - 1, r.getrandbits(64) or 1, r.getrandbits(60) or 1])
    return tid, sid
def rand_invalid(r): return r.choice([(0, 0), (0, 5), (5, 0), (2**128, 5), (5, 2**64), (0, 2**64), (-1, 3), (3, -1)])
KC = "abcxyz019_-*/"; VC = [chr(c) for c in range(32, 127) if c not in (44, 61)]
def rand_pair(r, good=0.9):
    if r.random() < good:
        k = r.choice("abxyz") + "".join(r.choice(KC) for _ in range(r.choice([0, 1, 3, 255 if r.random() < 0.05 else 5])))
        if r.random() < 0.25: k = (r.choice("abz019") + "".join(r.choice(KC) for _ in range(r.choice([0, 2, 240 if r.random() < 0.1 else 4]))))[:241] + "@" + (r.choice("abz") + "".join(r.choice(KC) for _ in range(r.choice([0, 3, 13]))))
        v = "".join(r.choice(VC) for _ in range(r.choice([0, 1, 4, 255 if r.random() < 0.05 else 7]))) + chr(r.choice([33, 97, 126, 48]))
        return k, v
    return r.choice([("", "v"), ("A", "v"), ("a", ""), ("a", "v "), ("a", "b,c"), ("a", "b=c"), ("9", "v"), ("a@", "v"), ("@b", "v"), ("a@9", "v"), ("a@b@c", "v"), ("a b", "v"), ("a", "\u00e9"), ("\u00e9", "v"), ("a" * 257, "v"), ("a", "v" * 257),
                     ("a" * 242 + "@b", "v"), ("a@" + "b" * 15, "v"), ("a\n", "v"), ("a", "v\n"), ("a", "\t"), ("a", "\x7f"), ("_a", "v"), (" a", "v"), ("a ", "v")])
def rand_ts(r):
    n = r.choice([0, 0, 1, 2, 3, 31, 32 if r.random() < 0.3 else 2]); d = {}
    while len(d) < n: k, v = rand_pair(r, 1); d[k] = v
    return TraceState(list(d.items()))
def pairs(ts): return [[cod(k), cod(v)] for k, v in ts.items()]
def sc_fields(sc, ts=True): 
    d = {"tid": cod(f"{sc.trace_id:032x}" if sc.trace_id >= 0 else "-"), "sid": cod(f"{sc.span_id:016x}" if sc.span_id >= 0 else "-"), "flags": int(sc.trace_flags), "remote": bool(sc.is_remote)}
    if ts: d["ts"] = pairs(sc.trace_state)
    return d
def raised(f):
    try: return f(), False
    except BaseException: return None, True

# ------------------------------------------------------------------ P01
def tc_case(r, ev, script=None):
    P = TraceContextTextMapPropagator()
    def ext(car, tp, tsh, hop):
        base = base_ctx(r); snap = snapshot(base); none = r.random() < 0.2
        got, bad = raised(lambda: car.extract(P, None if none else base))
        e = {"op": "ext", "hop": hop, "tp": [cod(x) for x in tp], "tsh": [cod(x) for x in tsh], "raised": bad, "tid": [], "sid": [], "flags": 0, "ts": [], "remote": False, "same": False, "base": snapshot(base) == snap, "other": True}
        if not bad:
            e["same"] = snapshot(got) == ({} if none else snap)
            if not e["same"]:
                sp = trace.get_current_span(got); e.update(sc_fields(sp.get_span_context())); e["other"] = none or (got.get(KEY) is base[KEY] and set(got) >= set(base))
        ev.append(e)
    if script is not None:
        hs = {"traceparent": [st(script["tp"])]}
        if script["tsh"]: hs["tracestate"] = [st(x) for x in script["tsh"]]
        return ext(carrier_of(r, hs), hs["traceparent"], hs.get("tracestate", []), False)
    if r.random() < 0.5:
        valid = r.random() < 0.8
        tid, sid = rand_ids(r) if valid else rand_invalid(r); ts = rand_ts(r); flags = r.choice([0, 1, 1, 2, 3, 128, 255, r.randrange(256)])
        sp = span_of(r, valid, tid, sid, flags, ts); ctx = trace.set_span_in_context(sp, base_ctx(r))
        if not valid and r.random() < 0.4: ctx = C.set_value(KEY, 1, Context())
        car = Carrier(r); _, bad = raised(lambda: car.inject(P, ctx))
        tp, tsh = car.get("traceparent"), car.get("tracestate")
        ev.append({"op": "inj", "valid": valid, "tid": cod(f"{tid:032x}") if valid else [], "sid": cod(f"{sid:016x}") if valid else [], "flags": flags, "ts": pairs(ts), "raised": bad,
                   "tp": cod(tp or ""), "tsh": cod(tsh or ""), "hasts": tsh is not None, "n": len(car.items())})
        if not bad: ext(car, [tp] if tp is not None else [], [tsh] if tsh is not None else [], True)
        return
    tid, sid = rand_ids(r); s = f"{r.choice(['00', '00', '00', '01', 'fe', 'ff', '10', '0', 'FF', '0g'])}-{tid:032x}-{sid:016x}-{r.randrange(256):02x}" + r.choice(["", "", "", "-", "-00", "-x y", " ", "\t", "\n", "x", "-" * 3])
    m = r.random()
    if m < 0.25:
        i = r.randrange(len(s)); s = s[:i] + r.choice(["", "-", "0", "g", "A", "\u0661", " ", "00", "\x00", "\n"]) + s[i + r.choice([0, 1, 1, 2]):]
    elif m < 0.35: s = "".join(r.choice("0123456789abcdef- xF\u0661") for _ in range(r.choice([0, 1, 55, 54, 56, 70])))
    elif m < 0.45: s = s.replace(r.choice([f"{tid:032x}", f"{sid:016x}"]), r.choice(["0" * 32, "0" * 16, "F" * 32]))
    hs = {}
    if r.random() < 0.95: hs["traceparent"] = r.choice([[s], [s], [s], [s, s], [s, "x"]])
    if r.random() < 0.6: hs["tracestate"] = [rand_hdr(r) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.05: hs["tracestate"] = []
    if r.random() < 0.05: hs["traceparent"] = []
    if r.random() < 0.3: hs[r.choice(["Traceparent", "x", "baggage", "b3"])] = ["y"]
    car = carrier_of(r, hs)
    ext(car, hs.get("traceparent", [])[:1], hs.get("tracestate", []), False)
def rand_hdr(r):
    """A trace state header without leading white space."""
    n = r.choice([0, 1, 2, 3, 33 if r.random() < 0.2 else 2, 32 if r.random() < 0.2 else 1]); bad = r.random() < 0.3
    ms = []
    for i in range(n):
        k, v = rand_pair(r, 0.8 if bad else 1)
        if r.random() < 0.05 and ms: ms.append(r.choice(ms)); continue
        ms.append(k + "=" + v)
        if r.random() < 0.1: ms.append("")
    if bad and r.random() < 0.3: ms.insert(r.randint(0, len(ms)), r.choice(["a", "=", "a=", "=b", "a==b", "a= ", "a =b", "\u00e9=1"]))
    h = ms[0] if ms else ""
    for m in ms[1:]: h += r.choice([",", ",", " ,", ", ", "\t,\t "]) + m
    return (h + r.choice(["", "", " ", "\t "])).lstrip(" \t") if ms else ""

# ------------------------------------------------------------------ P02
def ts_case(r, ev, script=None):
    made = {0: TraceState()}; n = [0]
    def do(op):
        f = made.get(op.get("from", 0), made[0]); o = op["op"]; e = dict(op)
        if op.get("from") not in made: e["from"] = 0
        try:
            if o == "make": t = TraceState([(st(k), st(v)) for k, v in op["ps"]])
            elif o == "parse": t = TraceState.from_header([st(h) for h in op["hs"]])
            elif o == "add": t = f.add(st(op["k"]), st(op["v"]))
            elif o == "update": t = f.update(st(op["k"]), st(op["v"]))
            elif o == "delete": t = f.delete(st(op["k"]))
            elif o == "reparse": h = f.to_header(); e["h"] = cod(h); t = TraceState.from_header([h])
        except BaseException as ex: ev.append({"op": "fail", "what": o + "-raised"}); return
        n[0] += 1; made[n[0]] = t; e.update(c=n[0], got=pairs(t)); ev.append(e)
        for c in ([op.get("from", 0)] if script is None else made):
            if c in made: ev.append({"op": "look", "c": c, "got": pairs(made[c])})
    if script:
        from_n = script["cfg"]["n"]; do({"op": "make", "ps": [[cod("k" + str(i)), cod("v")] for i in range(1, from_n + 1)], "from": 0})
        for op in script["ops"]: do(op)
    else:
        for _ in range(r.randint(3, 14)):
            f = r.choice([n[0], n[0], r.randint(0, n[0])]); ks = list(made[f])
            def key(): return cod(r.choice(ks)) if ks and r.random() < 0.5 else cod(rand_pair(r)[0])
            x = r.random()
            if x < 0.12:
                ps = [rand_pair(r, 0.85) for _ in range(r.choice([0, 1, 3, 31, 32, 33]))]
                if ps and r.random() < 0.3: ps.append((ps[0][0], "dup"))
                do({"op": "make", "ps": [[cod(k), cod(v)] for k, v in ps], "from": 0})
            elif x < 0.24: do({"op": "parse", "hs": [cod(rand_hdr(r)) for _ in range(r.choice([0, 1, 1, 2, 3]))], "from": 0})
            elif x < 0.5: do({"op": "add", "from": f, "k": key(), "v": cod(rand_pair(r)[1])})
            elif x < 0.74: do({"op": "update", "from": f, "k": key(), "v": cod(rand_pair(r)[1])})
            elif x < 0.88: do({"op": "delete", "from": f, "k": key()})
            else: do({"op": "reparse", "from": f})
    for c, t in made.items():
        for how in ("set", "del", "attr"):
            try:
                if how == "set": t["zz"] = "1"
                elif how == "del": del t[next(iter(t), "zz")]
                else: t.clear()
                ref = False
            except Exception: ref = True
            ev.append({"op": "mut", "c": c, "refused": ref})
        ev.append({"op": "look", "c": c, "got": pairs(t)})

# ------------------------------------------------------------------ P03
def blist(c): return [[cod(k), cod(str(v))] for k, v in baggage.get_all(c).items()]
UNI = ["a", "B", "7", " ", "=", ",", ";", "%", "+", "\u00e9", "\u4e2d", "\U0001f600", "\t", "\n", '"', "\\", "/", "\x00", "\x7f", "\u00a0", "\u2003", "%41", "~", "\ufeff", "\x85", "\u0130"]
def rand_text(r, lo=0):
    n = r.choice([lo, 1, 1, 2, 3, 5, 8, 100 if r.random() < 0.05 else 4]); return "".join(r.choice(UNI) for _ in range(max(lo, n)))
NAMES = ["a", "b", "user id", "\u00e9", "k=1", " x", "x ", "%41", "A", "a,b", "a;b", "\U0001f600", "+", "a+b"]
BKEY = ["a", "b", "A", "k-1", "!#$'*+.^_`|~", "%41", "%C3%A9", "a%20b", "%zz", "x%"]
BVAL = ["", "1", "a+b", "%20", "%2C", "%C3%A9x", "%E4%B8%AD", "%F0%9F%98%80", "%zz", "%4", "%", "a=b=c", "=", ":/?@[]{}", "!#$&'()*+-.", "%c3%a9", "%25", "%00", "%20x%20"]
def good_member(r):
    return r.choice(BKEY) + "=" + r.choice(BVAL) + r.choice(["", "", "", ";p", "; p = 1", ";p=1;q", ";p=\t2 ;q=%20", ";p= "])
def bad_member(r): return r.choice(["", "a", "=1", "a =1", "a= 1", "a=1 2", "a=\"x\"", "a=\\", "a(=1", "\u00e9=1", "a=\u00e9", "a=1;", "a=1;;p", "a=1;p q", "a=1;=2", "a=1;p=\"", "@=1", "a\t=1", "/=1", "a=1;p=\u00e9", "a=\x7f", "[=]", "a=\n"])
def bag_case(r, ev, script=None):
    P = W3CBaggagePropagator(); made = {0: C.set_value(KEY, 1, Context())}; n = [0]
    def new(op, f, **kw):
        c, bad = raised(f); e = {**op, **kw, "raised": bad, "got": []}; 
        if not bad: n[0] += 1; made[n[0]] = c; e["got"] = blist(c)
        e["c"] = n[0] if not bad else -1; ev.append(e)
        if not bad and c.get(KEY) != 1: ev.append({"op": "fail", "what": "other-values-lost"})
    def current(f, g):
        """With the context as current one instead of as argument."""
        t = C.attach(made[f])
        try: return g(None)
        finally: C.detach(t)
    def via(f, g): return (lambda: current(f, g)) if r.random() < 0.3 else (lambda: g(made[f]))
    def do(op):
        o = op["op"]; f = op.get("from", 0); f = f if f in made else 0; op = {**op, "from": f}
        if o == "set": k, v = st(op["k"]), st(op["v"]); new(op, via(f, lambda c: baggage.set_baggage(k, v, c)))
        elif o == "remove": new(op, via(f, lambda c: baggage.remove_baggage(st(op["k"]), c)))
        elif o == "clear": new(op, via(f, lambda c: baggage.clear(c)))
        elif o == "ext":
            hs = {} if op["hdr"] is None else {"baggage": [st(op["hdr"])]}
            if r.random() < 0.02: hs = {"baggage": []}
            car = carrier_of(r, hs); h = [cod(x) for x in hs.get("baggage", [])]
            if h == [[]]: h = []
            new({"op": "ext", "from": f, "h": h}, via(f, lambda c: car.extract(P, c)))
        elif o in ("hop", "inj"):
            of = op["of"] if op["of"] in made else 0; car = Carrier(r)
            _, bad = raised(via(of, lambda c: car.inject(P, c))); h = car.get("baggage")
            e = {"op": "inj", "c": of, "raised": bad, "n": len(car.items()), "h": cod(h or "")}; ev.append(e)
            if o == "hop" and not bad and len(h or "") <= 8192 and all(len(x) <= 4096 for x in (h or "").split(",")) and len(blist(made[of])) <= 180:
                new({"op": "hop", "from": f, "sent": blist(made[of])}, via(f, lambda c: car.extract(P, c)))
        look([f])
    def look(cs):
        for c in cs:
            ks = [*baggage.get_all(made[c])][:4] + ["nope"]
            ev.append({"op": "look", "c": c, "got": blist(made[c]), "ks": [cod(k) for k in ks], "one": [[] if baggage.get_baggage(k, made[c]) is None else [cod(str(baggage.get_baggage(k, made[c])))] for k in ks]})
    if script:
        for op in script["ops"]: do(op)
    else:
        for _ in range(r.randint(3, 12)):
            f = r.choice([n[0], n[0], r.randint(0, n[0])]); x = r.random(); nm = cod(r.choice(NAMES) if r.random() < 0.7 else rand_text(r, 1))
            if x < 0.35: do({"op": "set", "from": f, "k": nm, "v": cod(rand_text(r))})
            elif x < 0.45: do({"op": "remove", "from": f, "k": cod(r.choice([*baggage.get_all(made[f])] or ["a"]))})
            elif x < 0.5: do({"op": "clear", "from": f})
            elif x < 0.8:
                ms = [good_member(r) if r.random() < 0.75 else bad_member(r) for _ in range(r.choice([1, 2, 3, 6]))]
                if r.random() < 0.06: ms = [f"k{i}={i}" if r.random() < 0.97 else bad_member(r) for i in range(r.choice([179, 180, 181, 185]))]
                elif r.random() < 0.08: ms.insert(r.randint(0, len(ms)), "L=" + "v" * r.choice([4093, 4094, 4095, 4100]))
                elif r.random() < 0.05: ms = ["L=" + "v" * 4000, "M=" + "v" * r.choice([4184, 4186, 4187, 4188, 4189, 4190, 4300])]
                elif r.random() < 0.05: k = r.choice([8191, 8192, 8193]); ms = ["L=" + "v" * 4000, "M=" + "v" * 4000]; ms.append("c=" + "d" * (k - len(",".join(ms)) - 3))
                h = ms[0]
                for m in ms[1:]: h += r.choice([",", ",", " ,", ", ", "\t,\t "]) + m
                do({"op": "ext", "from": f, "hdr": None if r.random() < 0.03 else cod(h)})
            else: do({"op": r.choice(["hop", "hop", "inj"]), "from": f, "of": r.choice([n[0], r.randint(0, n[0])])})
    for c in made:
        for how in ("set", "del", "clear"):
            m = baggage.get_all(made[c])
            try:
                if how == "set": m["zz"] = 1
                elif how == "del": del m[next(iter(m), "zz")]
                else: m.clear()
                ref = False
            except Exception: ref = True
            ev.append({"op": "mut", "refused": ref})
    look(made)

# ------------------------------------------------------------------ P04
def b3_case(r, ev, script=None):
    from opentelemetry.propagators.b3 import B3MultiFormat, B3SingleFormat, B3Format
    N = {"single": "b3", "tid": "x-b3-traceid", "sid": "x-b3-spanid", "sampled": "x-b3-sampled", "flags": "x-b3-flags"}
    def P(form=None): return {"single": B3SingleFormat, "multi": B3MultiFormat}[form or r.choice(["single", "multi"])]()
    def ext(car, h, hop):
        base = base_ctx(r); snap = snapshot(base); none = r.random() < 0.2
        got, bad = raised(lambda: car.extract(P(), None if none else base))
        e = {"op": "ext", "hop": hop, "h": h, "raised": bad, "tid": [], "sid": [], "flags": 0, "nts": 0, "remote": False, "same": False, "base": snapshot(base) == snap, "other": True}
        if not bad:
            e["same"] = snapshot(got) == ({} if none else snap)
            if not e["same"]:
                sc = trace.get_current_span(got).get_span_context(); e.update(sc_fields(sc, False)); e["nts"] = len(sc.trace_state); e["other"] = none or (got.get(KEY) is base[KEY] and set(got) >= set(base))
        ev.append(e)
    def hs_of(car): return {k: cod(car.get(v) or "") for k, v in N.items()}
    def go(h): 
        hs = {}
        for k, v in h.items():
            if v or r.random() < 0.1: hs[N[k]] = r.choice([[st(v)], [st(v)], [st(v), "zz"]])
            elif r.random() < 0.05: hs[N[k]] = []
        ext(carrier_of(r, hs), h, False)
    if script is not None: return go(script["h"])
    if r.random() < 0.5:
        valid = r.random() < 0.8; tid, sid = rand_ids(r) if valid else rand_invalid(r); flags = r.choice([0, 1, 2, 3, 255, 254]); sp = span_of(r, valid, tid, sid, flags, rand_ts(r))
        ctx = trace.set_span_in_context(sp, base_ctx(r)); form = r.choice(["single", "multi"])
        if not valid and r.random() < 0.4: ctx = C.set_value(KEY, 1, Context())
        car = Carrier(r); _, bad = raised(lambda: car.inject(P(form), ctx)); h = hs_of(car)
        ev.append({"op": "inj", "form": form, "valid": valid, "tid": cod(f"{tid:032x}") if valid else [], "sid": cod(f"{sid:016x}") if valid else [], "sampled": bool(flags & 1), "raised": bad, "h": h, "n": len(car.items())})
        if not bad: ext(car, h, True)
        return
    tid, sid = rand_ids(r)
    t = r.choice([f"{tid:032x}", f"{tid:032X}", f"{tid & (2**64 - 1):016x}"]); s = r.choice([f"{sid:016x}", f"{sid:016X}"])
    def mess(x):
        if r.random() < 0.8: return x
        i = r.randrange(len(x)); return r.choice([x[:i] + r.choice("g-_ \u0661\uff11\n+x") + x[i + 1:], x[1:], x + "0", "0" * len(x), "", x + "\n", " " + x, "0x" + x[2:]])
    smp = r.choice(["1", "0", "d", "true", "True", "false", "TRUE", "2", "", " 1", "D"])
    h = {k: "" for k in N}
    if r.random() < 0.5: h["single"] = r.choice([f"{mess(t)}-{mess(s)}", f"{mess(t)}-{mess(s)}-{smp}", f"{mess(t)}-{mess(s)}-{smp}-{'0' * 15}5", f"{t}-{s}-1-5-", f"{t}{s}", smp, "-", f"{t}-{s}-1-5-6"])
    if r.random() < 0.6: h["tid"], h["sid"], h["sampled"], h["flags"] = mess(t), mess(s), r.choice([smp, ""]), r.choice(["", "", "1", "0", "2"])
    go({k: cod(v) for k, v in h.items()})

# ------------------------------------------------------------------ P05
def jg_case(r, ev, script=None):
    from opentelemetry.propagators.jaeger import JaegerPropagator
    P = JaegerPropagator()
    def ext(car, h, bh, hop):
        base = base_ctx(r)
        for k in ("a", "z"):
            if r.random() < 0.4: base = baggage.set_baggage(k, "old", base)
        snap = snapshot(base); b0 = blist(base); sp0 = trace.get_current_span(base); none = r.random() < 0.2
        got, bad = raised(lambda: car.extract(P, None if none else base))
        e = {"op": "ext", "hop": hop, "h": h, "bh": bh, "raised": bad, "tid": [], "sid": [], "flags": 0, "remote": False, "samespan": False, "base": snapshot(base) == snap and blist(base) == b0, "other": True, "bag0": [] if none else b0, "bag": []}
        if not bad:
            sp = trace.get_current_span(got); e["samespan"] = sp is (trace.INVALID_SPAN if none else sp0); e["bag"] = blist(got); e.update(sc_fields(sp.get_span_context(), False)); e["other"] = none or got.get(KEY) is base[KEY]
        ev.append(e)
    if script is not None: return ext(carrier_of(r, {"uber-trace-id": [st(script["h"])]}), [script["h"]], [], False)
    if r.random() < 0.5:
        valid = r.random() < 0.8; tid, sid = rand_ids(r) if valid else rand_invalid(r); flags = r.choice([0, 1, 2, 3, 255, 254]); sp = span_of(r, valid, tid, sid, flags, rand_ts(r))
        ctx = trace.set_span_in_context(sp, base_ctx(r)); bag = {}
        if not valid and r.random() < 0.4: ctx = C.set_value(KEY, 1, Context())
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            k = r.choice(["a", "b", "uberctx-a", "x-uberctx-", "uberctx-", "user id", "UP", "\u00e9", "%41"]); bag[k] = rand_text(r); ctx = baggage.set_baggage(k, bag[k], ctx)
        car = Carrier(r); _, bad = raised(lambda: car.inject(P, ctx)); h = car.get("uber-trace-id"); bh = [[cod(k[8:]), cod(v)] for k, v in car.items() if k.startswith("uberctx-")]
        ev.append({"op": "inj", "valid": valid, "tid": cod(f"{tid:032x}") if valid else [], "sid": cod(f"{sid:016x}") if valid else [], "sampled": bool(flags & 1), "raised": bad, "h": cod(h or ""), "n": len(car.items()), "bh": bh, "bag": [[cod(k), cod(v)] for k, v in bag.items()]})
        if not bad: ext(car, [cod(h)] if h is not None else [], bh, True)
        return
    tid, sid = rand_ids(r)
    def mess(x):
        if r.random() < 0.8: return x
        i = r.randrange(len(x)); return r.choice([x[:i] + r.choice("g-_ \u0661\uff11\n+x:") + x[i + 1:], x[1:], "0" + x, "f" + x, "0" * len(x), "", x + "\n", " " + x, "0x" + x, "-" + x, "1_0", "+" + x])
    s = ":".join([mess(r.choice([f"{tid:032x}", f"{tid:x}", f"{tid:X}"])), mess(r.choice([f"{sid:016x}", f"{sid:x}"])), mess(r.choice(["0", f"{sid:016x}", ""]) or "0"), mess(r.choice(["0", "1", "3", "01", "ff", "2", "9"]))] + (["1"] if r.random() < 0.05 else []))
    hs = {}
    if r.random() < 0.95: hs["uber-trace-id"] = r.choice([[s], [s], [s, "x"]])
    elif r.random() < 0.3: hs["uber-trace-id"] = []
    bh = []
    for k in r.sample(["a", "b", "uberctx-a", "z", "", "q"], r.choice([0, 0, 1, 2, 3])):
        v = r.choice(["", "1", "a%20b", "%20x%20", "a+b", " v ", "%C3%A9", "\u00e9", "%zz", "x%"]); hs["uberctx-" + k] = r.choice([[v], [v], [v, "second"], []]); 
        if hs["uberctx-" + k]: bh.append([cod(k), cod(v)])
    ext(carrier_of(r, hs), [cod(x) for x in hs.get("uber-trace-id", [])[:1]], bh, False)

CASES = {"P01": tc_case, "P02": ts_case, "P03": bag_case, "P04": b3_case, "P05": jg_case}
out = []; f = CASES[JOB["prop"]]
for i, sc in enumerate(JOB.get("scripts", [])):
    ev = []
    if JOB["prop"] in ("P02", "P03"): f(random.Random(i), ev, sc)
    else:
        for j, op in enumerate(sc["ops"]): f(random.Random(i * 7 + j), ev, op)
    out.append({"id": f"s{i}", "cfg": sc["cfg"], "ev": ev})
for seed in range(JOB.get("from", 0), JOB.get("to", 0)):
    r = random.Random(seed * 31 + 7); ev = []
    for _ in range(1 if JOB["prop"] in ("P02", "P03") else 10): f(r, ev)
    out.append({"id": f"r{seed}", "cfg": {"x": 0}, "ev": ev, "seed": seed})
finish(out)
