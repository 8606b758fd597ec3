from common import JOB, finish
import os, random, logging; logging.disable(50)
from opentelemetry.sdk.trace import SpanLimits
ENV = {"attributes": "OTEL_ATTRIBUTE_COUNT_LIMIT", "events": "OTEL_SPAN_EVENT_COUNT_LIMIT", "links": "OTEL_SPAN_LINK_COUNT_LIMIT",
       "span_attributes": "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "event_attributes": "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "link_attributes": "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT",
       "attribute_length": "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", "span_attribute_length": "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT"}
traces = []
for seed in range(JOB["from"], JOB["to"]):
    r = random.Random(seed); ev = []
    for _ in range(12):
        bad = r.random() < 0.25
        def arg(n):
            x = r.random()
            if x < 0.55: return "u"
            if n != "attributes" and x < 0.65: return "n"
            return r.choice(["0", "1", "7", "64", "200"] + (["-5"] if bad else []))
        def env(n):
            x = r.random()
            if x < 0.5: return "u"
            if n != "attributes" and x < 0.6: return "n"
            return r.choice(["0", "3", "9", "127", "500"] + (["-1", "abc", "1.5"] if bad else []))
        a = {n: arg(n) for n in ENV}; v = {n: env(n) for n in ENV}
        for n, k in ENV.items():
            os.environ.pop(k, None)
            if v[n] != "u": os.environ[k] = r.choice(["", "  "]) if v[n] == "n" else r.choice(["%s", " %s", "%s "]) % v[n]
        kw = {"max_" + n: (SpanLimits.UNSET if x == "n" else int(x)) for n, x in a.items() if x != "u"}
        out = {"raised": "", "v": {}}
        try:
            l = SpanLimits(**kw)
            out["v"] = {n: ("n" if getattr(l, "max_" + n) is None else str(getattr(l, "max_" + n))) for n in ENV}
        except Exception as ex:
            out["raised"] = type(ex).__name__
        ev.append({"arg": a, "env": v, "out": out})
    traces.append({"id": f"limits-{seed}", "seed": seed, "cfg": {}, "ev": ev})
finish(traces)
