"""Several threads share one span (T04, concurrency)."""
from common import JOB, finish
import vt; vt.install()
import logging; logging.disable(50)
import random, threading
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor, ConcurrentMultiSpanProcessor
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.trace import Status, StatusCode

def scenario(seed):
    r = random.Random(seed * 31 + 7)
    s = vt.Sched(seed, tick=200)
    nth = r.choice([2, 2, 3]); ops = []; plan = []
    for t in range(nth):
        mine = []
        for i in range(r.randint(1, 4)):
            c = f"c{t}{i}"
            k = r.choice(["event", "event", "attr", "end", "end", "rec", "name", "status"])
            x = {"event": c, "attr": r.choice("ab"), "end": f"{1000 + t * 10 + i}", "rec": "", "name": c, "status": "ERROR"}[k]
            mine.append((c, k, x)); ops.append({"c": c, "k": k, "x": x})
        plan.append(mine)
    def main():
        starts = [0, 0]
        cell = []
        final = []
        def snap(sp, rec):
            return {"ev": [e.name for e in sp.events], "a": [[k, v] for k, v in (sp.attributes or {}).items()], "nm": sp.name,
                    "st": sp.status.status_code.name, "end": str(sp.end_time), "rec": rec}
        class P(SpanProcessor):
            def __init__(self, i): self.i = i
            def on_start(self, span, parent_context=None): starts[self.i] += 1
            def on_end(self, span):
                v = snap(span, cell[0].is_recording()); final.append(span)
                s.event(e="E", p=f"p{self.i}", v=v)
        tp = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False)
        tp.add_span_processor(P(0)); tp.add_span_processor(P(1))
        sp = tp.get_tracer("x").start_span("n0"); cell.append(sp)
        def work(mine):
            for c, k, x in mine:
                s.event(e="C", c=c); ret = False
                try:
                    if k == "event": sp.add_event(x)
                    elif k == "attr": sp.set_attribute(x, c)
                    elif k == "end": sp.end(int(x))
                    elif k == "rec": ret = sp.is_recording()
                    elif k == "name": sp.update_name(x)
                    elif k == "status": sp.set_status(StatusCode.ERROR)
                except vt.Killed: raise
                except BaseException as ex:
                    s.event(e="RAISED", what=repr(ex))
                s.event(e="R", c=c, r=ret)
        ths = [threading.Thread(target=work, args=(m,)) for m in plan]
        for t in ths: t.start()
        for t in ths: t.join()
        none = {"ev": [], "a": [], "nm": "", "st": "", "end": "", "rec": False}
        vs = [snap(x, sp.is_recording()) for x in final]
        same = all(v == vs[0] for v in vs)
        s.event(e="Q" if same else "EXPORTS-DIFFER", v=vs[0] if vs else none, starts=max(starts) if min(starts) == max(starts) else -1)
    ok = s.run(main)
    ev = s.log
    if s.aborted or not ok: ev.append({"e": "HANG", "why": str(s.aborted)})
    if s.errors: ev.append({"e": "DIED", "why": repr(s.errors)})
    return {"id": f"spanconc-{seed}", "seed": seed, "cfg": {"ops": ops}, "ev": ev}
traces = [scenario(x) for x in range(JOB["from"], JOB["to"])]
finish(traces)
