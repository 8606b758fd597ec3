"""Concurrent shutdowns, uses and flushes of a provider under the virtual scheduler (G02)."""
from common import JOB, finish
import vt; vt.install()
import sys; sys.path.insert(0, "/verif/drivers")
import random, threading, gc
gc.disable()     # executors that are collected wake their threads, which must not happen in another execution
from shutcommon import World
def run(seed):
    r = random.Random(seed * 19 + 7); s = vt.Sched(seed, early_timer=0.0) if seed % 4 else vt.Sched(seed, strategy="seq", early_timer=0.0)
    cfg = {"sig": r.choice(["trace", "metrics", "logs"]), "multi": r.choice(["seq", "seq", "conc"]), "onexit": False, "disabled": r.random() < 0.15}; ev = []
    def main():
        w = World(cfg, r, ev.append)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])): w.add(r.random() < 0.3, r.choice([0, 0, 0.3, 5, 20]))
        w.provider(); tmo = r.choice([None, None, 100, 10000])
        for _ in range(r.randint(0, 4)): w.use()
        def go(n):
            for _ in range(n): w.use(True) if r.random() < 0.85 else w.flush()
        th = [threading.Thread(target=w.shut, args=(tmo,)) for _ in range(r.choice([1, 2, 2, 3]))] + [threading.Thread(target=go, args=(r.randint(1, 4),)) for _ in range(r.choice([0, 1, 1, 2]))]
        r.shuffle(th)
        for t in th:
            t.start()
            if not seed % 4: t.join()
        for t in th: t.join()
        for _ in range(r.randint(0, 3)): w.use(True)
        if r.random() < 0.3: w.shut()
        if cfg["sig"] != "metrics" or True: w.log(op="final")
    s.run(main)
    if s.aborted: ev.append({"op": "fail", "what": "hang:" + str(s.aborted)})
    if s.errors: ev.append({"op": "fail", "what": "died:" + repr(s.errors)[:300]})
    return {"id": f"vt-{seed}", "cfg": cfg, "ev": ev, "seed": seed}
tr = []
for x in range(JOB["from"], JOB["to"]):
    tr.append(run(x)); gc.collect()
    if any(e["op"] == "fail" for e in tr[-1]["ev"]): break
finish(tr)
