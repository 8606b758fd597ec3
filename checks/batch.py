WHY = {"X": "export-call-not-allowed (wrong batch, order, duplicate, overlap, late or after shutdown)", "R": "end-returned-without-accepting",
       "FR": "flush-result-breaks-promise", "SR": "shutdown-returned-too-early", "XS": "exporter-shut-down-too-early", "Q": "item-not-exported-in-time",
       "HANG": "call-hangs", "RAISED": "exception-in-application", "THREAD-DIED": "worker-thread-died", "KEPT": "handed-batch-changed-afterwards", "C": "end-call", "XR": "export-end"}
def explain(t, m, ev):
    return WHY.get(ev["e"], ev["e"])

def jobs(kind, mode, n, base, per=None):
    k = 8
    step = (n + k - 1) // k
    return [{"kind": kind, "mode": mode, "from": base + i * step, "to": base + min(n, (i + 1) * step)} for i in range(k) if i * step < n]

def run(c, kind, plan):
    for cfg in (["MCBatch_quick.cfg", "MCBatch_live.cfg"] if c.quick else ["MCBatch_quick.cfg", "MCBatch_live.cfg", "MCBatch_deep.cfg"]):
        c.mc("batch/MCBatch.tla", "batch/" + cfg)
    tr = []
    for mode, n in plan:
        tr += c.drive("batch.py", jobs(kind, mode, n if c.quick else n * 25, c.seed * 1_000_000 + len(mode) * 50_000))
    c.validate_nd("batch/BatchTrace", "BatchTrace.cfg", tr, explain=explain)

def t01(c): run(c, "span", [("deliver", 500)])
def t02(c): run(c, "span", [("flush", 500), ("join", 400)])
def t03(c): run(c, "span", [("timed", 500), ("burst", 300)])
def l01(c): run(c, "log", [("deliver", 250), ("flush", 250), ("timed", 200), ("join", 160), ("burst", 120)])
