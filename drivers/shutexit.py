"""Scripts with real interpreter exits in forked children (G02)."""
from common import JOB, finish
import sys; sys.path.insert(0, "/verif/drivers")
import os, json, random, tempfile, time, select, signal
from shutcommon import World
def child(fd, cfg, ops, seed):
    r = random.Random(seed); w = World(cfg, r, lambda k: os.write(fd, (json.dumps(k) + "\n").encode()))
    for o in ops:
        if o["op"] == "add": w.add(o["raises"])
        elif o["op"] == "shut": w.shut()
        elif o["op"] == "use":
            for _ in range(r.choice([1, 3])): w.use(True)
        else: break
    w.provider(); w.log(op="exit")
def run(k, cfg, ops, seed):
    rd, wr = os.pipe(); pid = os.fork()
    if pid == 0:
        os.close(rd); dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
        return (wr, cfg, ops, seed)
    os.close(wr); buf = b""; end = time.time() + 40; hung = False
    while True:
        if not select.select([rd], [], [], max(0, end - time.time()))[0]: hung = True; os.kill(pid, signal.SIGKILL); break
        b = os.read(rd, 65536)
        if not b: break
        buf += b
    os.close(rd); os.waitpid(pid, 0)
    ev = [json.loads(x) for x in buf.decode().splitlines()]
    if hung: ev.append({"op": "fail", "what": "hang-at-exit"})
    elif not any(e["op"] == "exit" for e in ev): ev.append({"op": "fail", "what": "died"})
    ev.append({"op": "final"})
    return {"id": f"exit-{k}", "cfg": cfg, "ev": ev, "seed": seed}
tr = []; kid = None
for k, g in enumerate(JOB["scripts"]):
    t = run(k, g["cfg"], g["ops"], JOB.get("seed", 0) * 1000 + k)
    if isinstance(t, tuple): kid = t; break
    tr.append(t)
    if any(e["op"] == "fail" for e in t["ev"]) and t["ev"][-2].get("what") == "hang-at-exit": break
if kid is None: finish(tr)
else: child(*kid)       # and leave the interpreter by its normal way
