"""Runner kit: TLC runs, driver runs, trace validation, evidence, verdicts."""
import json, os, re, subprocess, sys, time, tempfile, shutil, signal, hashlib, concurrent.futures as cf

ROOT = "/verif"
REPO = "/repo"
VENV = {"pb5": "/opt/venv-pb5/bin/python", "pb3": "/opt/venv-pb3/bin/python", "api": "/opt/venv-api/bin/python"}
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class SpecError(Exception):
    pass

def clean_env(extra=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("OTEL_") and k not in ("PYTHONPATH", "PYTHONHOME", "JAVA_TOOL_OPTIONS")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", LC_ALL="C.UTF-8")
    if extra:
        env.update(extra)
    return env

def unescape(s):
    try:
        return json.loads(s)
    except Exception:
        return s

class TLC:
    """One TLC run; parses statistics, printed values and the verdict."""
    def __init__(self, module, cfg, libs=(), env=None, workers=1, heap="3g", timeout=600, extra=(), serial=True, tmp=None, dfs=False):
        self.module, self.cfg = module, cfg
        mdir = os.path.dirname(module)
        lib = ":".join([mdir, f"{ROOT}/spec/common"] + list(libs))
        self.meta = tempfile.mkdtemp(prefix="tlc", dir=tmp)
        gc = "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC"
        cmd = ["java", gc, f"-Xmx{heap}", "-Xss64m", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8", f"-DTLA-Library={lib}", f"-Djava.io.tmpdir={self.meta}"] + (["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []) + [ "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", self.meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env(env), timeout=timeout, cwd=mdir)
            self.out = p.stdout.decode("utf8", "replace"); self.rc = p.returncode
        except subprocess.TimeoutExpired as e:
            self.out = (e.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"; self.rc = -1
        finally:
            shutil.rmtree(self.meta, ignore_errors=True)
        self.wall = time.time() - t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = self.rc == 0 and "No error has been found" in self.out
        if "-simulate" in extra:
            self.ok = self.rc == 0 and "Error:" not in self.out
        self.prints = []
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                self.prints.append(unescape(line))

    def tagged(self, tag):
        return [json.loads(p[len(tag) + 1:]) for p in self.prints if isinstance(p, str) and p.startswith(tag + " ")]

class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/tmp")
        self.outdir = f"{ROOT}/out/{prop}"
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.mcs = []
        self.notes = {}
        self.viol = []            # (clause, key, detail dict)
        self.errors = []
        try:
            self.known = [k for k in json.load(open(f"{ROOT}/known_findings.json"))["findings"] if k["property"] == prop]
        except FileNotFoundError:
            self.known = []

    # -- model checking of the specification itself -----------------------
    def mc(self, module, cfg, workers=NCPU, timeout=800, heap="8g", libs=(), expect_min=2, extra=(), env=None):
        m = f"{ROOT}/spec/{module}"
        c = f"{ROOT}/spec/{cfg}"
        r = TLC(m, c, libs=libs, workers=workers, timeout=timeout, heap=heap, serial=workers == 1, tmp=self.tmp, extra=extra, env=env)
        if not r.ok or r.distinct < expect_min:
            raise SpecError(f"TLC failed on {module} {cfg}: rc={r.rc}\n{r.out[-4000:]}")
        self.states += r.distinct; self.transitions += r.generated
        self.mcs.append({"module": module, "cfg": os.path.basename(cfg), "distinct_states": r.distinct, "states_generated": r.generated, "wall_s": round(r.wall, 1)})
        return r

    def gen(self, module, cfg, libs=(), workers=1, extra=(), timeout=600, count=True, limit=None):
        """TLC-generated behaviours of the specification (operation scripts)."""
        r = TLC(f"{ROOT}/spec/{module}", f"{ROOT}/spec/{cfg}", libs=libs, workers=workers, timeout=timeout, extra=extra, tmp=self.tmp)
        if not r.ok:
            raise SpecError(f"TLC failed on {module} {cfg}: rc={r.rc}\n{r.out[-4000:]}")
        g = r.tagged("GEN")
        if not g:
            raise SpecError(f"no behaviours generated by {module} {cfg}\n{r.out[-2000:]}")
        self.states += r.distinct; self.transitions += r.generated
        self.mcs.append({"module": module, "cfg": os.path.basename(cfg), "distinct_states": r.distinct, "states_generated": r.generated, "behaviours": len(g), "wall_s": round(r.wall, 1)})
        if limit and len(g) > limit:
            import random
            g = random.Random(self.seed).sample(g, limit)
        return g

    # -- drivers -----------------------------------------------------------
    def drive(self, script, jobs, venv="pb5", timeout=400, env=None):
        """Run driver processes; each gets a JSON job file and writes {'traces': [...]}."""
        import threading
        res = [None] * len(jobs)
        def one(i):
            jf = f"{self.tmp}/job{id(jobs)}_{i}.json"; of = f"{self.tmp}/tr{id(jobs)}_{i}.json"
            json.dump(jobs[i], open(jf, "w"))
            cmd = [VENV[venv], f"{ROOT}/drivers/{script}", jf, of]
            sub = f"{self.tmp}/d{id(jobs)}_{i}"; os.makedirs(sub, exist_ok=True)
            try:
                e = dict(env or {}); e["TMPDIR"] = sub
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env(e), timeout=timeout, cwd=sub, start_new_session=True)
                rc, out = p.returncode, p.stdout.decode("utf8", "replace")
            except subprocess.TimeoutExpired as ex:
                rc, out = -1, (ex.stdout or b"").decode("utf8", "replace") + "\nDRIVER TIMEOUT"
            if rc == 0 and os.path.exists(of):
                try:
                    return json.load(open(of)), None
                except Exception as ex:
                    return None, (rc, "bad output: %r" % ex)
            return None, (rc, out[-3000:])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(one, range(len(jobs))))
        traces = []
        for i, (o, err) in enumerate(outs):
            if err is not None:
                self.violation("driver-completes", {"driver": script, "job": jobs[i], "rc": err[0], "output": err[1]},
                               key=f"driver:{script}")
                continue
            for t in o["traces"]:
                t.setdefault("driver", script); t.setdefault("venv", venv)
                traces.append(t)
            for k, v in (o.get("stats") or {}).items():
                self.notes[k] = self.notes.get(k, 0) + v
        return traces

    # -- validation --------------------------------------------------------
    def _chunks(self, traces, n):
        n = max(1, min(n, len(traces)))
        w = [0] * n; ch = [[] for _ in range(n)]
        for t in sorted(traces, key=lambda t: -len(t["ev"])):
            i = w.index(min(w)); ch[i].append(t); w[i] += len(t["ev"]) + 3
        return [c for c in ch if c]

    def validate(self, spec, traces, libs=(), jobs=None, timeout=500, clause_filter=None, keyfn=None, heap="3g"):
        """Sequential specification `spec` (area/Module defining SInit, SFails, SApply)."""
        if not traces:
            return
        area, mod = os.path.split(spec)
        tm = f"{self.tmp}/{mod}Trace.tla"
        with open(tm, "w") as f:
            f.write(f"---- MODULE {mod}Trace ----\nEXTENDS {mod}, TraceKit\n====\n")
        tc = f"{self.tmp}/{mod}Trace.cfg"
        with open(tc, "w") as f:
            f.write("SPECIFICATION KSpec\nCONSTANTS\n Init0 <- SInit\n Fails <- SFails\n Apply <- SApply\nCHECK_DEADLOCK FALSE\n")
        lib = [f"{ROOT}/spec/{area}"] + [f"{ROOT}/spec/{x}" for x in libs]
        chunks = self._chunks(traces, jobs or min(NCPU, 1 + sum(len(t["ev"]) for t in traces) // 1500))
        def one(i):
            p = f"{self.tmp}/{mod}_{i}.json"
            json.dump([{"cfg": t["cfg"], "ev": t["ev"]} for t in chunks[i]], open(p, "w"))
            return TLC(tm, tc, libs=lib, env={"TRACES": p}, timeout=timeout, tmp=self.tmp, heap=heap)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(len(chunks))))
        for ci, (ch, r) in enumerate(zip(chunks, rs)):
            if not r.ok:
                if r.rc == -1 or "Attempted to" not in r.out and "evaluat" not in r.out:
                    raise SpecError(f"TLC failed validating {spec}: rc={r.rc}\n{r.out[-5000:]}")
                # a recorded value for which the specification has no meaning: find its trace
                part = ch
                while len(part) > 1:
                    half = part[: len(part) // 2]
                    chunks[ci] = half
                    r2 = one(ci)
                    part = half if not r2.ok else part[len(part) // 2:]
                    r = r2 if not r2.ok else r
                self.violation("outside-of-the-specification", {"trace": part[0], "event": part[0]["ev"][-1:], "spec": spec, "tlc": r.out[-3000:]})
                continue
            self.transitions += r.generated
            bad = {}
            for b in r.tagged("BAD"):
                bad.setdefault(b["ti"], b)
            want = sum(len(t["ev"]) + 1 for i, t in enumerate(ch, 1) if i not in bad) + sum(b["l"] + 1 for b in bad.values())
            if r.distinct != want:
                raise SpecError(f"{spec}: {r.distinct} states, expected {want}\n{r.out[-3000:]}")
            self.states += r.distinct
            self.traces += len(ch)
            for i, b in bad.items():
                t = ch[i - 1]
                cl = sorted(b["clauses"])
                ev = t["ev"][b["l"] - 1]
                self.violation("+".join(cl), {"trace": t, "position": b["l"], "event": ev, "clauses": cl, "spec": spec},
                               key=(keyfn(t, ev, cl) if keyfn else None))
        self.events += sum(len(t["ev"]) for t in traces)
        self._sample(traces)

    def _sample(self, traces, k=2):
        for t in (traces[: 1] + traces[len(traces) // 2: len(traces) // 2 + 1])[:k]:
            if len(self.samples) < 6:
                x = {"cfg": t["cfg"], "ev": t["ev"][:40], "from": {k: t[k] for k in ("seed", "id", "driver") if k in t}}
                if len(json.dumps(x)) > 6000:
                    x["ev"] = x["ev"][:8]
                if len(json.dumps(x)) < 20000:
                    self.samples.append(x)

    def validate_nd(self, spec, cfgfile, traces, libs=(), jobs=None, timeout=700, explain=None, heap="3g"):
        """Nondeterministic trace specification (area/ModuleTrace): the module has
        variables ti, l, registers max l per trace with TLCSet(ti, l) and prints DONE."""
        if not traces:
            return
        area, mod = os.path.split(spec)
        lib = [f"{ROOT}/spec/{x}" for x in libs]
        chunks = self._chunks(traces, jobs or min(NCPU, 1 + len(traces) // 10))
        def one(i):
            p = f"{self.tmp}/{mod}_{i}.json"
            json.dump([{"cfg": t["cfg"], "ev": t["ev"]} for t in chunks[i]], open(p, "w"))
            return TLC(f"{ROOT}/spec/{spec}.tla", f"{ROOT}/spec/{area}/{cfgfile}", libs=lib, env={"TRACES": p}, timeout=timeout, tmp=self.tmp, heap=heap, dfs=True)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            rs = list(ex.map(one, range(len(chunks))))
        for ch, r in zip(chunks, rs):
            if not r.ok:
                raise SpecError(f"TLC failed validating {spec}: rc={r.rc}\n{r.out[-5000:]}")
            self.states += r.distinct; self.transitions += r.generated; self.traces += len(ch)
            got = r.tagged("MAXL")
            if len(got) != 1 or len(got[0]) != len(ch):
                raise SpecError(f"{spec}: no MAXL register print\n{r.out[-3000:]}")
            for t, m in zip(ch, got[0]):
                if m != len(t["ev"]) + 1:
                    ev = t["ev"][m - 1]
                    cl = explain(t, m, ev) if explain else "event-not-allowed:" + str(ev.get("e"))
                    self.violation(cl, {"trace": t, "position": m, "event": ev, "spec": spec})
        self.events += sum(len(t["ev"]) for t in traces)
        self._sample(traces)

    # -- verdict -----------------------------------------------------------
    def violation(self, clause, detail, key=None):
        self.viol.append((clause, key or clause, detail))

    def finish(self):
        for sub in ("evidence", "out"):
            os.makedirs(f"{ROOT}/{sub}", exist_ok=True)
        shutil.rmtree(self.outdir, ignore_errors=True)
        new, hit, seen = [], {}, {}
        for clause, key, d in self.viol:
            k = next((x for x in self.known if x["key"] == key), None)
            if k is not None:
                hit[k["key"]] = k
                continue
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2 and len(new) < 20:
                new.append((clause, key, d))
        for k in self.known:
            if k["key"] in hit:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "model_runs": self.mcs, "samples": self.samples or [{"none": True}]}
        cov.update({f"count_{k}": v for k, v in self.notes.items()})
        cov["violations"] = sum(seen.values()); cov["known_findings_seen"] = len(hit)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        json.dump(ev, open(f"{ROOT}/evidence/{self.prop}.json", "w"), indent=1)
        if new:
            os.makedirs(self.outdir, exist_ok=True)
        for n, (clause, key, d) in enumerate(new):
            path = f"{self.outdir}/replay-{n}.json"
            json.dump({"property": self.prop, "clause": clause, **d}, open(path, "w"), indent=1, default=str)
            print(f"  {clause}: {json.dumps(d.get('event') or d.get('output') or '', default=str)[:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.prop} {ev['tier']}: states={self.states} transitions={self.transitions} traces={self.traces} events={self.events} violations={cov['violations']} wall={ev['wall_s']}s {self.notes}")
        sys.stdout.flush()
        return 1 if new else 0
