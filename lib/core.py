"""
Common machinery: environment, encoding of observations, TLC runs, verdicts,
known findings and evidence.
"""
import concurrent.futures
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NNL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
MODELS = os.path.join(VERIF, "models")
JAR = "/opt/veriftools/tla/tla2tools.jar"
OUT = os.environ.get("NNL_OUT", VERIF)  # where out/ and evidence/ go
K = 4096

for p in (REPO, os.path.join(VERIF, "shim")):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)


def brief(out):
    """TLC's messages without the list of files it read."""
    return "\n".join(q for q in out.splitlines() if q.strip() and not
                     q.startswith(("Parsing", "Semantic", "Linting")))[-2500:]


class MachineryError(Exception):
    pass


# ------------------------------------------------------------- encodings
def num(x):
    if hasattr(x, "detach"):
        x = x.detach()
    if hasattr(x, "item"):
        x = x.item()
    return x


def R(x):
    """An exact small rational as [n, d] (inputs, and exact results)."""
    x = num(x)
    if isinstance(x, float) and not math.isfinite(x):
        return [123456789, 1]
    f = Fraction(x)
    if abs(f.numerator) >= 2**30 or f.denominator >= 2**30:
        return tick_rat(x)
    return [f.numerator, f.denominator]


def tick_rat(x):
    f = Fraction(tick(x), K)
    return [f.numerator, f.denominator]


def tick(x):
    """A float in units of 1/4096, saturating; NaN is a sentinel."""
    x = num(x)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        x = float(x)
    if not isinstance(x, float):
        return 1999999999
    if math.isnan(x):
        return 1999999999
    if x > 400000.:
        return 400000 * K
    if x < -400000.:
        return -400000 * K
    return int(round(x * K))


def _map(f, x):
    if hasattr(x, "detach"):
        x = x.detach().cpu().tolist()
    elif hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [_map(f, y) for y in x]
    return f(x)


def RV(x):
    return _map(R, x)


def TV(x):
    return _map(tick, x)


def snap(xs, den=600):
    """Solver output as exact rationals (vertices are), and a tolerance."""
    out, tol = [], 6
    for x in (xs.detach().tolist() if hasattr(xs, "detach") else xs):
        x = float(num(x))
        f = Fraction(x).limit_denominator(den)
        if abs(float(f) - x) < 2e-8:
            out.append([f.numerator, f.denominator])
        else:
            out.append(tick_rat(x))
            tol = 60
    return out, tol


def exc_in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------ TLC
def run_tlc(module, cfg, env=None, workers=1, timeout=850, extra=(),
            xmx="3g", meta=None):
    meta = meta or os.path.join("/tmp", "tlcmeta_%d_%d" %
                                (os.getpid(), random.getrandbits(40)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else
           "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss64m",
           "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
           "-cp", JAR + ":" + "/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(module), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode() if isinstance(
            ex.stdout, bytes) else (ex.stdout or "")
        rc = -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    gen = dist = 0
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", out):
        gen = int(m.group(1).replace(",", ""))
        dist = int(m.group(2).replace(",", ""))
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist,
            "wall": time.time() - t0}


class Check:
    """One property's check run."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        # Further workers draw other samples; the first one also checks the
        # design models, and gathers what the others saw.
        self.worker = int(os.environ.get("NNL_WORKER", "0"))
        self.workers = int(os.environ.get("NNL_WORKERS",
                                          "1" if self.thorough else "3"))
        self.rng = random.Random("%s/%d" % (pid, self.seed) + (
            "/%d" % self.worker if self.worker else ""))
        self.seed += 1000 * self.worker
        self.dir = os.path.join(OUT, "out", pid)
        if self.worker:
            self.dir = os.path.join(self.dir, "w%d" % self.worker)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.replayed = 0
        self.samples = []
        self.problems = []  # (key, clause list, replay path, detail)
        self.assumptions = []
        self.notes = {}
        self._tid = 0
        self.budget = 800.
        self._pending = []
        self._pool = concurrent.futures.ThreadPoolExecutor(
            6 if self.workers == 1 else 3)
        self._others = []
        if not self.worker:
            for k in range(1, self.workers):
                with open(os.path.join(self.dir, "w%d.log" % k), "w") as f:
                    self._others.append(subprocess.Popen(
                        [sys.executable] + sys.argv, stdout=f, stderr=f,
                        env=dict(os.environ, NNL_WORKER=str(k))))

    def gather(self):
        """What the other workers saw."""
        lost = 0
        for k, p in enumerate(self._others, 1):
            try:
                p.wait(timeout=max(1., self.left()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            f = os.path.join(self.dir, "w%d" % k, "summary.json")
            if p.returncode != 0 or not os.path.exists(f):
                lost += 1
                continue
            o = json.load(open(f))
            self.states += o["states"]
            self.transitions += o["transitions"]
            self.traces += o["traces"]
            self.events += o["events"]
            self.replayed += o["replayed"]
            self.problems += [tuple(q) for q in o["problems"]]
        if self.workers > 1:
            self.notes["workers"] = self.workers
        if lost:
            print("  %d of %d workers gave no answer" % (lost, self.workers))
            self.notes["workers_lost"] = lost

    def summarise(self):
        self.drain()
        with open(os.path.join(self.dir, "summary.json"), "w") as f:
            json.dump({"states": self.states,
                       "transitions": self.transitions,
                       "traces": self.traces, "events": self.events,
                       "replayed": self.replayed,
                       "problems": self.problems}, f)
        return 0

    # number of random repetitions
    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -------------------------------------------------- model checking
    def model(self, module, cfg=None, workers=4, must_hold=True, extra=(),
              timeout=600, env=None, wait=True, always=False):
        """Exhaustive TLC run of a design model in /verif/models."""
        if self.worker and not always:
            return None
        mod = os.path.join(MODELS, module + ".tla")
        cfgp = os.path.join(MODELS, (cfg or module) + ".cfg")
        full = os.path.join(MODELS, (cfg or module) + "_full.cfg")
        if self.thorough and os.path.exists(full):
            cfgp = full

        def job():
            r = run_tlc(mod, cfgp, workers=workers, extra=extra,
                        timeout=timeout, env=env)
            if must_hold and r["rc"] != 0:
                raise MachineryError("model %s/%s: rc %d\n%s" %
                                     (module, cfg, r["rc"], brief(r["out"])))
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.notes.setdefault("models", []).append(
                {"model": cfg or module, "states": r["distinct"],
                 "generated": r["generated"], "wall_s": round(r["wall"], 1)})
            return r

        if wait:
            return job()
        self._pending.append((None, self._pool.submit(job)))

    def generate(self, module, cfg=None, extra=(), timeout=300, workers=1,
                 env=None):
        """Behaviours printed by a generating model: lines 'BEH <json>'."""
        outp = os.path.join(self.dir, (cfg or module) + ".beh.ndjson")
        if os.path.exists(outp):
            os.remove(outp)
        e = {"OUT": outp, "GSEED": str(self.seed)}
        e.update(env or {})
        r = self.model(module, cfg, workers=workers, extra=extra,
                       timeout=timeout, env=e, always=True)
        behs = []
        seen = set()
        for line in r["out"].splitlines():
            m = re.match(r'^"BEH (.*)"$', line.strip())
            if m:
                s = m.group(1).encode().decode("unicode_escape")
                if s not in seen:
                    seen.add(s)
                    behs.append(json.loads(s))
        if not behs:
            raise MachineryError("no behaviours generated by %s\n%s" %
                                 (module, r["out"][-2000:]))
        return behs

    # ------------------------------------------------ trace validation
    def trace(self, module, events, label="t", wait=False):
        """Validate the recorded events against spec/<module>.tla."""
        if not events:
            raise MachineryError("empty trace " + label)
        self._tid += 1
        base = os.path.join(self.dir, "%s_%03d_%s" % (module, self._tid,
                                                      label))
        with open(base + ".ndjson", "w") as f:
            for ev in events:
                f.write(json.dumps(ev) + "\n")
        self.traces += 1
        self.events += len(events)
        if len(self.samples) < 6:
            s = json.dumps(events[min(1, len(events) - 1)])
            self.samples.append(json.loads(s) if len(s) < 1500 else
                                s[:1500])

        def job():
            verdict = base + ".verdict.json"
            cfg = os.path.join(SPEC, "Trace.cfg")
            r = run_tlc(os.path.join(SPEC, module + ".tla"), cfg,
                        env={"TRACE": base + ".ndjson", "VERDICT": verdict},
                        timeout=800)
            return r, verdict

        self._pending.append(((module, base, events),
                              self._pool.submit(job)))
        if wait:
            self.drain()

    def stateless(self, module, events, parts=None, label="p"):
        """Independent steps: several TLC runs in parallel."""
        parts = parts or (6 if self.workers == 1 else 3)
        n = max(60, -(-len(events) // parts))
        for k in range(0, len(events), n):
            self.trace(module, events[k:k + n], label)

    def sessions(self, module, sessions, size=3000, label="s"):
        """Traces made of whole sessions, several per TLC run."""
        cur = []
        for s in sessions:
            if cur and len(cur) + len(s) > size:
                self.trace(module, cur, label)
                cur = []
            cur = cur + s
        if cur:
            self.trace(module, cur, label)

    def drain(self):
        pend, self._pending = self._pending, []
        for info, fut in pend:
            res = fut.result()
            if info is None:
                continue
            module, base, events = info
            r, verdict = res
            self.states += r["distinct"]
            self.transitions += r["generated"]
            if os.path.exists(verdict) and r["rc"] == 0:
                v = json.load(open(verdict))
                if v["n"] != len(events):
                    raise MachineryError("trace length mismatch " + base)
                for idx, clauses in v["bad"]:
                    ev = events[idx - 1]
                    self.problem(ev.get("key", ev.get("op", "?")),
                                 sorted(clauses), base + ".ndjson#%d" % idx,
                                 json.dumps(ev)[:2000])
            else:
                out = r["out"]
                open(base + ".tlc.log", "w").write(out)
                m = re.findall(r"/\\ i = (\d+)", out)
                if "Finished computing initial states" in out and m and (
                        "Evaluating" in out or "evaluat" in out
                        or "Overflow" in out or "overflow" in out
                        or "Attempted" in out):
                    # The specification cannot even evaluate the observed
                    # step: the observation is outside its shape.
                    idx = int(m[-1])
                    ev = events[min(idx, len(events)) - 1]
                    self.problem(ev.get("key", ev.get("op", "?")),
                                 ["unevaluable-observation"],
                                 base + ".ndjson#%d" % idx,
                                 json.dumps(ev)[:2000] + out[-1500:])
                else:
                    raise MachineryError("TLC failed on %s (rc %s)\n%s" %
                                         (base, r["rc"], brief(out)))

    def problem(self, key, clauses, replay, detail=""):
        self.problems.append((key, list(clauses), replay, detail))

    def replay_file(self, name, obj):
        p = os.path.join(self.dir, name + ".json")
        with open(p, "w") as f:
            json.dump(obj, f)
        return p

    # ----------------------------------------------------------- finish
    def finish(self):
        if self.worker:
            return self.summarise()
        self.drain()
        self.gather()
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"]
                     if k["property"] == self.pid]
        fresh, hit = [], {}
        for (key, clauses, replay, detail) in self.problems:
            rest = []
            for c in clauses:
                m = [k for k in known if k["key"] == key and k["clause"] == c]
                if m:
                    hit[m[0]["key"] + "/" + m[0]["clause"]] = m[0]
                else:
                    rest.append(c)
            if rest:
                fresh.append((key, rest, replay, detail))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.replayed,
               "samples": self.samples[:6] or ["none"],
               "events_checked": self.events}
        if self.replayed:
            cov["behaviours_replayed_into_impl"] = self.replayed
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.pid + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        shown = {}
        for (key, clauses, replay, detail) in fresh:
            w = (key, ",".join(clauses))
            shown[w] = shown.get(w, 0) + 1
            if shown[w] == 1 and len(shown) <= 8:
                print("  broken: key=%s clauses=%s at %s" % (w + (replay,)))
                print("          " + detail[:400])
        for w in shown:
            print("  %d x key=%s clauses=%s" % ((shown[w],) + w))
        if fresh:
            print("VIOLATION property=%s replay=%s" % (self.pid, fresh[0][2]))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d events=%d "
              "replayed=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces,
               self.events, self.replayed, time.time() - self.t0))
        return 0


def main(pid, fn):
    ck = Check(pid)
    try:
        try:
            fn(ck)
        except MachineryError:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if isinstance(e, (MemoryError, OSError)):
                raise
            # The code under test raised, or returned something of a shape
            # the harness cannot even record; neither happens on the tree
            # the specification describes.
            tb = traceback.format_exc()
            p = os.path.join(ck.dir, "exception.txt")
            open(p, "w").write(tb)
            ck.problem("exception", ["code-under-test-raised"
                                     if exc_in_repo(e) else
                                     "unrecordable-observation"], p,
                       tb[-1500:])
            try:
                ck.drain()
            except Exception:
                pass
        rc = ck.finish()
    except BaseException:
        for p in ck._others:
            p.kill()
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % pid)
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
