"""Runs a property's check: seeded runs over worker processes, minimisation,
replay file, known findings, evidence."""
import collections
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from dst.minimise import minimise

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


class Worker:
    def __init__(self, module, env, cpu, wall, scratch):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(env.get("hashseed", 0))
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        # never read bytecode left beside the sources: point at an empty prefix
        e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
        e["PYTHONPATH"] = VERIF
        e["TMPDIR"] = scratch
        e["VERIF_SCRATCH"] = scratch
        e["LC_ALL"] = "C.UTF-8"
        self.p = subprocess.Popen(
            [PY, "-m", "dst.worker", module, str(cpu), str(wall), json.dumps(env)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=scratch, env=e,
            text=True, bufsize=1, start_new_session=True)
        self.lock = threading.Lock()

    def wait_ready(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died while starting")
        m = json.loads(line)
        if not m["ready"]:
            raise RuntimeError("worker setup failed:\n" + m["error"])

    def run(self, job):
        with self.lock:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()


def seed_for(base, pid, label, i):
    h = hashlib.sha256(f"{base}/{pid}/{label}/{i}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def load_known():
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


class Check:
    def __init__(self, pid, spec, tier, seed, nworkers=8, runs_scale=None, budget=None):
        self.pid, self.spec, self.tier, self.seed = pid, spec, tier, seed
        self.nworkers = nworkers
        self.scale = runs_scale
        self.budget = budget or (spec.get("quick_budget", 240) if tier == "quick" else spec.get("thorough_budget", 3000))
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.known = [k for k in load_known() if k.get("property") == pid and "key" in k]
        self.t0 = time.monotonic()

    # ------------------------------------------------------------------
    def plan(self):
        """Interleave the legs so a cut-off still covers every leg."""
        legs = []
        for leg in self.spec["legs"]:
            n = leg["quick"] if self.tier == "quick" else leg.get("thorough", leg["quick"] * 20)
            if self.scale:
                n = max(1, int(n * self.scale))
            batch = leg.get("batch", 1)
            label = json.dumps(leg["params"], sort_keys=True)
            more = {k: v for k, v in leg.get("env", {}).items() if k in ("optimized", "hashseed")}
            if more:
                label += json.dumps(more, sort_keys=True)
            jobs = []
            for a in range(0, n, batch):
                seeds = [seed_for(self.seed, self.pid, label, i) for i in range(a, min(n, a + batch))]
                jobs.append({"params": leg["params"], "env": leg.get("env", {}), "seeds": seeds})
            legs.append(jobs)
        order = []
        for li, jobs in enumerate(legs):
            for j, job in enumerate(jobs):
                order.append(((j + 0.5) / len(jobs), li, j, job))
        order.sort(key=lambda t: t[:3])
        jobs = [t[3] for t in order]
        for i, j in enumerate(jobs):
            j["id"] = i
        return jobs

    def run(self):
        jobs = self.plan()
        byenv = collections.OrderedDict()
        for j in jobs:
            byenv.setdefault(json.dumps(j["env"], sort_keys=True), []).append(j)
        results = {}
        self.violation = None
        self.errors = []
        self.known_hits = {}
        stop = threading.Event()
        lock = threading.Lock()
        total = sum(len(v) for v in byenv.values())
        # workers per env proportional to job count
        alloc = {}
        for k, v in byenv.items():
            alloc[k] = max(1, round(self.nworkers * len(v) / total))
        threads = []
        module = self.spec["module"]
        cpu, wall = self.spec.get("cpu", 90), self.spec.get("wall", 300)

        def serve(envkey, q):
            w = None
            try:
                w = Worker(module, json.loads(envkey), cpu, wall, self.scratch)
                w.wait_ready()
                while not stop.is_set():
                    try:
                        job = q.get_nowait()
                    except queue.Empty:
                        break
                    if time.monotonic() - self.t0 > self.budget:
                        break
                    res = w.run({k: job[k] for k in ("id", "params", "seeds")})
                    with lock:
                        results[job["id"]] = res
                        self.inspect(job, res, stop)
            except Exception as e:  # noqa
                with lock:
                    self.errors.append(f"worker: {e}")
                stop.set()
            finally:
                if w:
                    w.close()

        for envkey, js in byenv.items():
            q = queue.Queue()
            for j in js:
                q.put(j)
            for _ in range(alloc[envkey]):
                t = threading.Thread(target=serve, args=(envkey, q))
                t.start()
                threads.append(t)
        for t in threads:
            t.join()
        self.results, self.jobs = results, jobs
        self.explore_s = time.monotonic() - self.t0
        return self.finish()

    # ------------------------------------------------------------------
    def match_known(self, run):
        for k in self.known:
            if run.get("key") == k["key"]:
                return k
        return None

    def inspect(self, job, res, stop):
        if "error" in res:
            self.errors.append(res["error"])
            stop.set()
            return
        if "died" in res:
            d = {"status": "died", "kind": "no-termination" if res["died"] == "cpu" else res["died"],
                 "message": f"run ended by {res['died']} limit/signal", "seed": res["at_seed"]}
            self.note(job, d, stop)
            return
        for run in res["runs"]:
            for k, what in run.get("known", []):
                self.known_hits[k] = what
            if run["status"] == "violation":
                k = self.match_known(run)
                if k:
                    self.known_hits[k["key"]] = k["what"]
                else:
                    self.note(job, run, stop)
            elif run["status"] in ("harness", "overrun"):
                self.errors.append(f"seed {run['seed']} params {job['params']}: " + run.get("message", run["status"]))
                if len(self.errors) > 3:
                    stop.set()

    def note(self, job, run, stop):
        cand = (job["id"], job, run)
        if self.violation is None or cand[0] < self.violation[0]:
            self.violation = cand
        stop.set()

    # ------------------------------------------------------------------
    def finish(self):
        rc = 0
        self.determinism = None
        for k in self.known:
            if k["key"] in self.known_hits:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violation is None and self.errors == [] and self.spec.get("determinism", True):
            self.check_determinism()
        if self.violation is not None:
            rc = self.report()
        elif self.errors:
            print(f"HARNESS-ERROR property={self.pid}", file=sys.stderr)
            for e in self.errors[:3]:
                print(e, file=sys.stderr)
            rc = 2
        self.evidence()
        shutil.rmtree(self.scratch, ignore_errors=True)
        return rc

    def check_determinism(self):
        """Re-run a sample in fresh interpreters under another hash seed and
        another worker count and compare event-log digests."""
        n = 4 if self.tier == "quick" else 64
        sample = [j for j in self.jobs if j["id"] in self.results][:: max(1, len(self.jobs) // n)][:n]
        byenv = collections.OrderedDict()
        for j in sample:
            byenv.setdefault(json.dumps(j["env"], sort_keys=True), []).append(j)
        same = diff = 0
        module = self.spec["module"]
        jobs_todo = []

        def go(envkey, js, hs, outl):
            env = dict(json.loads(envkey))
            env["hashseed"] = hs
            w = Worker(module, env, self.spec.get("cpu", 90), self.spec.get("wall", 300), self.scratch)
            try:
                w.wait_ready()
                for j in js:
                    outl.append((j, w.run({"id": j["id"], "params": j["params"], "seeds": j["seeds"][:3]})))
            finally:
                w.close()

        outs = []
        ths = []
        for envkey, js in byenv.items():
            for part in (js[::2], js[1::2]):
                if part:
                    th = threading.Thread(target=go, args=(envkey, part, 4242 + len(ths), outs))
                    th.start()
                    ths.append(th)
        for th in ths:
            th.join()
        bad = None
        for j, res in sorted(outs, key=lambda t: t[0]["id"]):
            a = self.results[j["id"]]["runs"]
            for x, y in zip(a, res.get("runs", [])):
                if x["digest"] == y["digest"]:
                    same += 1
                else:
                    diff += 1
                    bad = bad or (j, x, y)
        self.determinism = {"reruns": same + diff, "identical": same, "different": diff}
        if diff:
            j, x, y = bad
            if self.spec.get("nondeterminism_is_violation"):
                self.violation = (j["id"], j, {
                    "status": "violation", "kind": "nondeterministic-execution", "seed": x["seed"],
                    "message": "same seed, same inputs, different hash seed: different observable log"})
            else:
                self.errors.append(f"nondeterminism: seed {x['seed']} params {j['params']} {x['digest']} {y['digest']}")

    def report(self):
        jid, job, run = self.violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{self.pid}-{self.tier}-{run.get('seed')}.json")
        doc = {"property": self.pid, "tier": self.tier, "base_seed": self.seed, "seed": run.get("seed"),
               "params": job["params"], "env": job["env"], "kind": run["kind"], "message": run.get("message"),
               "minimised": False}
        if run.get("choices") is not None:
            doc["choices"] = run["choices"]
            doc["log"] = run.get("log", [])[-200:]
            try:
                self.shrink(job, run, doc)
            except Exception as e:  # noqa
                doc["minimise_error"] = repr(e)
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print(f"{self.pid}: {doc['kind']}: {doc['message']}")
        if doc.get("log"):
            print("--- schedule and fault trace of the minimised run ---")
            for line in doc["log"][-60:]:
                print("   ", line[:300])
        print(f"VIOLATION property={self.pid} replay={path}")
        self.replay_doc = doc
        return 1

    def shrink(self, job, run, doc):
        w = Worker(self.spec["module"], job["env"], self.spec.get("cpu", 90), self.spec.get("wall", 300), self.scratch)
        w.wait_ready()
        tried = [0]
        before = []
        try:
            def test(values):
                tried[0] += 1
                res = w.run({"id": 0, "params": job["params"], "prefix": values, "detail": True, "before": before})
                for r in res.get("runs", []):
                    if r["status"] == "violation" and r["kind"] == run["kind"] and r.get("key") == run.get("key"):
                        return r["choices"], [tuple(s) for s in r["spans"]]
                return None
            limit = 25 if self.tier == "quick" else 240
            if test(run["choices"]) is None:
                # it needs what earlier runs left behind in the process (state that should not outlive its owner)
                earlier = job["seeds"][:job["seeds"].index(run["seed"])]
                for b in [[x] for x in reversed(earlier)] + [earlier]:
                    before = b
                    if b and test(run["choices"]) is not None:
                        break
                else:
                    doc["reproduced"] = False
                    return
                doc["before"] = before
            best, _ = minimise(run["choices"], [tuple(s) for s in run["spans"]], test, time.monotonic() + limit)
            # confirm in a fresh process
            w2 = Worker(self.spec["module"], job["env"], self.spec.get("cpu", 90), self.spec.get("wall", 300), self.scratch)
            w2.wait_ready()
            try:
                res = w2.run({"id": 0, "params": job["params"], "prefix": best, "detail": True, "before": before})
            finally:
                w2.close()
            r = (res.get("runs") or [{}])[0]
            if r.get("status") == "violation" and r["kind"] == run["kind"]:
                doc.update(choices=best, minimised=True, original_choices=len(run["choices"]),
                           minimise_attempts=tried[0], reproduced=True, message=r["message"],
                           digest=r["digest"], log=r["log"][-200:])
        finally:
            w.close()

    # ------------------------------------------------------------------
    def evidence(self):
        agg = {"faults": collections.Counter(), "probes": collections.Counter(), "counters": collections.Counter()}
        states = set()
        digests = set()
        evals = nontriv = 0
        sim_time = 0.0
        samples = []
        perleg = collections.Counter()
        for i, j in enumerate(self.jobs):
            res = self.results.get(j["id"])
            if not res:
                continue
            states.update(res.get("states", []))
            for r in res["runs"]:
                evals += 1
                perleg[json.dumps(j["params"], sort_keys=True)] += 1
                sim_time += r["sim_time"]
                for k in agg:
                    agg[k].update(r[k])
                if r["nontrivial"] and r["digest"] not in digests:
                    nontriv += 1
                digests.add(r["digest"])
                if r.get("sample") is not None and len(samples) < 4:
                    samples.append({"seed": r["seed"], "params": j["params"], "case": r["sample"]})
        wall = time.monotonic() - self.t0
        spec = self.spec
        planned = sum(len(j["seeds"]) for j in self.jobs)
        doc = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "rule": spec["rule"],
                "samples": samples,
                "runs_planned": planned,
                "runs_per_hour": round(evals / max(self.explore_s, 1e-9) * 3600),
                "simulated_time_s": round(sim_time, 3),
                "fault_kinds_injected": dict(sorted(agg["faults"].items())),
                "probes_hit": dict(sorted(agg["probes"].items())),
                "counters": dict(sorted(agg["counters"].items())),
                "distinct_states": len(states),
                "distinct_states_measure": spec.get("state_measure", "hash of the abstract state keys recorded by the scenario"),
                "distinct_event_logs": len(digests),
                "runs_per_leg": dict(perleg),
                "real_components": spec.get("real", []),
                "stubbed_components": spec.get("stubs", []),
                "determinism_rerun": self.determinism,
                "known_findings_seen": sorted(self.known_hits),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": 1 if self.violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(doc, f, indent=1)


def replay(pid, spec, path):
    doc = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    w = Worker(spec["module"], doc["env"], spec.get("cpu", 90), spec.get("wall", 300), scratch)
    try:
        w.wait_ready()
        if "choices" in doc:
            res = w.run({"id": 0, "params": doc["params"], "prefix": doc["choices"], "detail": True,
                         "before": doc.get("before", [])})
        else:
            res = w.run({"id": 0, "params": doc["params"], "seeds": [doc["seed"]], "detail": True})
    finally:
        w.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if "died" in res:
        print("run ended by", res["died"])
        if doc["kind"] == "no-termination" and res["died"] == "cpu":
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        return 2
    r = res["runs"][0]
    for line in r.get("log", []):
        print("   ", line[:400])
    print("digest", r["digest"], "status", r["status"])
    if r["status"] == "violation":
        print(f"{pid}: {r['kind']}: {r['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if r["status"] != "ok":
        print(r.get("message"))
        return 2
    print("no violation")
    return 0
