"""Batches of simulated runs: scheduling over workers, evidence, minimising."""

import hashlib
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class HarnessError(Exception):
    pass


def worker_env(hashseed):
    env = {
        k: v
        for k, v in os.environ.items()
        if k.startswith("VERIF_") or k in ("PATH", "HOME", "TMPDIR")
    }
    env.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        NUMBA_DISABLE_JIT="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONPATH=VERIF,
        LC_ALL="C.UTF-8",
        TZ="UTC",
    )
    return env


class Worker:
    def __init__(self, prop_id, extra_env=None, hashseed=0):
        env = worker_env(hashseed)
        env.update(extra_env or {})
        self.prop_id = prop_id
        self.extra_env = extra_env
        self.hashseed = hashseed
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker", prop_id],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=None if os.environ.get("VERIF_STDERR") else subprocess.PIPE,
            cwd=VERIF,
            env=env,
            start_new_session=True,
        )
        self.ready = False
        self.job = None
        self.started = 0.0

    def wait_ready(self):
        line = self.p.stdout.readline()
        if not line:
            err = b""
            if self.p.stderr:
                err = self.p.stderr.read()
            raise HarnessError(
                "worker did not start: " + err.decode(errors="replace")[-3000:]
            )
        self.ready = True

    def send(self, job):
        self.job = job
        self.started = time.monotonic()
        self.p.stdin.write(json.dumps(job).encode() + b"\n")
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("worker died")
        self.job = None
        return json.loads(line)

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            if f:
                try:
                    f.close()
                except OSError:
                    pass


class Pool:
    def __init__(self, prop, n):
        extra = getattr(prop, "worker_env", lambda: {})()
        self.workers = [Worker(prop.ID, extra) for _ in range(n)]
        try:
            for w in self.workers:
                w.wait_ready()
        except BaseException:
            self.close()
            raise

    def map(self, jobs, stop=None, deadline=None):
        """Run jobs, yield results in completion order."""
        sel = selectors.DefaultSelector()
        for w in self.workers:
            sel.register(w.p.stdout, selectors.EVENT_READ, w)
        it = iter(jobs)
        busy = 0
        exhausted = False

        def feed(w):
            nonlocal busy, exhausted
            if exhausted or (stop and stop()):
                exhausted = True
                return
            if deadline and time.monotonic() > deadline:
                exhausted = True
                return
            try:
                job = next(it)
            except StopIteration:
                exhausted = True
                return
            w.send(job)
            busy += 1

        for w in self.workers:
            feed(w)
        while busy:
            for key, _ in sel.select():
                w = key.data
                if w.job is None:
                    continue
                res = w.recv()
                busy -= 1
                feed(w)
                yield res
        sel.close()

    def one(self, job):
        w = self.workers[0]
        w.send(job)
        return w.recv()

    def close(self):
        for w in self.workers:
            w.close()


def run_seed(master, prop_id, i):
    h = hashlib.sha256(f"{master}/{prop_id}/{i}".encode()).digest()
    return int.from_bytes(h[:6], "big")


# -- minimising ---------------------------------------------------------------
def get_path(sc, path):
    x = sc
    for k in path.split("."):
        if not isinstance(x, dict) or k not in x:
            return None
        x = x[k]
    return x


def set_path(sc, path, val):
    sc = json.loads(json.dumps(sc))
    x = sc
    ks = path.split(".")
    for k in ks[:-1]:
        x = x[k]
    x[ks[-1]] = val
    return sc


class Minimiser:
    def __init__(self, prop, pool, cls, budget_s=90, budget_n=600, timeout=60):
        self.prop, self.pool, self.cls = prop, pool, cls
        self.end = time.monotonic() + budget_s
        self.left = budget_n
        self.timeout = timeout
        self.tries = 0

    def fails(self, sc):
        if self.left <= 0 or time.monotonic() > self.end:
            return None
        self.left -= 1
        self.tries += 1
        try:
            r = self.pool.one({"id": -1, "sc": sc, "timeout": self.timeout})
        except Exception:
            return None
        if r["status"] == "violation" and r["cls"] == self.cls:
            return r
        return None

    def ddmin(self, sc, path):
        items = get_path(sc, path)
        if not isinstance(items, list) or not items:
            return sc
        n = 2
        while items:
            size = max(1, len(items) // n)
            reduced = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                new = set_path(sc, path, cand)
                if self.fails(new):
                    items, sc, reduced = cand, new, True
                else:
                    i += size
                if self.left <= 0 or time.monotonic() > self.end:
                    return sc
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return sc

    def run(self, sc, res):
        sc = json.loads(json.dumps(sc))
        sch = sc.get("sched")
        if isinstance(sch, dict) and sch.get("mode") in ("random", "pct"):
            new = set_path(sc, "sched", {"mode": "script", "script": res["taken"]})
            if self.fails(new):
                sc = new
        paths = list(getattr(self.prop, "LISTS", []))
        for _ in range(2):
            before = json.dumps(sc)
            fifo = set_path(sc, "sched", {"mode": "fifo"}) if sch else None
            if fifo and sc["sched"].get("mode") != "fifo" and self.fails(fifo):
                sc = fifo
            for p in paths:
                sc = self.ddmin(sc, p)
            if get_path(sc, "sched.script"):
                sc = self.ddmin(sc, "sched.script")
            simp = getattr(self.prop, "simplify", None)
            if simp:
                progress = True
                while progress:
                    progress = False
                    for cand in simp(json.loads(json.dumps(sc))):
                        if json.dumps(cand) != json.dumps(sc) and self.fails(cand):
                            sc, progress = cand, True
                            break
                    if self.left <= 0 or time.monotonic() > self.end:
                        break
            if json.dumps(sc) == before:
                break
        return sc


# -- known findings ------------------------------------------------------------
def known_findings(prop_id):
    """[(violation class, needle in message, text)] recorded, not repaired."""
    out = []
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path)).get("known", []):
            if e["property"] == prop_id:
                out.append((e["class"], e["match"], e["what"]))
    return out


def check(prop_id, replay=None):
    sys.path.insert(0, VERIF)
    t0 = time.monotonic()
    prop = importlib.import_module("props." + prop_id.lower())
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nproc = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    prep = getattr(prop, "prepare", None)
    if prep:
        prep()
    with tempfile.TemporaryDirectory(prefix="vfchk-") as tmp:
        os.environ["VERIF_SCRATCH"] = tmp
        if replay:
            return do_replay(prop, replay)
        return do_check(prop, prop_id, tier, seed, nproc, t0)


def do_replay(prop, path):
    rep = json.load(open(path))
    pool = Pool(prop, 1)
    try:
        sc = dict(rep["scenario"], trace=1)
        r = pool.one({"id": 0, "sc": sc, "timeout": 60 if rep["class"] == "no-progress" else 300})
    finally:
        pool.close()
    print(json.dumps({k: r.get(k) for k in ("status", "cls", "msg", "hash", "sim_ns")}, indent=1))
    for e in r.get("events", [])[-60:]:
        print("  ", e)
    if r["status"] == "timeout" and rep["class"] == "no-progress":
        r.update(status="violation", cls="no-progress", hash=None)
    same = r["status"] == "violation" and r["cls"] == rep["class"]
    print("same class:", same, " same event log:", r.get("hash") == rep.get("hash"))
    if r["status"] == "violation":
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def do_check(prop, prop_id, tier, seed, nproc, t0):
    print(f"{prop_id} tier={tier} seed={seed} workers={nproc}", flush=True)
    n = prop.RUNS[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(8, int(n * scale))
    timeout = getattr(prop, "TIMEOUT", 60)
    cap = {"quick": 400, "thorough": 750}[tier]
    known = known_findings(prop_id)
    agg = {}
    hashes = set()
    nontrivial = set()
    first_hash = {}
    samples = []
    errors, violations, known_hit = [], [], {}
    runs = 0
    sim_ns = 0
    longest = 0
    sums = {"steps": 0, "lines": 0, "preemptions": 0, "line_switches": 0}
    ends = {}
    pool = Pool(prop, nproc)
    try:
        fixed = getattr(prop, "fixed", lambda tier: [])(tier)
        nf = len(fixed)
        t_run = time.monotonic()

        def jobs():
            for k, sc in enumerate(fixed):
                sc.setdefault("seed", run_seed(seed, prop_id, f"f{k}"))
                yield {"id": k, "sc": sc, "timeout": timeout, "want_sc": k < 1}
            for i in range(n):
                yield {
                    "id": nf + i,
                    "i": i,
                    "seed": run_seed(seed, prop_id, i),
                    "tier": tier,
                    "timeout": timeout,
                    "want_sc": i < 3,
                }

        def is_known(r):
            for cls, needle, what in known:
                if r["cls"] == cls and needle in r["msg"]:
                    return what
            return None

        stop_at = [None]

        def stop():
            return (
                len(violations) >= 4
                or len(errors) >= 20
                or sum(r["status"] == "timeout" for r in errors) >= 3
            )

        for r in pool.map(jobs(), stop, t0 + cap):
            runs += 1
            st = r["status"]
            for k in r.get("known", []):
                known_hit[k] = known_hit.get(k, 0) + 1
            if st == "violation":
                w = is_known(r)
                if w:
                    known_hit[w] = known_hit.get(w, 0) + 1
                else:
                    violations.append(r)
            elif st in ("error", "timeout"):
                errors.append(r)
            for k, v in r.get("stats", {}).items():
                agg[k] = agg.get(k, 0) + v
            h = r.get("hash")
            if h:
                hashes.add(h)
                nt = r.get("nontrivial")
                if nt is None:
                    nt = bool(r.get("taken")) or any(
                        k.startswith("fault.") for k in r.get("stats", {})
                    )
                if nt:
                    nontrivial.add(h)
                first_hash[r["id"]] = h
            for k in sums:
                sums[k] += r.get(k, 0) or 0
            longest = max(longest, r.get("steps", 0) or 0)
            sim_ns += r.get("sim_ns", 0) or 0
            ends[r.get("end")] = ends.get(r.get("end"), 0) + 1
            if "sc" in r and st == "ok" and len(samples) < 3:
                samples.append(shorten(r["sc"]))
        run_wall = time.monotonic() - t_run

        hung = [r for r in errors if r["status"] == "timeout" and "sc" in r]
        if hung and not violations:
            # alone on the machine, do the runs still never end?
            for r in hung[:3]:
                again = pool.one({"id": 0, "sc": r["sc"], "timeout": 2 * timeout})
                if again["status"] == "timeout":
                    errors = [x for x in errors if x["status"] != "timeout"]
                    violations = [dict(r, cls="no-progress", status="violation",
                                       msg=f"the run does not end within {2 * timeout} s")]
                    break
                if again["status"] == "violation" and not is_known(again):
                    violations.append(dict(r, **{k: again[k] for k in ("status", "cls", "msg", "taken") if k in again}))
                if again["status"] in ("violation", "ok"):
                    errors.remove(r)
        code = 0
        nviol = len(violations)
        if violations:
            violations.sort(key=lambda r: r["id"])
            code = report(prop, pool, violations, timeout, seed)
        # determinism: repeat some runs in a fresh interpreter, other hash seed
        det = {"repeated": 0, "identical": 0}
        if not violations and not errors and not os.environ.get("VERIF_SURVEY"):
            w2 = Worker(prop_id, getattr(prop, "worker_env", lambda: {})(), 4242)
            try:
                w2.wait_ready()
                m = {"quick": 6, "thorough": 60}[tier]
                for i in range(min(m, n)):
                    if nf + i not in first_hash:
                        continue
                    if time.monotonic() - t0 > cap + 30:
                        break
                    w2.send({"id": i, "i": i, "seed": run_seed(seed, prop_id, i), "tier": tier, "timeout": timeout})
                    r = w2.recv()
                    det["repeated"] += 1
                    det["identical"] += r.get("hash") == first_hash[nf + i]
            finally:
                w2.close()
    finally:
        pool.close()
    wall = time.monotonic() - t0
    for k, v in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop_id} {k}")
    faults = {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault.")}
    probes = {k: v for k, v in sorted(agg.items()) if not k.startswith("fault.")}
    ev = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples or [shorten(r.get("sc", {})) for r in violations[:1]],
            "distinct_event_logs": len(hashes),
            "runs_per_hour": round(runs / max(run_wall, 1e-9) * 3600),
            "simulated_seconds": round(sim_ns / 1e9, 6),
            "faults_fired": faults,
            "probes": probes,
            "scheduler": dict(sums, longest_run=longest),
            "run_ends": {str(k): v for k, v in ends.items()},
            "determinism": det,
            "components_real": prop.REAL,
            "components_stub": prop.STUB,
            "harness_errors": len(errors),
            "exhaustive": False,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop_id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop_id}: {runs} runs, {len(hashes)} distinct logs, "
        f"{sim_ns/1e9:.1f} simulated s, {wall:.1f} s; determinism {det}"
    )
    print("  faults:", faults)
    print("  probes:", probes)
    if nviol:
        return code
    if errors:
        print(f"HARNESS ERROR: {len(errors)} runs")
        for r in errors[:2]:
            print(r["cls"], r["msg"])
        return 2
    if runs < min(n, 8):
        print("HARNESS ERROR: too few runs")
        return 2
    return 0


def shorten(sc, limit=1500):
    s = json.dumps(sc)
    return json.loads(s) if len(s) <= limit else s[:limit] + "..."


def store(prop, cls, msg, hash_, seed, sc, tries, events):
    """Write a replay file."""
    path = os.path.join(VERIF, "replays", f"{prop.ID}-{cls}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop.ID,
                "class": cls,
                "msg": msg,
                "hash": hash_,
                "batch_seed": seed,
                "run_seed": sc.get("seed"),
                "minimiser_runs": tries,
                "scenario": sc,
                "trace": events,
            },
            f,
            indent=1,
        )
    return path


def report(prop, pool, violations, timeout, seed):
    """Minimise, store and print; exit code."""
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    printed = 0
    flaky = 0
    for r in violations:
        if r["cls"] in seen and printed:
            continue
        if r["cls"] == "no-progress":
            path = store(prop, r["cls"], r["msg"], None, seed, r["sc"], 0, [])
            print(f"violation of {prop.ID}: {r['cls']}: {r['msg']}")
            print(f"VIOLATION property={prop.ID} replay={path}", flush=True)
            printed += 1
            continue
        m = Minimiser(prop, pool, r["cls"], timeout=timeout,
                      budget_s=90 if not printed else 30)
        again = m.fails(r["sc"])
        if again is None:
            flaky += 1
            print(f"not reproducible: {r['cls']}: {r['msg'][:300]}")
            continue
        if os.environ.get("VERIF_SURVEY"):
            m.left = 0  # only whether, not why
        sc = m.run(r["sc"], again)
        sc.pop("_scratch", None)
        fin = pool.one({"id": 0, "sc": dict(sc, trace=1), "timeout": timeout})
        if not (fin["status"] == "violation" and fin["cls"] == r["cls"]):
            sc, fin = r["sc"], again
        seen.add(r["cls"])
        path = store(prop, r["cls"], fin["msg"], fin.get("hash"), seed, sc,
                     m.tries, fin.get("events", []))
        print(f"violation of {prop.ID}: {r['cls']}: {fin['msg'][:1500]}")
        print(f"VIOLATION property={prop.ID} replay={path}", flush=True)
        printed += 1
    if printed:
        return 1
    print("HARNESS ERROR: violations did not reproduce")
    return 2
