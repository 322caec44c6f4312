"""P09: exports and the cache under crashes, disk faults and other processes."""

import hashlib
import os

from sim import bags, core, faultfs, patch
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P09"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 640, "thorough": 5000}
LISTS = ["ops"]
TIMEOUT = 120
RULE = (
    "a run is a seeded history of 3-8 exports and cached loads, each in a "
    "process of its own with crashes, torn and short writes, and errors (once "
    "or until the end) at seeded system calls, or 2-3 of them at once with a "
    "seeded interleaving at system calls, followed by undisturbed loads; "
    "non-trivial if a fault fired or processes alternated; distinct by the "
    "event log"
)
REAL = ["ros/io.py RosbagReader", "xarray", "netCDF4/HDF5", "pandas", "the file system and its system calls"]
STUB = ["rosbag file format (sim/ros.py Bag)", "message classes", "results of single system calls (shim/faultfs.c)"]
ASSUMPTIONS = ["the data folder is a file system of its own", "completed system calls of a killed process persist (no power loss)"]
TOPICS = ["/odom", "/tf/x", "_tf_x", "/a_b"]
E = faultfs.ERR


def prepare():
    faultfs.build()


worker_env = faultfs.env


def gen_fault(rng):
    do = rng.choice(["crash", "crash", "torn", "err", "err", "sticky", "sticky", "short", "interrupt", "interrupt"])
    f = {"do": do, "frac": round(rng.random(), 4), "cls": rng.choice(["any", "any", "w", "w", "r"])}
    if do in ("torn",):
        f["cls"] = "w"
    if do == "err":
        f["arg"] = E[rng.choice(["EIO", "ENOSPC", "EINTR", "EACCES", "ESTALE", "EMFILE"])]
    elif do == "sticky":
        f["arg"] = E[rng.choice(["EIO", "ENOSPC", "EDQUOT", "EROFS"])] if f["cls"] == "w" else E[rng.choice(["EIO", "ESTALE"])]
        if f["cls"] == "any" and rng.random() < 0.5:
            f["cls"] = "w"
            f["arg"] = E["ENOSPC"]
    elif do in ("short", "torn"):
        f["arg"] = rng.choice([0, 1, 7])
    return f


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    tops = rng.sample(TOPICS, rng.randrange(1, 3))
    if rng.random() < 0.2:
        tops = ["/tf/x", "_tf_x"]
    ver = [0]
    size = rng.choice([[1, 5], [5, 50], [50, 400], [5, 400]] + ([[400, 3000]] if tier == "thorough" else []))
    typ = {t: rng.choice(["odom", "tf"]) for t in tops}

    def spec():
        out = []
        for t in tops:
            ver[0] += 1
            out.append({"topic": t, "ver": ver[0], "n": rng.choice(size), "typ": typ[t],
                        "scale": rng.choice([1, 1, 1e6])})
        return out

    ops = [{"o": "write", "spec": spec()}]
    for _ in range(rng.randrange(3, 7)):
        x = rng.random()
        t = rng.choice(tops)
        if x < 0.13:
            ops.append({"o": "write", "spec": spec()})
        elif x < 0.2:
            ops.append({"o": "damage", "how": rng.choice(["half", "empty", "garbage"]), "at": rng.randrange(9)})
        elif x < 0.75:
            op = {"o": rng.choice(["cached", "cached", "export", "export-default"]), "topic": t,
                  "base": rng.choice(["miss", "miss", "hit"]), "fault": [gen_fault(rng)]}
            if rng.random() < 0.4:
                op["fault"] = [faultfs.aim(rng, op["fault"][0])]
            if rng.random() < 0.25:
                op["fault"].append(gen_fault(rng))
            if rng.random() < 0.1:
                op["fault"] = []
            op["again"] = rng.random() < 0.5
            ops.append(op)
        else:
            n = rng.randrange(2, 4)
            same = rng.random() < 0.7
            op = {"o": "together", "p": rng.choice([0.01, 0.05, 0.2, 1]), "rng": rng.randrange(1 << 30),
                  "who": [{"o": rng.choice(["cached", "cached", "cached", "export"]) if k else "cached",
                           "topic": t if same else rng.choice(tops), "n": rng.choice([1, 1, 2])}
                          for k in range(n)]}
            if rng.random() < 0.35:
                op["kill"] = [rng.randrange(n), rng.randrange(1, 150)]
            if rng.random() < 0.35:
                op["replace"] = [rng.randrange(1, 150), spec()]
            ops.append(op)
    return {"ops": ops, "sched": {"mode": "fifo"}}


def simplify(sc):
    import copy

    for i, op in enumerate(sc["ops"]):
        for k in ("kill", "replace"):
            if op.get(k):
                c = copy.deepcopy(sc)
                del c["ops"][i][k]
                yield c
        if len(op.get("fault", [])) > 1:
            for j in range(len(op["fault"])):
                c = copy.deepcopy(sc)
                del c["ops"][i]["fault"][j]
                yield c
        if op.get("again"):
            c = copy.deepcopy(sc)
            c["ops"][i]["again"] = False
            yield c


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), watch=False)
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = any(k.startswith("fault.") for k in f)


class World:
    def __init__(self, sc, ctx):
        self.sc, self.ctx, self.seed = sc, ctx, sc["seed"]
        self.base = sc["_scratch"]
        self.d = os.path.join(self.base, "data")
        os.makedirs(self.d)
        self.bag = os.path.join(self.d, "b.bag")
        self.versions = []  # topic -> spec, oldest first
        self.bytes_ok = {}  # path -> hashes of acceptable contents
        self.sig = {}
        self.hold = 0
        self.counts = {}

    # -- what the files may be ------------------------------------------------
    def cache_path(self, topic):
        return os.path.join(self.d, "cache", topic.replace("/", "_") + ".nc")

    def targets(self):
        """Final files and the topics each may hold."""
        out = {}
        for t in self.versions[-1]:
            out.setdefault(self.cache_path(t), []).append(t)
            out.setdefault(os.path.join(self.d, "exp", "o.nc"), []).append(t)
            out.setdefault(os.path.join(self.d, "b.nc"), []).append(t)
        return out

    def check_files(self, where):
        """Every final file is absent or complete."""
        import xarray as xr

        for p, topics in self.targets().items():
            try:
                st = os.stat(p)
            except FileNotFoundError:
                self.sig.pop(p, None)
                continue
            sig = (st.st_ino, st.st_size, st.st_mtime_ns)
            if self.sig.get(p) == sig:
                continue
            h = hashlib.sha256(bags.read(p)).hexdigest()
            if h not in self.bytes_ok.setdefault(p, set()):
                try:
                    # whatever lock a process of the run holds on it
                    with open(p, "rb") as f:
                        c = os.path.join(self.base, "look.nc")
                        with open(c, "wb") as g:
                            g.write(f.read())
                    with xr.open_dataset(c) as ds:
                        ds = ds.load()
                    os.unlink(c)
                except Exception as e:
                    raise Violation("incomplete-file", f"{where}: {os.path.relpath(p, self.d)} ({st.st_size} bytes) is not readable: {e}")
                if not any(self.matches(ds, v[t]) for v in self.versions for t in topics):
                    raise Violation("incomplete-file", f"{where}: {os.path.relpath(p, self.d)} is no complete topic: {dict(ds.sizes)}")
                self.bytes_ok[p].add(h)
            self.sig[p] = sig

    def matches(self, ds, spec):
        try:
            bags.check(ds, self.seed, spec, "", False)
            return True
        except Violation:
            return False

    def put(self, specs):
        if self.versions:
            patch.REAL["sleep"](0.012)
        bags.write(self.bag, self.seed, specs)
        self.versions.append({s["topic"]: s for s in specs})

    # -- what a process does ---------------------------------------------------
    def act(self, op, since, where):
        from rigid_body_motion.ros.io import RosbagReader

        t = op["topic"]
        specs = [v[t] for v in self.versions[since:]] + op.get("also", [])

        def complete(ds, cls):
            if not any(self.matches(ds, s) for s in specs):
                bags.check(ds, self.seed, specs[-1], where, False, cls)

        def once():
            out = []
            for _ in range(op.get("n", 1)):
                with RosbagReader(self.bag) as r:
                    if op["o"] == "cached":
                        ds = r.load_dataset(t, cache=True)
                        complete(ds, "partial-dataset")
                        out.append("loaded")
                    else:
                        p = os.path.join(self.d, "exp", "o.nc") if op["o"] == "export" else None
                        r.export(t, p)
                        out.append("exported")
            return out

        def run():
            L = faultfs.lib()
            try:
                out = faultfs.land(once)
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, Violation) or not op.get("again"):
                    raise
                # the fault is over; the same process tries again
                L.ffs_clear()
                fired = L.ffs_fired()
                return ["raised", type(e).__name__, once()]
            return out

        return run

    def calibrate(self, op):
        """Operations of an undisturbed load or export."""
        key = (op["o"], op["topic"], op["base"], len(self.versions))
        if key not in self.counts:
            import shutil

            real, self.d = self.d, os.path.join(self.base, "dry")
            bag, self.bag = self.bag, os.path.join(self.d, "b.bag")
            shutil.rmtree(self.d, ignore_errors=True)
            os.makedirs(self.d)
            shutil.copy2(bag, self.bag)
            try:
                o = dict(op, again=False)
                if op["base"] == "hit":
                    faultfs.run(self.act(o, 0, "dry run"), self.d)
                r = faultfs.run(self.act(o, 0, "dry run"), self.d)
            finally:
                self.d, self.bag = real, bag
            if r.end != "ok":
                raise Violation("undisturbed", f"{op}: without any fault: {r} {getattr(r, 'tb', '')}")
            self.counts[key] = r
        return self.counts[key]


def history(sc, ctx):
    faultfs.SEED[:] = [sc["seed"], 0]
    w = World(sc, ctx)
    S = core.SIM
    for k, op in enumerate(sc["ops"]):
        o = op["o"]
        where = f"op {k} {o} {op.get('topic', '')}"
        if o == "write":
            w.put(op["spec"])
            S.log(k, "write")
            continue
        if not w.versions:
            continue
        if o == "damage":
            fs = [p for p in w.targets() if os.path.exists(p)]
            if fs:
                p = fs[op["at"] % len(fs)]
                n = os.path.getsize(p)
                if op["how"] == "garbage":
                    with open(p, "r+b") as f:
                        f.write(b"\0garbage" * 20)
                else:
                    os.truncate(p, n // 2 if op["how"] == "half" else 0)
                w.bytes_ok.setdefault(p, set()).add(hashlib.sha256(bags.read(p)).hexdigest())
                ctx.count("fault.file-damaged")
            S.log(k, "damage")
        elif o == "together":
            if any(x["topic"] not in w.versions[-1] for x in op["who"]):
                continue
            together(w, op, where, k)
        else:
            if op["topic"] not in w.versions[-1]:
                continue
            alone(w, op, where, k)
        w.check_files(where)
    if w.versions:
        final_loads(w, "at the end")


def alone(w, op, where, k):
    S, ctx = core.SIM, w.ctx
    n = w.calibrate(op)
    faults = []
    for f in op["fault"]:
        faults += n.place(f)
    before = {f: bags.read(os.path.join(w.d, f)) for f in bags.scan(w.d)}
    res = faultfs.run(w.act(op, len(w.versions) - 1, where), w.d, faults)
    S.log(k, op["o"], res.end, res.exc, res.fired, res.fired_op, res.value)
    if res.fired:
        for f in faults[: res.fired if res.end != "crashed" else 1]:
            ctx.count(faultfs.kinds(f["do"], f.get("arg", 0)))
    if res.end == "op-cap":
        raise Violation("no-progress", f"{where}: 20000 system calls and no end, {faults}")
    w.check_files(f"{where}: after {res.end}, {faults}")
    after = {f: bags.read(os.path.join(w.d, f)) for f in bags.scan(w.d)}
    if after["b.bag"] != before["b.bag"]:
        raise Violation("bag-changed", f"{where}: {faults}")
    again = res.end == "ok" and res.value[0] == "raised"
    ctrlc = [f["do"] for f in faults] == ["interrupt"]
    if res.end == "raised" and (res.exc == "SystemExit" or res.exc == "KeyboardInterrupt" and not any(
            f["do"] == "interrupt" for f in faults)):
        raise Violation("wrong-error", f"{where}: {res}")
    if res.end == "raised" and not res.fired and not again:
        raise Violation("undisturbed", f"{where}: without any fault: {res} {getattr(res, 'tb', '')}")
    if op.get("again") and res.end == "raised":
        raise Violation("no-recovery", f"{where}: repeated in the same process after {faults}: {res} {getattr(res, 'tb', '')}")
    if res.end == "raised" and res.fired_op not in ("unlink",) and len(faults) < 2:
        new = set(after) - set(before)
        final = {os.path.relpath(p, w.d) for p in w.targets()}
        if op["o"] == "cached":
            new -= final
        if op["o"] != "cached":
            out = "b.nc" if op["o"] == "export-default" else os.path.join("exp", "o.nc")
            closing = ctrlc or res.fired_op in ("close", "read", "open") and "in read_messages" not in res.tb and "__exit__" in res.tb
            if before.get(out) != after.get(out) and not closing:
                raise Violation("export-changed-file", f"{where}: raised {res}, but {out} was changed; {faults}")
            if closing:
                new -= {out}
        if new:
            raise Violation("left-behind", f"{where}: raised {res} and left {sorted(new)}; {faults}")
        w.ctx.count("failed")
    elif res.end == "ok":
        w.ctx.count("done-despite-fault" if res.fired else "done")
    if op["o"] != "cached" and res.end == "ok":
        out = os.path.join(w.d, "b.nc" if op["o"] == "export-default" else "exp/o.nc")
        exported(w, out, w.versions[-1][op["topic"]], where)
    if keyed(w.seed, "follow", k).random() < 0.4:
        final_loads(w, f"{where}: after {res.end}, {faults}")


def exported(w, path, spec, where):
    import xarray as xr

    if not os.path.exists(path):
        raise Violation("export-missing", f"{where}: returned without writing {path}")
    with xr.open_dataset(path) as ds:
        ds = ds.load()
    bags.check(ds, w.seed, spec, where, False, "export-content")


def together(w, op, where, k):
    S, ctx = core.SIM, w.ctx
    since = len(w.versions) - 1
    rng = keyed(op["rng"], "together")
    rep = op.get("replace")
    also = {s["topic"]: s for s in rep[1]} if rep else {}
    fns = []
    for x in op["who"]:
        fns.append(w.act(dict(x, also=[also[x["topic"]]] if x["topic"] in also else []), since, where))
    done = [False]

    def at_op(n):
        w.check_files(f"{where}: after system call {n}")
        if rep and n == rep[0]:
            w.put(rep[1])
            done[0] = True
            ctx.count("fault.bag-replaced")

    kill = {op["kill"][0]: op["kill"][1]} if op.get("kill") else None
    res, taken, switches = faultfs.interleave(fns, w.d, rng, op["p"], at_op, kill=kill)
    if rep and not done[0]:
        w.put(rep[1])
    S.log(k, "together", [r.end for r in res], taken)
    ctx.count("fault.process-switch", switches)
    ctx.count("concurrent-calls", len(res))
    for i, (x, r) in enumerate(zip(op["who"], res)):
        if r.end == faultfs.CRASHED and kill and i in kill:
            ctx.count("fault.killed")
        elif r.end != "ok":
            raise Violation("concurrent-failure", f"{where}: {x} while others run: {r} {getattr(r, 'tb', '')}")
    final_loads(w, where)


def final_loads(w, where):
    """Undisturbed cached loads of every topic in new processes."""
    for t in w.versions[-1]:
        r = faultfs.run(w.act({"o": "cached", "topic": t, "n": 2}, len(w.versions) - 1, where), w.d)
        if r.end != "ok":
            raise Violation("no-recovery", f"{where}: later cached load of {t}: {r} {getattr(r, 'tb', '')}")
        w.ctx.count("later-loads")
    w.check_files(where)
