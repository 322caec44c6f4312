"""P11: example data over a faulty network, disk and crashes."""

import os

from sim import bags, core, faultfs, net
from sim.core import Violation, keyed
from sim import rosbase as rb

ID = "P11"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 900, "thorough": 8000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 3-10 accesses to the example datasets, each "
    "in a process of its own, with network faults, disk faults and crashes at "
    "seeded points, damage to the download folder in between, and several "
    "processes at once interleaved at system calls, ending with undisturbed "
    "accesses; non-trivial if a fault fired; distinct by the event log"
)
REAL = ["utils.py ExampleDataStore", "pooch", "requests above its transport adapter", "the file system and its system calls"]
STUB = ["web server and connections (sim/net.py)", "contents of the published files (any bytes; SHA-256 gives them the published sums)", "results of single system calls (shim/faultfs.c)"]
ASSUMPTIONS = ["no other bytes have the registered checksum", "completed system calls of a killed process persist (no power loss)"]
E = faultfs.ERR
BAD = ["foot", "", "head.nc", "Head", " head", "example.bag", 3, None, "rosbag/../head"]


def prepare():
    faultfs.build()


worker_env = faultfs.env


def boot():
    from sim import boot

    boot.boot()
    net.install()


def gen_net(rng):
    do = rng.choice(["status", "status", "page", "redirect-page", "redirect-loop", "refused", "connect-timeout",
                     "truncated", "truncated", "corrupted", "corrupted", "appended", "empty", "other-file",
                     "reset", "stall", "io", "chunks", "ctrl-c", "ctrl-c"])
    f = {"do": do}
    if do == "status":
        f["arg"] = rng.choice([404, 403, 429, 500, 502, 503])
    elif do in ("truncated", "corrupted", "reset", "stall", "io", "chunks", "ctrl-c"):
        f["arg"] = rng.choice([0, rng.random(), rng.random(), 0.999])
    return f


def gen_disk(rng):
    do = rng.choice(["crash", "crash", "torn", "err", "sticky", "short", "interrupt"])
    f = {"do": do, "frac": round(rng.random(), 4), "cls": rng.choice(["any", "w", "w", "r"])}
    if do == "torn":
        f["cls"] = "w"
    if do == "err":
        f["arg"] = E[rng.choice(["EIO", "ENOSPC", "EINTR", "EACCES"])]
    elif do == "sticky":
        f["arg"] = E[rng.choice(["EIO", "ENOSPC", "EROFS", "EDQUOT"])] if f["cls"] == "w" else E["EIO"]
    elif do in ("short", "torn"):
        f["arg"] = rng.choice([0, 1, 100])
    return f


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    items = rng.sample(sorted(net.ITEMS), rng.randrange(1, 4))
    ops = []
    for _ in range(rng.randrange(3, 9)):
        x = rng.random()
        if x < 0.62:
            op = {"o": "get", "item": rng.choice(items), "net": [], "disk": [], "base": rng.choice(["miss", "miss", "hit"])}
            if rng.random() < 0.6:
                op["net"] = [gen_net(rng) for _ in range(rng.choice([1, 1, 1, 2, 6]))]
            if rng.random() < 0.5:
                op["disk"] = [gen_disk(rng)]
                if rng.random() < 0.4:
                    op["disk"] = [faultfs.aim(rng, op["disk"][0])]
            op["again"] = rng.random() < 0.3
            if rng.random() < 0.3:
                # damaged between two accesses of one process
                op["hurt"] = [rng.choice(["truncate", "empty", "flip", "append", "remove"]), round(rng.random(), 4)]
            ops.append(op)
        elif x < 0.77:
            ops.append({"o": "damage", "at": rng.randrange(20), "arg": rng.random(),
                        "how": rng.choice(["truncate", "empty", "flip", "append", "remove", "other", "stray"])})
        elif x < 0.85:
            ops.append({"o": "unknown", "item": rng.choice(BAD)})
        else:
            n = rng.randrange(2, 4)
            op = {"o": "together", "item": [rng.choice(items) for _ in range(n)], "p": rng.choice([0.02, 0.1, 0.5, 1]),
                  "rng": rng.randrange(1 << 30), "net": [[gen_net(rng)] if rng.random() < 0.25 else [] for _ in range(n)]}
            if rng.random() < 0.4:
                op["kill"] = [rng.randrange(n), rng.randrange(1, 60)]
            ops.append(op)
    sizes = {f: rng.choice([1, 3000, 9000, 40000]) + rng.randrange(300) for f in net.PUBLISHED}
    return {"ops": ops, "sizes": sizes, "sched": {"mode": "fifo"}}


def simplify(sc):
    import copy

    for i, op in enumerate(sc["ops"]):
        for k in ("net", "disk"):
            for j in range(len(op.get(k, []))):
                c = copy.deepcopy(sc)
                del c["ops"][i][k][j]
                if op["o"] == "get":
                    yield c
        if op.get("kill"):
            c = copy.deepcopy(sc)
            del c["ops"][i]["kill"]
            yield c


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), watch=False)
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = any(k.startswith("fault.") for k in f)


def act(op_item, plan, again=False, cap=60, hurt=None):
    """Access in a victim process: [requests made, path]."""
    import rigid_body_motion as rbm

    def run():
        L = faultfs.lib()
        net.Net.plan, net.Net.log, net.Net.cap = list(plan), [], cap

        def once():
            p = faultfs.land(rbm.example_data.__getitem__, op_item)
            L.ffs_end()
            check_path(p, op_item)
            L.ffs_resume()
            return str(p)

        try:
            p = once()
            n = len(net.Net.log)
            if hurt:
                L.ffs_end()
                damage(p, {"how": hurt[0], "arg": hurt[1]}, [])
                L.ffs_clear()
                L.ffs_resume()
                net.Net.plan = []
                hurt[:] = []
                p = once()
            return ["ok", n, p]
        except (Exception, KeyboardInterrupt) as e:
            L.ffs_end()
            if isinstance(e, Violation):
                raise
            if hurt == []:
                raise Violation("no-recovery", f"{op_item}: damaged between two accesses, {type(e).__name__}: {e}")
            if not again:
                e.args = (f"{len(net.Net.log)} requests: {e}",)
                raise
            L.ffs_clear()
            L.ffs_resume()
            net.Net.plan = []
            return ["raised", type(e).__name__, once()]

    return run


def check_path(p, item):
    if not isinstance(p, (str, os.PathLike)):
        raise Violation("wrong-path", f"{item}: returned {p!r}")
    try:
        with open(p, "rb") as f:
            b = f.read()
    except OSError as e:
        raise Violation("wrong-content", f"{item}: returned {p}, but {e}")
    want = net.Net.content[net.ITEMS[item]]
    if b != want:
        k = next((i for i, (x, y) in enumerate(zip(b, want)) if x != y), min(len(b), len(want)))
        raise Violation("wrong-content", f"{item}: {len(b)} bytes, {len(want)} published, first difference at {k}")


def history(sc, ctx):
    S = core.SIM
    faultfs.SEED[:] = [sc["seed"], 0]
    base = sc["_scratch"]
    home = os.path.join(base, "home")
    os.makedirs(home)
    for k in ("HOME", "XDG_CACHE_HOME", "TMPDIR"):
        os.environ[k] = home if k == "HOME" else os.path.join(home, ".cache" if k[0] == "X" else "tmp")
    os.makedirs(os.path.join(home, "tmp"))
    import tempfile

    tempfile.tempdir = os.path.join(home, "tmp")
    net.publish(sc["seed"], sc["sizes"])
    where_is = {}  # item -> path returned
    counts = {}

    def intact(item):
        p = where_is.get(item)
        if p is None or not os.path.isfile(p):
            return False
        return bags.read(p) == net.Net.content[net.ITEMS[item]]

    def calibrate(item, kind):
        if (item, kind) not in counts:
            import shutil

            dry = os.path.join(base, "dry")
            shutil.rmtree(dry, ignore_errors=True)
            shutil.copytree(home, dry)
            for d, _, fs in os.walk(dry):
                for f in fs:
                    os.unlink(os.path.join(d, f))

            def f():
                os.environ["HOME"] = dry
                os.environ["XDG_CACHE_HOME"] = os.path.join(dry, ".cache")
                if kind == "hit":
                    faultfs.lib().ffs_end()
                    act(item, [])()
                    faultfs._arm(dry, [], 20000)
                return act(item, [])()

            r = faultfs.run(f, dry)
            if r.end != "ok":
                raise Violation("undisturbed", f"{item}: without any fault: {r} {getattr(r, 'tb', '')}")
            counts[item, kind] = r
        return counts[item, kind]

    def undisturbed(item, where):
        was = intact(item)
        r = faultfs.run(act(item, []), home)
        if r.end != "ok":
            raise Violation("no-recovery", f"{where}: {item} with network and disk working: {r} {getattr(r, 'tb', '')}")
        if was and r.value[1]:
            raise Violation("fetched-again", f"{where}: {item} was intact, but {r.value[1]} requests were made")
        where_is[item] = r.value[2]
        ctx.count("undisturbed")

    for k, op in enumerate(sc["ops"]):
        o = op["o"]
        where = f"op {k} {o} {op.get('item', '')}"
        if o == "get":
            n = calibrate(op["item"], op["base"])
            disk = []
            for f in op["disk"]:
                disk += n.place(f)
            was = intact(op["item"])
            hurt = list(op["hurt"]) if op.get("hurt") else None
            r = faultfs.run(act(op["item"], op["net"], op["again"], hurt=hurt), home, disk)
            if hurt and r.end == "ok" and r.value[0] == "ok":
                ctx.count("fault.file-damaged")
            S.log(k, r.end, r.exc, r.fired, r.value and r.value[:2])
            if r.end == "op-cap":
                raise Violation("no-progress", f"{where}: 20000 system calls and no end")
            if r.fired:
                for f in disk:
                    ctx.count(faultfs.kinds(f["do"], f.get("arg", 0)))
            if op["net"] and not was:
                for f in op["net"][:1]:
                    ctx.count("fault.net-" + f["do"])
            harmless = not r.fired and all(f["do"] == "chunks" for f in op["net"])
            if r.end == "raised":
                if op["again"]:
                    raise Violation("no-recovery", f"{where}: repeated in the same process: {r} {getattr(r, 'tb', '')}")
                if harmless or (was and not r.fired):
                    raise Violation("undisturbed", f"{where}: {'intact' if was else 'network works'}, but {r} {getattr(r, 'tb', '')}")
                ctrlc = [f for f in disk if f["do"] == "interrupt"] + [f for f in op["net"] if f["do"] == "ctrl-c"]
                if r.exc in ("SystemExit", "KeyError") or r.exc == "KeyboardInterrupt" and not ctrlc:
                    raise Violation("wrong-error", f"{where}: {r}")
                ctx.count("raised")
            elif r.end == "ok":
                if r.value[0] == "ok":
                    if was and not r.fired and r.value[1]:
                        raise Violation("fetched-again", f"{where}: was intact, but {r.value[1]} requests were made")
                where_is[op["item"]] = r.value[2]
                ctx.count("returned")
        elif o == "unknown":
            r = faultfs.run(lambda: unknown(op["item"]), home)
            if r.end != "ok":
                raise Violation("unknown-name", f"{where} {op['item']!r}: {r} {r.msg}")
            S.log(k, "unknown")
        elif o == "damage":
            fs = [os.path.join(d, f) for d, _, x in sorted(os.walk(home)) for f in sorted(x)]
            if fs:
                damage(fs[op["at"] % len(fs)], op, fs)
                ctx.count("fault.file-damaged")
            S.log(k, op["how"])
        elif o == "together":
            rng = keyed(op["rng"], "together")
            kill = {op["kill"][0]: op["kill"][1]} if op.get("kill") else {}
            res, taken, sw = faultfs.interleave(
                [act(t, p) for t, p in zip(op["item"], op["net"])], home, rng, op["p"], lambda n: None, kill=kill)
            S.log(k, [r.end for r in res], taken)
            ctx.count("fault.process-switch", sw)
            for j, r in enumerate(res):
                if r.end == faultfs.CRASHED and j in kill:
                    ctx.count("fault.killed")
                elif r.end == "raised" and op["net"][j] and op["net"][j][0]["do"] != "chunks":
                    ctx.count("fault.net-" + op["net"][j][0]["do"])
                elif r.end != "ok":
                    raise Violation("concurrent-failure", f"{where}: process {j}: {r} {getattr(r, 'tb', '')}")
                else:
                    where_is[op["item"][j]] = r.value[2]
        if o != "get" or keyed(sc["seed"], "follow", k).random() < 0.3:
            for t in sorted({x for q in sc["ops"] if q["o"] == "get" for x in [q["item"]]})[:1]:
                undisturbed(t, where)
    for t in sorted(net.ITEMS):
        undisturbed(t, "at the end")
        undisturbed(t, "at the end")


def unknown(item):
    import rigid_body_motion as rbm

    net.Net.plan, net.Net.log = [], []
    try:
        p = rbm.example_data[item]
    except KeyError:
        if net.Net.log:
            raise Violation("unknown-name", f"{item!r}: requested {net.Net.log}")
        return "ok"
    raise Violation("unknown-name", f"{item!r}: returned {p}")


def damage(p, op, fs):
    how, n = op["how"], os.path.getsize(p)
    if how == "truncate":
        os.truncate(p, int(n * op["arg"]))
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "flip" and n:
        with open(p, "r+b") as f:
            f.seek(int(n * op["arg"]))
            b = f.read(1)
            f.seek(int(n * op["arg"]))
            f.write(bytes([b[0] ^ 1]))
    elif how == "append":
        with open(p, "ab") as f:
            f.write(b"x")
    elif how == "remove":
        os.unlink(p)
    elif how == "other":
        b = bags.read(fs[(op["at"] + 1) % len(fs)])
        with open(p, "wb") as f:
            f.write(b)
    elif how == "stray":
        with open(os.path.join(os.path.dirname(p), "tmpabc"), "wb") as f:
            f.write(b"left over")
