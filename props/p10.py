"""P10: the dataset cache over histories of loads and replaced bags."""

import os
from pathlib import Path
import shutil

import numpy as np

from sim import bags, core, patch, ros
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P10"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 2000, "thorough": 15000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 5-25 cached and uncached loads over 1-3 bags "
    "with 1-4 topics in one folder, with bags replaced (also keeping size and "
    "mtime, or while open), swapped or copied and cache files deleted, damaged "
    "or exchanged; non-trivial if a cached load followed such an event; "
    "distinct by the event log"
)
REAL = ["ros/io.py RosbagReader", "xarray", "netCDF4/HDF5", "pandas", "the file system"]
STUB = ["rosbag file format (sim/ros.py Bag)", "message classes", "modification times of bags (set by the history)"]
ASSUMPTIONS = ["a replaced bag differs in inode, size, mtime or ctime from the one it replaces"]
TOPICS = ["/odom", "/tf/x", "_tf_x", "/a_b", "/a/b", "tf", "/tf"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    names = rng.sample(["a.bag", "b.bag", "a.b.bag", "a", "c.bag"], rng.randrange(1, 4))
    tops = rng.sample(TOPICS, rng.randrange(1, 5))
    if rng.random() < 0.4:
        tops = list(dict.fromkeys(["/tf/x", "_tf_x"] + tops[:1]))
    ver = [0]

    def spec(n=None):
        out = []
        for t in tops:
            ver[0] += 1
            out.append({"topic": t, "ver": ver[0], "n": n or (rng.choice([1, 2, 5, 20]) if rng.random() < 0.98 else 1500),
                        "typ": typ[t], "scale": rng.choice([1, 1, 1, 30, 1e5])})
            if rng.random() < 0.3:
                out[-1]["special"] = rng.sample(["nan", "nans", "inf", "edge", "dec", "dup"], rng.choice([1, 1, 2]))
        return out

    typ = {t: rng.choice(["odom", "tf"]) for t in tops}
    same_n = rng.choice([None, 4])
    ops = [["write", b, spec(same_n), "new"] for b in names]
    w = {"cached": 9, "plain": 1.5, "replace": 3, "swap": 0.6, "copy": 0.5, "rmcache": 0.6,
         "damage": 1.2, "exchange": 0.7, "mutate": 0.8, "open": 1.2, "export": 1.2}
    for k in rng.sample(sorted(w), 3):
        w[k] *= rng.choice([0.3, 2.5])
    ks = sorted(w)
    for _ in range(rng.randrange(5, 18 if tier == "quick" else 28)):
        o = rng.choices(ks, [w[k] for k in ks])[0]
        b, t = rng.choice(names), rng.choice(tops)
        if o == "replace":
            ops.append(["write", b, spec(same_n), rng.choice(["new", "new", "same-mtime", "inplace", "inplace-same-mtime", "older"])])
        elif o == "export":
            ops.append([o, b, t, rng.choice(["own", "default", "default", "shared", "sub", "space", "dots", "plain"])])
        elif o in ("cached", "plain", "mutate"):
            ops.append([o, b, t])
        elif o == "open":
            # replaced while a reader has it open
            ops.append([o, b, t, spec(same_n), rng.choice(["new", "same-mtime"]),
                        rng.choice(["opened", "opening"])])
        elif o in ("swap", "copy"):
            ops.append([o, b, rng.choice(names)])
        elif o == "damage":
            ops.append([o, rng.randrange(100), rng.choice(["truncate", "empty", "garbage", "half", "plain-nc"])])
        elif o == "exchange":
            ops.append([o, rng.randrange(100), rng.randrange(100)])
        else:
            ops.append([o])
    return {"ops": ops, "sched": {"mode": "fifo"}}


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), watch=False)
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("cached-loads", 0) > 0 and any(k.startswith("fault.") for k in f)


def history(sc, ctx):
    from rigid_body_motion.ros.io import RosbagReader

    S = core.SIM
    seed = sc["seed"]
    d = os.path.join(sc["_scratch"], "data")
    os.makedirs(d)
    now = {}  # bag name -> topic -> spec
    mtime = [1_600_000_000 * 10**9]
    files = {}  # bag name -> bytes
    exports = {}  # file name -> bytes

    def tick():
        # the kernel's own time stamps advance between two versions
        patch.REAL["sleep"](0.012)

    def put(b, specs, how):
        p = os.path.join(d, b)
        mtime[0] += 10**9
        mt = mtime[0]
        if "same-mtime" in how and b in now:
            mt = os.stat(p).st_mtime_ns
            tick()
        elif how == "older" and b in now:
            mt = os.stat(p).st_mtime_ns - 5 * 10**9
        bags.write(p, seed, specs, utime=mt, inplace=how.startswith("inplace"))
        now[b] = {s["topic"]: s for s in specs}
        files[b] = bags.read(p)

    def caches():
        c = os.path.join(d, "cache")
        if not os.path.isdir(c):
            return []
        return [os.path.join(c, f) for f in sorted(os.listdir(c)) if os.path.isfile(os.path.join(c, f))]

    def after(where):
        # nothing but the bags, exports and the cache folder
        for b, x in files.items():
            if bags.read(os.path.join(d, b)) != x:
                raise Violation("bag-changed", f"{where}: {b} was changed")
        for f in bags.scan(d):
            if f not in files and f not in exports and not f.startswith("cache" + os.sep):
                raise Violation("stray-file", f"{where}: {f} appeared")
            if f.endswith(".tmp"):
                raise Violation("stray-file", f"{where}: {f} was left behind")
        for f, x in exports.items():
            if bags.read(os.path.join(d, f)) != x:
                raise Violation("export-changed", f"{where}: the exported {f} was changed")

    def load(b, t, cached, where, spec=None, between=None, opening=False):
        spec = spec or now[b].get(t)
        rng = keyed(seed, "reader", where)
        reader = RosbagReader(os.path.join(d, b))
        if rng.random() < 0.3:
            # one that has been used before
            reader = readers.setdefault(b, reader)
        if opening:
            # right after the file has been opened, before the reader is ready
            ros.BAG["opened"] = between
        with reader as r:
            if between and not opening:
                between()
            for _ in range(2 if rng.random() < 0.15 else 1):
                ds = r.load_dataset(t, cache=True) if cached else r.load_dataset(t)
                bags.check(ds, seed, spec, where, not cached)
        if not hurt:
            still = [os.path.relpath(x, d) for x in open_files() if x.startswith(d + os.sep)]
            if still:
                raise Violation("open-file", f"{where}: still open afterwards: {still}")
        return ds

    def export(op, where, k):
        import xarray as xr

        how = op[3] if len(op) > 3 else "own"
        out = {"own": f"out{k}.nc", "default": os.path.splitext(op[1])[0] + ".nc",
               "space": f"my out {k}.nc", "dots": f"run.{k}.netcdf", "plain": os.path.join("plain", f"out{k}"),
               "shared": "out.nc", "sub": os.path.join(f"new{k}", "data", "x.nc")}[how]
        had = caches()
        with RosbagReader(os.path.join(d, op[1])) as r:
            if how == "default":
                r.export(op[2])
            else:
                p = os.path.join(d, out)
                r.export(op[2], Path(p) if k % 2 else p)
        if out in exports:
            ctx.count("exported-again")
        try:
            with xr.open_dataset(os.path.join(d, out)) as ds:
                ds = ds.load()
        except Exception as e:
            raise Violation("export-unreadable", f"{where}: the export cannot be read: {type(e).__name__}: {str(e)[:80]}")
        bags.check(ds, seed, now[op[1]][op[2]], where, False, "export")
        exports[out] = bags.read(os.path.join(d, out))
        if caches() != had:
            raise Violation("cache-written", f"{where}: an export changed the cache")

    readers = {}
    hurt = []  # libraries leak files that they cannot read
    fresh = None  # what the cache file last written must hold
    for k, op in enumerate(sc["ops"]):
        o = op[0]
        where = f"op {k} {op[:3]}"
        if o == "write":
            if op[1] in now:
                ctx.count("fault.bag-replaced")
            put(op[1], op[2], op[3])
        elif o in ("cached", "plain", "mutate", "export", "open"):
            if op[1] not in now or op[2] not in now[op[1]]:
                continue
            if o == "open":
                spec = now[op[1]][op[2]]
                load(op[1], op[2], True, where, spec, lambda: put(op[1], op[3], op[4]), "opening" in op[5:])
                ctx.count("fault.bag-replaced-while-open")
                ctx.count("cached-loads")
            elif o == "export":
                export(op, where, k)
            else:
                had = caches()
                reads = ros.BAG.get("n_read", 0)
                ds = load(op[1], op[2], o != "plain", where)
                if o == "plain" and caches() != had:
                    raise Violation("cache-written", f"{where}: loading without the cache wrote to it")
                if o != "plain":
                    if fresh == (op[1], op[2]):
                        ctx.count("cache-hits")
                        if ros.BAG["n_read"] != reads:
                            raise Violation("read-again", f"{where}: cached by the operation before, but the bag was read again")
                    fresh = (op[1], op[2])
                    ctx.count("cached-loads")
                    if not caches() and not os.path.exists(os.path.join(d, "cache")):
                        raise Violation("no-cache", f"{where}: no cache folder")
                if o == "mutate":
                    for v in ds.data_vars:
                        ds[v].values[...] = 77.0
        elif o in ("swap", "copy"):
            a, b = op[1], op[2]
            if a == b or a not in now or b not in now:
                continue
            pa, pb = os.path.join(d, a), os.path.join(d, b)
            ctx.count("fault.bag-replaced")
            if o == "swap":
                os.rename(pa, pa + ".x")
                os.rename(pb, pa)
                os.rename(pa + ".x", pb)
                now[a], now[b] = now[b], now[a]
                files[a], files[b] = files[b], files[a]
            else:
                shutil.copy2(pa, pb + ".x")
                os.replace(pb + ".x", pb)
                now[b], files[b] = now[a], files[a]
        elif o == "rmcache":
            shutil.rmtree(os.path.join(d, "cache"), ignore_errors=True)
            ctx.count("fault.cache-removed")
        elif o == "damage":
            cs = caches()
            if cs:
                damage(cs[op[1] % len(cs)], op[2])
                hurt.append(k)
                ctx.count("fault.cache-damaged")
        elif o == "exchange":
            cs = caches()
            if len(cs) > 1 and op[1] % len(cs) != op[2] % len(cs):
                x, y = cs[op[1] % len(cs)], cs[op[2] % len(cs)]
                shutil.copy2(x, y)
                ctx.count("fault.cache-files-exchanged")
        if o not in ("cached", "mutate", "plain", "export"):
            fresh = None
        after(where)
        S.log(o, k)


def open_files():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink(f"/proc/self/fd/{f}"))
        except OSError:
            pass
    return out


def damage(p, how):
    n = os.path.getsize(p)
    if how == "truncate":
        os.truncate(p, max(0, n - 100))
    elif how == "half":
        os.truncate(p, n // 2)
    elif how == "empty":
        os.truncate(p, 0)
    elif how == "garbage":
        with open(p, "r+b") as f:
            f.write(b"\0garbage" * 20)
    elif how == "plain-nc":
        # a netCDF file of some other program
        import xarray as xr

        os.unlink(p)
        xr.Dataset({"position": (["time", "cartesian_axis"], np.zeros((2, 3)))}).to_netcdf(p)
