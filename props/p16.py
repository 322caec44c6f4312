"""P16: concurrent lookups and transforms equal sequential ones."""

import copy
import gc
import os
import sys

import numpy as np

from sim import alloc, boot as simboot, core, model, patch
from sim.core import Violation, keyed
from sim.world import rbm

from .base import boot  # noqa

ID = "P16"
LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 40000}
LISTS = ["threads.0", "threads.1", "threads.2", "threads.3"]
RULE = (
    "a run performs 3-10 seeded calls (lookups, twists, velocities, transforms, "
    "conversions, quaternion functions, estimators) alone and then from 2-4 threads under a seeded pre-emptive interleaving, "
    "sharing frames and argument arrays, while other frames are constructed, "
    "registered, updated and deregistered, numerical calls run out of memory "
    "and results are overwritten; every result is compared bit by bit; "
    "non-trivial if threads were pre-empted inside the package; distinct by "
    "the event log"
)
REAL = ["__init__.py", "core.py", "accessors.py", "coordinate_systems.py", "reference_frames.py", "utils.py", "estimators.py", "anytree", "numpy/quaternion/scipy/xarray"]
STUB = ["threads and locks (simulated scheduler)", "failing allocations"]
ASSUMPTIONS = ["pre-emption happens between lines of the package, anytree and quaternion's Python code; a call into numpy or xarray is atomic"]

KINDS = [
    "transform", "pose", "transform_ds", "pose_ds", "twist", "twist_ds", "linear", "angular", "linear_ds",
    "angular_ds", "points", "vectors", "quaternions", "points_da", "vectors_da", "quaternions_da",
    "linvel", "angvel", "linvel_da", "angvel_da", "method_points", "method_quaternions", "method_lookup",
    "est_linear", "est_angular", "est_linear_da", "est_angular_da", "accessor_qinterp", "accessor_qinv",
    "coords", "coords_da", "qinv", "qmul", "qmean", "qinterp", "rotate", "euler",
    "arc", "arc_da", "bfr", "bfr_da", "bft", "bft_da", "icp", "icp_da",
]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    family = rng.choice(["ns", "ns", "ms", "us", "float"])
    kinds = rng.choice([["static"], ["static", "moving"], ["moving"], ["static", "moving", "discrete"]])
    n = rng.randrange(3, 6)
    frames = []
    length = rng.choice([6, 6, 9, 30])
    same = rng.random() < 0.6
    for k in range(n):
        pref = None if k == 0 else ["obj", rng.randrange(k)]
        f = model.gen_frame(rng, k, f"f{k}", pref, family, kinds, 6, nmin=5)
        if f["kind"] in ("moving", "discrete"):
            g = model.GRID[f["unit"]] * max(1, 10_000_000 // model.GRID[f["unit"]])
            off = 0 if same else rng.randrange(3)
            m = length if f["kind"] == "moving" else 3
            f["ts"] = [model.T0[f["unit"]] + (j + off) * g for j in range(m + (0 if same else rng.randrange(4)))]
        frames.append(f)
    calls = []
    for _ in range(rng.randrange(3, 9)):
        kind = rng.choice(KINDS)
        idx = [rng.randrange(n) for _ in range(3)]
        if rng.random() < 0.7 and n > 2:
            idx = rng.sample(range(n), 3)
        calls.append([kind, [[int(rng.random() < 0.5), k] for k in idx], rng.randrange(1 << 30)])
    threads = []
    for t in range(rng.choice([2, 2, 3] if tier == "quick" else [2, 3, 4])):
        ops = []
        for _ in range(rng.randrange(1, 5)):
            x = rng.random()
            if x < 0.75 or t == 0:
                ops.append(["call", rng.randrange(len(calls)), rng.choice([0] * 9 + [1, 2, 4, 9, 17, 30]), int(rng.random() < 0.5)])
            else:
                ops.append(["change", rng.choice(["child", "child", "register", "update", "deregister", "self", "gc"]),
                            rng.randrange(n), rng.randrange(4)])
        threads.append(ops)
    sched = {"mode": rng.choice(["random", "random", "pct"]), "seed": seed & 0xFFFFFFFF,
             "p": rng.choice([0.003, 0.02, 0.1, 0.3]), "py": 0.4}
    return {"frames": frames, "calls": calls, "threads": threads, "sched": sched}


def shape_of(rng, dim, moving, stamps):
    """(array shape, with timestamps)."""
    if stamps is not None and rng.random() < 0.7:
        m = len(stamps)
        return ((m, dim) if rng.random() < 0.7 or dim == 4 else (m, 2, dim)), True
    if moving or rng.random() < 0.5:
        return (dim,), False
    return (rng.randrange(1, 4), dim), False


def build(R, sc, frames, call):
    """(thunk performing the call, arrays handed in)."""
    kind, refs, sd = call
    rng = keyed(sc["seed"], "call", sd)
    a, b, c = [f"f{k}" if by_name else frames[k] for by_name, k in refs]
    fa = frames[refs[0][1]]
    rs = np.random.RandomState(sd % (1 << 31))
    stamped = [f for f in sc["frames"] if "ts" in f]
    moving = bool(stamped)
    unit = stamped[0]["unit"] if stamped else "ns"
    stamps = None
    if stamped:
        ts = stamped[rng.randrange(len(stamped))]["ts"]
        stamps = model.stamps(ts, unit)
        if rng.random() < 0.4:
            stamps = stamps[1:-1]
    cut = 0.2 if rng.random() < 0.4 else None
    out = 0.5 if rng.random() < 0.2 else None
    mode = rng.choice(["quaternion", "rotation_vector"])
    rng_bool = rng.random() < 0.5
    base, _, tail = kind.partition("_")
    as_ds = tail == "ds"

    def data(dim):
        shape, with_ts = shape_of(rng, dim, moving, stamps)
        arr = np.round(rs.uniform(-3, 3, shape), 3)
        if dim == 4:
            arr = model.unit(rs.normal(size=shape))
        ts = stamps.copy() if with_ts else None
        if rng.random() < 0.25:
            arr.setflags(write=False)
        if rng.random() < 0.15 and dim == 3:
            arr = np.round(arr).astype(rng.choice([int, np.float32]))
        elif rng.random() < 0.15:
            # missing values, usual in recordings
            w = arr.flags.writeable
            arr.setflags(write=True)
            arr.reshape(-1, dim)[rng.randrange(arr.size // dim)] = rng.choice([np.nan, np.inf]) if dim == 3 else np.nan
            arr.setflags(write=w)
        return arr, ts

    def dataarray(dim, motion):
        import xarray as xr

        arr, ts = data(dim)
        while arr.ndim == 3:
            arr = arr[:, 0]
        dims = ["cartesian_axis" if dim == 3 else "quaternion_axis"]
        coords = {dims[0]: list("xyz" if dim == 3 else "wxyz")}
        if arr.ndim == 2:
            if ts is None:
                arr = arr[0]
            else:
                dims = ["time"] + dims
                coords["time"] = ts
                coords["label"] = ("time", np.arange(len(ts)) * 1.5)
        return xr.DataArray(arr, coords, dims, "motion", {
            "representation_frame": fa.name, "reference_frame": fa.name, "moving_frame": fa.name, "motion_type": motion})

    kw = dict(outlier_thresh=out, cutoff=cut)
    what = rng.choice(["reference_frame", "moving_frame", "representation_frame"])
    if base in ("transform", "pose"):
        fn = R.lookup_transform if base == "transform" else R.lookup_pose
        rts = rng.random() < 0.7
        return (lambda: fn(a, b, as_dataset=as_ds, return_timestamps=rts)), []
    if base in ("twist", "linear", "angular"):
        ds_kw = {"as_dataset" if base == "twist" else "as_dataarray": True, "return_timestamps": True}
        fn = {"twist": R.lookup_twist, "linear": R.lookup_linear_velocity, "angular": R.lookup_angular_velocity}[base]
        if base != "linear":
            kw["mode"] = mode
        args = [a, b, c][: rng.randrange(2, 4)]
        if not as_ds:
            ds_kw = {"return_timestamps": rng.random() < 0.6}
        return (lambda: fn(*args, **ds_kw, **kw)), []
    if base in ("points", "vectors", "quaternions"):
        fn = getattr(R, "transform_" + base)
        dim = 4 if base == "quaternions" else 3
        if tail == "da":
            da = dataarray(dim, {"points": "position", "vectors": "direction", "quaternions": "orientation"}[base])
            tkw = {"timestamps": "time"} if "time" in da.dims else {}
            return (lambda: fn(da, into=b, **tkw)), [da]
        arr, ts = data(dim)
        return (lambda: fn(arr, into=b, outof=a, timestamps=ts, return_timestamps=True)), [arr, ts]
    if base in ("linvel", "angvel"):
        fn = R.transform_linear_velocity if base == "linvel" else R.transform_angular_velocity
        vkw = {"what": what, "cutoff": cut}
        if base == "linvel":
            vkw["outlier_thresh"] = out
            if what == "reference_frame":
                vkw["moving_frame"] = c
            if what == "moving_frame":
                vkw["reference_frame"] = c
        if tail == "da":
            da = dataarray(3, base)
            if "time" in da.dims:
                vkw["timestamps"] = "time"
            return (lambda: fn(da, into=b, **vkw)), [da]
        arr, ts = data(3)
        return (lambda: fn(arr, into=b, outof=a, timestamps=ts, return_timestamps=True, **vkw)), [arr, ts]
    if base == "method":
        if tail == "lookup":
            return (lambda: fa.lookup_transform(b)), []
        arr, ts = data(3 if tail == "points" else 4)
        fn = getattr(fa, "transform_" + tail)
        return (lambda: fn(arr, b, timestamps=ts, return_timestamps=True)), [arr, ts]
    if base == "est":
        m = rng.choice([8, 30])
        arr = np.cumsum(np.round(rs.uniform(-1, 1, (m, 3)), 3), axis=0)
        if "angular" in tail:
            q = [model.unit(rs.normal(size=4))]
            for _ in range(m - 1):
                q.append(model.unit(model.qmul(q[-1], model.unit(np.concatenate([[1.0], rs.normal(size=3) * 0.2])))))
            arr = np.array(q)
        ts = np.arange(m) * 0.01 + 1.0
        if kind.endswith("_da"):
            import xarray as xr

            d, ax = ("quaternion_axis", "wxyz") if "angular" in tail else ("cartesian_axis", "xyz")
            da = xr.DataArray(arr, {"time": ts, d: list(ax), "label": ("time", ts * 2)}, ["time", d], "motion", {"units": "m"})
            if rng.random() < 0.3:
                da = da.transpose(d, "time")
            fn = R.estimate_angular_velocity if "angular" in tail else R.estimate_linear_velocity
            if "angular" in tail:
                kw["mode"] = mode
            dkw = {"dim": d, "timestamps": "time"} if rng.random() < 0.8 else {}
            return (lambda: fn(da, **dkw, **kw)), [da]
        if tail == "angular":
            return (lambda: R.estimate_angular_velocity(arr, timestamps=ts, mode=mode, **kw)), [arr, ts]
        return (lambda: R.estimate_linear_velocity(arr, timestamps=ts, **kw)), [arr, ts]
    if base == "coords":
        outof, into, dim = rng.choice([
            ("cartesian", "polar", 2), ("polar", "cartesian", 2), ("cartesian", "spherical", 3), ("spherical", "cartesian", 3)])
        shape = rng.choice([(dim,), (5, dim), (2, 3, dim), (dim, 4)])
        arr = np.round(rs.uniform(0.1, 1.5, shape), 3)
        axis = 0 if shape == (dim, 4) else -1
        if tail == "da":
            import xarray as xr

            dims = [f"d{k}" for k in range(len(shape))]
            attrs = {"coordinate_system": outof} if rng.random() < 0.6 else {}
            da = xr.DataArray(arr, {d: np.arange(m) for d, m in zip(dims, shape)}, dims, "motion", attrs)
            ckw = dict(into=into, dim=dims[axis], replace_dim=rng.random() < 0.6)
            if not attrs or rng.random() < 0.3:
                ckw["outof"] = outof
            return (lambda: R.transform_coordinates(da, **ckw)), [da]
        if rng.random() < 0.4:
            fn = getattr(R, f"{outof}_to_{into}")
            return (lambda: fn(arr, axis=axis)), [arr]
        return (lambda: R.transform_coordinates(arr, into=into, outof=outof, axis=axis)), [arr]
    if base in ("qinv", "qmul", "qmean", "qinterp", "rotate", "euler"):
        import quaternion

        m = rng.choice([1, 4, 9])
        q1 = model.unit(rs.normal(size=(m, 4)))
        q2 = model.unit(rs.normal(size=(m, 4)))
        qaxis = -1
        if rng.random() < 0.3:
            q1, q2, qaxis = q1.T.copy(), q2.T.copy(), 0
        elif rng.random() < 0.3:
            q1, q2 = quaternion.as_quat_array(q1), quaternion.as_quat_array(q2)
        v = np.round(rs.uniform(-3, 3, (m, 3)), 3)
        if base == "qinv":
            return (lambda: R.qinv(q1, qaxis=qaxis)), [q1]
        if base == "qmul":
            return (lambda: R.qmul(q1, q2, q1, qaxis=qaxis)), [q1, q2]
        if base == "qmean":
            axis = rng.choice([None, 0])
            return (lambda: R.qmean(q1, axis=axis, qaxis=qaxis)), [q1]
        if base == "qinterp":
            t_in = np.arange(m) * 1.0
            t_out = t_in.copy() if rng.random() < 0.2 else np.sort(rs.uniform(0, max(m - 1, 1), 5))
            return (lambda: R.qinterp(q1, t_in, t_out, axis=0 if qaxis == -1 else 1, qaxis=qaxis)), [q1, t_in, t_out]
        if base == "rotate":
            if rng.random() < 0.3:
                q1 = q1[0] if qaxis == -1 else q1
            return (lambda: R.rotate_vectors(q1, v, qaxis=qaxis)), [q1, v]
        rpy = np.round(rs.uniform(-3, 3, (m, 3)), 3)
        order = rng.choice(["rpy", "ypr", "pry"])
        if rng.random() < 0.5:
            return (lambda: R.from_euler_angles(rpy, order=order, return_quaternion=rng_bool)), [rpy]
        r, y = rpy[:, 0].copy(), rpy[:, 2].copy()
        return (lambda: R.from_euler_angles(roll=r, yaw=y, order=order)), [r, y]
    if base in ("arc", "bfr", "bft", "icp"):
        m = rng.choice([3, 8, 20])
        v1 = np.round(rs.uniform(-3, 3, (m, 3)), 3)
        q = model.unit(rs.normal(size=4))
        if base == "icp":
            q = model.unit(np.concatenate([[1.0], rs.normal(size=3) * 0.05]))
        v2 = np.array([model.rot(q, x) for x in v1])
        if base in ("bft", "icp"):
            v2 = v2 + rs.uniform(-0.1, 0.1, 3)
        if rng.random() < 0.3:
            v2 = v2 + rs.normal(size=v2.shape) * 0.01
        fn = {"arc": R.shortest_arc_rotation, "bfr": R.best_fit_rotation, "bft": R.best_fit_transform,
              "icp": R.iterative_closest_point}[base]
        ekw = {}
        init = None
        if base == "icp" and rng.random() < 0.4:
            init = (np.zeros(3), np.array([1.0, 0, 0, 0]))
            ekw["init_transform"] = init
        if tail == "da":
            import xarray as xr

            c = {"time": np.arange(m), "cartesian_axis": list("xyz")}
            v1 = xr.DataArray(v1, c, ["time", "cartesian_axis"], "v1", {"units": "m"})
            v2 = xr.DataArray(v2, c, ["time", "cartesian_axis"], "v2")
            ekw["dim"] = "cartesian_axis"
        elif rng.random() < 0.3:
            v1, v2 = v1.T.copy(), v2.T.copy()
            ekw["axis"] = 0
        return (lambda: fn(v1, v2, **ekw)), [v1, v2] + list(init or ())
    if tail == "qinv":
        da = dataarray(4, "orientation")
        return (lambda: da.rbm.qinv()), [da]
    # interpolation through the xarray accessor
    da = dataarray(4, "orientation")
    if "time" not in da.dims:
        return (lambda: da.rbm.qinterp(time=[1.0])), [da]
    t = da.time.values
    new = t[:-1] + (t[1:] - t[:-1]) / 2
    return (lambda: da.rbm.qinterp(time=new)), [da, new]


def bits(x):
    """A value as comparable plain data."""
    import xarray as xr

    if x is None:
        return None
    if isinstance(x, tuple):
        return tuple(bits(y) for y in x)
    if isinstance(x, xr.Dataset):
        return ("ds", tuple((str(v), bits(x[v])) for v in sorted(x.variables)), repr(x.attrs))
    if isinstance(x, xr.DataArray):
        return (
            "da", x.dims, str(x.name), bits(np.asarray(x.data)), repr(sorted(x.attrs.items())),
            tuple((str(k), x[k].dims, bits(np.asarray(x[k].data))) for k in sorted(x.coords)),
        )
    a = np.asarray(x)
    if a.dtype.kind == "f":
        a = a + 0.0  # -0.0 and 0.0 are the same result
    if a.dtype.kind == "O" or a.dtype.kind == "U":
        return (a.dtype.str, a.shape, repr(a.tolist()))
    return (a.dtype.str, a.shape, a.tobytes())


def near(x, y):
    import xarray as xr

    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        try:
            xr.testing.assert_allclose(x, y)
        except AssertionError:
            return False
        return True
    if x is None or y is None:
        return x is y
    a, b = np.asarray(x), np.asarray(y)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)


def arg_bits(x):
    return None if x is None else bits(x) if not isinstance(x, np.ndarray) else (x.dtype.str, x.shape, x.tobytes())


def scribble(x):
    """The caller overwrites a result."""
    import xarray as xr

    if isinstance(x, tuple):
        for y in x:
            scribble(y)
    elif isinstance(x, xr.Dataset):
        for v in x.data_vars:
            scribble(x[v])
    elif isinstance(x, xr.DataArray):
        scribble(x.data)
        x.attrs.clear()
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.size:
        if x.dtype.kind == "f":
            x[...] = 1e300
        elif x.dtype.kind == "M":
            x[...] = np.datetime64("1999-01-01", "ns")


def execute(sc, ctx):
    import anytree
    import quaternion

    R = rbm()
    S = core.Sim(sc["sched"])
    S.watch = (
        simboot.PKG + os.sep,
        os.path.dirname(anytree.__file__) + os.sep,
        os.path.dirname(quaternion.__file__) + os.sep,
    )
    frames = []
    bad = []
    stats = ctx.stats

    def snap():
        return [
            tuple(None if x is None else (np.asarray(x).dtype.str, np.asarray(x).shape, np.asarray(x).tobytes())
                  for x in (f.translation, f.rotation, f.timestamps))
            for f in frames
        ]

    def main():
        S.line_preempt = False
        sys.settrace(None)
        for f in sc["frames"]:
            p = f["parent"]
            rf = R.ReferenceFrame(f["name"], None if p is None else frames[p[1]], **model.frame_args(sc["seed"], f))
            rf.register()
            frames.append(rf)
        calls = [build(R, sc, frames, c) for c in sc["calls"]]
        args = [[arg_bits(x) for x in arrs] for _, arrs in calls]
        links = [(f.parent, f.discrete, f.name) for f in frames]
        before = snap()

        def perform(j):
            try:
                return ("ok", calls[j][0]())
            except Exception as e:
                return ("error", type(e).__name__)

        def res_bits(r):
            return bits(r[1]) if r[0] == "ok" else r

        def check_data(where):
            now = snap()
            for k, (x, y) in enumerate(zip(before, now)):
                if x != y:
                    raise Violation("frame-changed", f"{where}: data of frame {k} changed")
            for k, f in enumerate(frames):
                if (f.parent, f.discrete, f.name) != links[k]:
                    raise Violation("frame-changed", f"{where}: frame {k} changed its place")
            for k, (_, arrs) in enumerate(calls):
                if args[k] != [arg_bits(x) for x in arrs]:
                    raise Violation("argument-changed", f"{where}: arguments of {sc['calls'][k][:2]} changed")

        base, raw = [], []
        for j in range(len(calls)):
            r = perform(j)
            base.append(res_bits(r))
            raw.append(copy.deepcopy(r))
            if os.environ.get("VERIF_KINDS"):
                stats[f"k.{sc['calls'][j][0]}.{r[0]}{r[1] if r[0] == 'error' else ''}"] = 1
            stats["alone-" + r[0]] = stats.get("alone-" + r[0], 0) + 1
            check_data(f"{sc['calls'][j][0]} alone")
            S.log("alone", j, r[0], hash_of(base[-1]))

        def one(t, op):
            if op[0] == "change":
                return change(op)
            _, j, oom, scr = op
            kind = sc["calls"][j][0]
            where = f"thread {t}: {sc['calls'][j][:2]}"
            fired = False
            if oom:
                al = alloc.Alloc(oom)
                with al:
                    r = perform(j)
                fired = al.fired
                if fired:
                    stats["fault.out-of-memory"] = stats.get("fault.out-of-memory", 0) + 1
            else:
                r = perform(j)
            got = res_bits(r)
            S.log("done", t, j, r[0], hash_of(got))
            if fired and r[0] == "error":
                stats["failed"] = stats.get("failed", 0) + 1
            elif fired and r[0] == raw[j][0] == "ok" and near(r[1], raw[j][1]):
                # numpy.array_equal swallows errors, after which the package
                # takes an equivalent way with other rounding
                stats["equal-after-failure"] = stats.get("equal-after-failure", 0) + 1
            elif got != base[j]:
                raise Violation("differs", f"{where}: {describe(got)} instead of {describe(base[j])}")
            else:
                stats["equal"] = stats.get("equal", 0) + 1
            check_data(where)
            if scr and r[0] == "ok":
                scribble(r[1])
                stats["fault.result-overwritten"] = stats.get("fault.result-overwritten", 0) + 1
                check_data(f"{where} after overwriting the result")

        own = {}

        def change(op):
            _, what, k, m = op
            name = f"other{m}"
            if what == "child":
                own[m] = R.ReferenceFrame(name, frames[k], translation=(1.0, m, k))
            elif what == "register":
                try:
                    R.register_frame(name, f"f{k}", translation=(m, 2.0, k))
                except ValueError:
                    pass
            elif what == "update":
                R.register_frame(name, frames[k], rotation=(0, 0, 1.0, 0), update=True)
            elif what == "deregister":
                try:
                    R.deregister_frame(name)
                except ValueError:
                    pass
            elif what == "self":
                frames[k].register(update=True)
            else:
                own.clear()
                gc.collect()
            stats["fault.unrelated-change"] = stats.get("fault.unrelated-change", 0) + 1

        def worker(t, ops):
            try:
                for op in ops:
                    one(t, op)
            except Violation as v:
                bad.append(v)

        S.line_preempt = True
        ths = [patch.Thread(target=worker, args=(t, ops)) for t, ops in enumerate(sc["threads"])]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        sys.settrace(None)
        if bad:
            return
        for j in range(len(calls)):
            r = perform(j)
            if res_bits(r) != base[j]:
                raise Violation("differs-afterwards", f"{sc['calls'][j][:2]}: {describe(res_bits(r))} instead of {describe(base[j])}")
        check_data("afterwards")

    end = S.run(main)
    if bad:
        raise bad[0]
    if S.uncaught:
        t, e = S.uncaught[0]
        raise e
    if end != "main":
        raise Violation("no-progress", f"the threads ended in {end}")
    ctx.nontrivial = S.line_switches > 0


def hash_of(x):
    import hashlib

    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def describe(x):
    s = repr(x)
    return s if len(s) < 200 else s[:120] + f"...#{hash_of(x)}"
