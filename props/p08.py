"""P08: what is written to a bag is what is read from it."""

import os

import numpy as np

from sim import core, model, ros, rosmsg
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P08"
LEVEL = "exploration"
SCRATCH = True
RUNS = {"quick": 5000, "thorough": 40000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 3-15 writes to 1-3 topics of one or two bags "
    "with wall-clock jumps, rejected input, failing writes, closes and reads "
    "and errors in the with-body, read back at the end; non-trivial if samples "
    "were compared after a fault; distinct by the event log"
)
REAL = ["ros/io.py RosbagReader/RosbagWriter", "ros/msg.py", "numpy", "xarray", "pandas", "file I/O"]
STUB = ["rosbag file format (sim/ros.py Bag)", "rospy, message classes", "wall clock"]
ASSUMPTIONS = ["a bag reads messages in the order of their record times, equal ones in the order written"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    topics = ["/a", "/b/c", "d"][: rng.randrange(1, 4)]
    ops = []
    w = {"write": 6, "dataset": 3, "jump": 3, "reject": 2, "fail": 0.8, "raise": 0.3, "odom": 1, "read": 0.6}
    ks = sorted(w)
    for _ in range(rng.randrange(3, 11 if tier == "quick" else 18)):
        o = rng.choices(ks, [w[k] for k in ks])[0]
        t = rng.choice(topics)
        if o in ("write", "dataset", "odom"):
            n = rng.choice([1, 2, 3, 8, 20]) if rng.random() < 0.98 else 1500
            unit = rng.choice(["float", "ns", "us", "ms", "s"]) if o == "dataset" else "float"
            order = rng.choice(["inc", "inc", "inc", "dec", "shuffle", "dup"])
            ops.append([o, t, n, unit, order, rng.randrange(1 << 30), rng.choice(["array", "list", "da", "f32", "int"]) if o == "write" else "array"])
        elif o == "jump":
            ops.append([o, rng.choice([-(10**9) * 3600, 10**12, -(10**6), 10**15, -1])])
        elif o == "reject":
            ops.append([o, t, rng.choice(["t-long", "t-short", "t-2", "t-1d", "r-3", "r-long", "r-1d", "ts-2d", "ts-0d", "ts-short"]), rng.randrange(1 << 30)])
        elif o == "fail":
            ops.append([o, t, rng.randrange(1, 8), rng.choice(["os", "interrupt", "ros"]), rng.randrange(1 << 30)])
        elif o == "raise":
            ops.append([o, rng.choice(["value", "interrupt", "exit"])])
        elif o == "read":
            ops.append([o])
    prior = []
    if rng.random() < 0.4:
        # the same file was written before, maybe by the same writer
        for _ in range(rng.randrange(1, 3)):
            prior.append([rng.choice(["new", "same"]), rng.choice(topics + ["/old"]), rng.choice([0, 1, 5, 30]),
                          rng.randrange(1 << 30), int(rng.random() < 0.3)])
    return {"ops": ops, "prior": prior, "second": int(rng.random() < 0.35), "close": rng.choice([None, None, None, "os"]),
            "read_fault": rng.choice([None, None, rng.randrange(0, 10)]),
            "body": rng.choice([None, None, "value", "interrupt"]),
            "fault_in": rng.choice(["messages", "messages", "dataset"]),
            "reader_close": int(rng.random() < 0.25), "again": int(rng.random() < 0.4),
            "sched": {"mode": "fifo"}}


class Aborted(Exception):
    pass


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx))
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("compared", 0) > 0 and any(k.startswith("fault.") for k in f)


def data(op):
    _, _, n, unit, order, sd, _ = (op + ["array"])[:7]
    r = keyed(sd, "data")
    ts = model.gen_ts(r, unit if unit != "s" else "ns", n, base=r.choice([10**9, 1_600_000_000_000_000_000]),
                      gmul={"ns": 4000, "us": 32, "ms": 1, "s": 3906250, "float": 1}[unit])
    if unit == "s":
        ts = [t // 10**9 * 10**9 + 10**9 * k for k, t in enumerate(ts)]
    unit0 = unit
    if r.random() < 0.1:
        order = "zero"
    if order == "zero":
        # the epoch itself and stamps that are no whole milliseconds
        g = {"s": 10**9, "ms": 10**6}.get(unit0, 1000)
        ts = [0] + [g * (k + 1) for k in range(n - 1)]
    if order == "dec":
        ts = ts[::-1]
    elif order == "shuffle":
        r.shuffle(ts)
    elif order == "dup" and n > 1:
        ts[n // 2] = ts[n // 2 - 1]
    t, q = model.gen_arrays(sd, "d", n)
    v = np.round(np.random.RandomState(sd % 2**31).uniform(-3, 3, (n, 6)), 3)
    if r.random() < 0.15:
        # samples in which tracking was lost, and extreme ones
        t[r.randrange(n)] = r.choice([np.nan, np.inf, 1e300, 5e-324, -0.0])
        q[r.randrange(n)] = np.nan
    return ts, t, q, v


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.isclose(a, b, 1e-12, 1e-9) | np.isnan(a) & np.isnan(b)).all())


def err(kind):
    e = {"os": lambda: OSError(28, "No space left on device"), "interrupt": lambda: KeyboardInterrupt(),
         "ros": lambda: ros.ROSBagException("cannot write"), "value": lambda: ValueError("user error"),
         "exit": lambda: SystemExit(3)}[kind]()
    return e


def history(sc, ctx):
    import xarray as xr
    from rigid_body_motion.ros.io import RosbagReader, RosbagWriter

    S, BAG = core.SIM, ros.BAG
    path = os.path.join(sc["_scratch"], "test.bag")
    T = rosmsg.TYPES
    want = {}  # topic -> [type, rows]
    types = {}
    plan_fail = {}
    count = [0]

    def wf(n):
        count[0] += 1
        if plan_fail.get("at") == count[0]:
            ctx.count("fault.write-error")
            plan_fail["fired"] = e = plan_fail["exc"]
            return e
        return None

    BAG["write_fault"] = wf
    raised = None
    w = None
    for how, topic, n, sd, abort in sc.get("prior", []):
        if how == "new" or w is None:
            w = RosbagWriter(path)
        ts, t, q, _ = data(["write", topic, max(n, 1), "float", "inc", sd, "array"])
        try:
            with w:
                w.write_transform_stamped(np.array(ts[:n]) / 1e9, t[:n], q[:n], topic, "world", "body")
                if abort:
                    raise Aborted()
        except Aborted:
            pass
        ctx.count("fault.written-before")
    count[0] = 0
    # another bag written at the same time
    path2 = os.path.join(sc["_scratch"], "other.bag") if sc.get("second") else None
    want2, types2 = {}, {}
    w2 = RosbagWriter(path2) if path2 else None
    if w is None or (sc.get("prior") and sc["prior"][-1][1] == "/old"):
        w = RosbagWriter(path)
    close_exc = []
    if sc["close"]:
        def cf():
            e = OSError(5, "close failed")
            close_exc.append(e)
            ctx.count("fault.close-error")
            return e
        BAG["close_fault"] = cf
    body_exc = None
    if w2:
        w2.__enter__()
    try:
        with w:
            for k, op in enumerate(sc["ops"]):
                o = op[0]
                where = f"op {k} {op}"
                if o == "jump":
                    S.wall_skew = getattr(S, "wall_skew", 0) + op[1]
                    if ros.patch.wall_ns() < 0:
                        S.wall_skew = 0
                    ctx.count("fault.wall-clock-jump")
                elif o in ("write", "dataset", "odom"):
                    ts, t, q, v = data(op)
                    S.sleep_ns(1000)
                    if o == "odom":
                        top = op[1] + "_odom"
                        odom(BAG["open"][-1], T, top, ts, t, q, v)
                        types[top] = "nav_msgs/Odometry"
                        want.setdefault(top, []).extend(sorted_rows(ts, t, q, v, keyed(op[5], "rec")))
                        continue
                    types[op[1]] = "geometry_msgs/TransformStamped"
                    write(w, op, ts, t, q, o, k)
                    want.setdefault(op[1], []).extend(zip(ts, t, q))
                    ctx.count("writes")
                    if w2 and k % 2 == 0:
                        n0, old = count[0], plan_fail.get("at")
                        s2 = np.array(ts) / 1e9 + 1000.0
                        w2.write_transform_stamped(s2, t, q, op[1], "world", "body")
                        count[0] = n0
                        want2.setdefault(op[1], []).extend(zip([x + 10**12 for x in ts], t, q))
                        types2[op[1]] = types[op[1]]
                elif o == "reject":
                    n0 = count[0]
                    try:
                        reject(w, op)
                    except (ValueError, TypeError, IndexError):
                        ctx.count("fault.rejected-input")
                    else:
                        raise Violation("not-rejected", f"{where}: accepted")
                    if count[0] != n0:
                        raise Violation("not-rejected", f"{where}: {count[0] - n0} messages were written before the error")
                elif o == "fail":
                    ts, t, q, v = data(["write", op[1], 6, "float", "inc", op[4], "array"])
                    at = min(op[2], 6)
                    plan_fail.update(at=count[0] + at, exc=err(op[3]))
                    got = None
                    try:
                        w.write_transform_stamped(np.array(ts) / 1e9, t, q, op[1], "world", "body")
                    except BaseException as e:
                        if isinstance(e, Violation):
                            raise
                        got = e
                    if got is not plan_fail.get("fired"):
                        raise Violation("error-lost", f"{where}: writing message {at} failed with {plan_fail.get('fired')!r}, raised {got!r}")
                    plan_fail.clear()
                    types[op[1]] = "geometry_msgs/TransformStamped"
                    want.setdefault(op[1], []).extend(list(zip(ts, t, q))[: at - 1])
                    if at == 1 and not want[op[1]]:
                        del want[op[1]], types[op[1]]
                elif o == "raise":
                    body_exc = err(op[1])
                    ctx.count("fault.error-in-body")
                    raise body_exc
                S.log(o, k)
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        raised = e
    if body_exc is not None:
        if raised is not body_exc:
            raise Violation("masked", f"the writer's body raised {body_exc!r}, the caller saw {raised!r}")
    elif close_exc:
        if raised is not close_exc[0]:
            raise Violation("error-lost", f"closing failed, the caller saw {raised!r}")
    elif raised is not None:
        raise raised
    BAG["write_fault"] = BAG["close_fault"] = None
    if w2:
        w2.__exit__(None, None, None)
        if close_exc:
            BAG["open"].clear()
        read_back(dict(sc, read_fault=None, body=None), ctx, path2, want2, types2, RosbagReader)
    if close_exc:
        return  # without an index there is nothing to read
    if BAG["open"]:
        raise Violation("left-open", "the bag is open after leaving the writer")
    read_back(sc, ctx, path, want, types, RosbagReader)


def sorted_rows(ts, t, q, v, r):
    return list(zip(ts, t, q, v))


def odom(bag, T, topic, ts, t, q, v):
    """A recording of somebody else's, record times after the stamps."""
    rec = getattr(bag, "_odom_rec", 10**9)
    for s, p, o, x in zip(ts, t, q, v):
        m = T["nav_msgs/Odometry"]()
        m.header.stamp = rosmsg.Time(s // 10**9, s % 10**9)
        m.pose.pose.position = T["geometry_msgs/Point"](*map(float, p))
        m.pose.pose.orientation = T["geometry_msgs/Quaternion"](*map(float, (o[1], o[2], o[3], o[0])))
        m.twist.twist.linear = T["geometry_msgs/Vector3"](*map(float, x[:3]))
        m.twist.twist.angular = T["geometry_msgs/Vector3"](*map(float, x[3:]))
        rec += 10**6
        bag.write(topic, m, rosmsg.Time(rec // 10**9, rec % 10**9))
    bag._odom_rec = rec


def write(w, op, ts, t, q, o, k):
    import xarray as xr

    if o == "dataset":
        names = ("time", "position", "orientation") if k % 2 else ("t", "pos", "rot")
        ds = xr.Dataset(
            {names[1]: ([names[0], "ca"], t), names[2]: ([names[0], "qa"], q)},
            {names[0]: model.stamps(ts, op[3])},
        )
        kw = {} if k % 2 else dict(timestamps="t", translation="pos", rotation="rot")
        w.write_transform_stamped_dataset(ds, op[1], "world", "body", **kw)
        return
    s = np.array(ts) / 1e9
    if op[6] == "list":
        args = [list(s), t.tolist(), q.tolist()]
    elif op[6] == "da":
        args = [xr.DataArray(s), xr.DataArray(t), xr.DataArray(q)]
    else:
        args = [s, t, q]
    w.write_transform_stamped(*args, op[1], "world", "body")


def reject(w, op):
    k = op[2]
    ts, t, q, _ = data(["write", op[1], 4, "float", "inc", op[3], "array"])
    s = np.array(ts) / 1e9
    if k == "t-long":
        t = np.concatenate([t, t])
    elif k == "t-short":
        t = t[:3]
    elif k == "t-2":
        t = t[:, :2]
    elif k == "t-1d":
        t = t[:, 0]
    elif k == "r-3":
        q = q[:, :3]
    elif k == "r-long":
        q = np.concatenate([q, q[:1]])
    elif k == "r-1d":
        q = q[0]
    elif k == "ts-2d":
        s = s[:, None]
    elif k == "ts-0d":
        s = s[0]
    elif k == "ts-short":
        s = s[:2]
    w.write_transform_stamped(s, t, q, op[1], "world", "body")


def read_back(sc, ctx, path, want, types, RosbagReader):
    BAG = ros.BAG
    S = core.SIM
    r = RosbagReader(path)
    for call in ("get_topics_and_types", "load_messages", "load_dataset"):
        try:
            getattr(r, call)(*([] if call.startswith("get") else ["/a"]))
        except Exception:
            pass
        else:
            raise Violation("outside", f"{call} outside of the context did not raise")
    session(sc, ctx, r, want, types, sc["body"], sc["reader_close"])
    if sc["again"]:
        # the same reader once more
        session(dict(sc, read_fault=None), ctx, r, want, types, None, 0)
    for call in ("get_topics_and_types", "load_messages", "load_dataset"):
        try:
            getattr(r, call)(*([] if call.startswith("get") else [next(iter(want), "/a")]))
        except Exception:
            pass
        else:
            raise Violation("outside", f"{call} after leaving the context did not raise")


def session(sc, ctx, r, want, types, body, close_fails):
    BAG = ros.BAG
    S = core.SIM
    body = err(body) if body else None
    got = None
    cexc = OSError(5, "close failed") if close_fails else None
    BAG["read_close_fault"] = cexc
    if cexc:
        ctx.count("fault.reader-close-error")
    try:
        with r:
            tt = r.get_topics_and_types()
            if dict(tt) != types:
                raise Violation("topics", f"topics {tt}, expected {types}")
            for topic in sorted(want):
                rows = want[topic]
                if sc["read_fault"] is not None and sc["read_fault"] < len(rows):
                    e = OSError(5, "Input/output error")
                    fired = []

                    def rf(n):
                        if n == sc["read_fault"] and not fired:
                            fired.append(1)
                            return e
                        return None

                    BAG["read_fault"] = rf
                    try:
                        getattr(r, "load_" + sc["fault_in"])(topic)
                    except OSError as x:
                        if x is not e:
                            raise Violation("error-masked", f"read error raised as {x!r}")
                    else:
                        if fired:
                            raise Violation("partial", f"{topic}: a read error was not raised")
                    ctx.count("fault.read-error")
                    BAG["read_fault"] = None
                compare(r.load_messages(topic), rows, types[topic], topic, False)
                compare(r.load_dataset(topic), rows, types[topic], topic, True)
                ctx.count("compared", len(rows))
                S.log("read", topic, len(rows))
            for call in (r.load_messages, r.load_dataset):
                try:
                    call("/no/such/topic")
                except Exception:
                    continue
                raise Violation("unknown-topic", "reading a topic that is not in the bag did not raise")
            if body is not None:
                ctx.count("fault.error-in-body")
                BAG["close_fault"] = None
                raise body
    except BaseException as e:
        if isinstance(e, Violation):
            raise
        got = e
    BAG["read_close_fault"] = None
    if got is not body:
        if body is None and got is cexc:
            got = None
        elif body is None:
            raise got
    if got is not body:
        raise Violation("masked", f"the reader's body raised {body!r}, the caller saw {got!r}")
    if BAG["open"]:
        raise Violation("left-open", "the bag is open after leaving the reader")


def compare(got, rows, typ, topic, ds):
    if ds:
        ts = model.stamp_ns(got["time"].values)
        if list(got.coords["quaternion_axis"].values) != ["w", "x", "y", "z"]:
            raise Violation("axes", f"{topic}: quaternion axes {got.coords['quaternion_axis'].values}")
        get = lambda k: got[k].values
    else:
        ts = model.stamp_ns(got["timestamps"])
        get = lambda k: got[k]
    if len(ts) != len(rows):
        raise Violation("count", f"{topic}: {len(ts)} samples read, {len(rows)} written")
    if any(abs(a - b[0]) > 2000 for a, b in zip(ts, rows)):
        raise Violation("stamps", f"{topic}: stamps {ts}, written {[r[0] for r in rows]}")
    if not same(get("position"), np.array([r[1] for r in rows])):
        raise Violation("position", f"{topic}: {get('position').tolist()}, written {[list(r[1]) for r in rows]}")
    if not same(get("orientation"), np.array([r[2] for r in rows])):
        raise Violation("orientation", f"{topic}: {get('orientation').tolist()}, written {[list(r[2]) for r in rows]}")
    if typ == "nav_msgs/Odometry":
        v = np.array([r[3] for r in rows])
        if not same(get("linear_velocity"), v[:, :3]) or not same(get("angular_velocity"), v[:, 3:]):
            raise Violation("velocity", f"{topic}: {get('linear_velocity')} {get('angular_velocity')}, written {v}")
