"""P05: marker publications converge to the current marker."""

import io

import numpy as np

from sim import model, ros, rosmsg
from sim.core import Violation, keyed
from sim import rosbase as rb

from .base import boot  # noqa

ID = "P05"
LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 40000}
LISTS = ["ops"]
RULE = (
    "a run is a seeded history of 6-40 marker changes, publications, loops, "
    "publication failures and joining subscribers on one marker publisher, "
    "with the path marker of a seeded moving frame; non-trivial if a failure "
    "or a late subscriber preceded a compared publication; distinct by the log"
)
REAL = ["ros/visualization.py", "reference_frames.py", "core.py"]
STUB = ["rospy and message classes, latching and delivery (sim/ros.py)", "threads, locks, clocks"]
ASSUMPTIONS = ["a marker is changed by one thread at a time"]


def plan(seed, i, tier):
    rng = keyed(seed, "plan")
    sc = {"sched": rb.gen_sched(rng, 0.02)}
    if rng.random() < 0.7:
        while True:
            frames = rb.gen_tree(rng, rng.choice(["ns", "float", "mixed"]), rng.randrange(2, 5), 1, rng.choice([2, 5, 12, 40]))
            if rng.random() < 0.03 and frames[1]["kind"] != "static":
                f = frames[1]
                f["ts"] = model.gen_ts(rng, f["unit"], rng.randrange(999, 2105))
            ps = rb.pairs(seed, frames, True, 1)
            if ps:
                break
        a, b = rng.choice(ps)
        n = len(rb.expect(seed, frames, a, b)[2])
        sc.update(kind="path", frames=frames, frame=a, base=b,
                  max_points=rng.choice([None, 1, 2, 3, max(1, n - 1), n, n + 1, max(1, n // 2), max(1, n // 2 + 1), max(1, n // 3), rng.randrange(1, n + 2)]))
        sc["byname"] = rng.random() < 0.5
    else:
        sc["kind"] = "plain"
        sc["make"] = {}
        for k, v in (("marker_type", rng.choice([0, 1, 4, 8, 9])), ("frame_id", "map"),
                     ("scale", rng.choice([0.5, [0.1, 0.2, 0.3]])),
                     ("position", [rng.randrange(9) / 2 for _ in range(3)]),
                     ("orientation", rng.choice([[0.0, 0.6, 0.0, 0.8], [1.0, 0.0, 0.0, 0.0]]))):
            if rng.random() < 0.5:
                sc["make"][k] = v
    if rng.random() < 0.5:
        sc["color"] = "#" + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(8))
    if sc["kind"] == "path" and rng.random() < 0.3:
        sc["topic"] = "/other/path"
    if sc["kind"] == "path" and rng.random() < 0.3:
        sc["scale"] = rng.choice([0.01, 2.5])
    sc["interval"] = rng.choice([0.0, 0.001, 0.05, 1.0])
    ops = []
    w = {"touch": 5, "undo": 1.5, "replace": 0.7, "publish": 5, "spin": 1.5, "stop": 1.2,
         "settle": 2, "sleep": 2, "fail": 2, "join": 1.2, "leave": 0.3}
    for k in rng.sample(sorted(w), 2):
        w[k] *= rng.choice([0.3, 2.5])
    ks = sorted(w)
    for _ in range(rng.randrange(6, 22 if tier == "quick" else 40)):
        o = rng.choices(ks, [w[k] for k in ks])[0]
        if o == "touch":
            ops.append([o, rng.choice(["scale", "color", "point", "pop", "pose", "header", "text", "id", "ns"]), rng.randrange(100)])
        elif o == "fail":
            ops.append([o, rng.choice(["ros", "ser", "os"]), rng.choice([1, 1, 2])])
        elif o == "sleep":
            ops.append([o, rng.choice([1, 10**5, 10**8])])
        else:
            ops.append([o])
    sc["ops"] = ops
    return sc


def content(m):
    """Serialised marker without the transport's sequence number."""
    c = rosmsg.clone(m)
    c.header.seq = 0
    b = io.BytesIO()
    c.serialize(b)
    return b.getvalue()


def execute(sc, ctx):
    s = rb.run_node(sc, ctx, lambda: history(sc, ctx), expect_uncaught=lambda t, e: getattr(e, "_injected", 0))
    f = dict(s.stats, **ctx.stats)
    ctx.nontrivial = f.get("compared", 0) > 0 and any(k.startswith("fault.") for k in f)


def history(sc, ctx):
    from rigid_body_motion.ros import visualization as V
    from sim import core

    S, R, T = core.SIM, ros.R, rosmsg.TYPES
    if sc["kind"] == "path":
        seed, frames = sc["seed"], sc["frames"]
        real = rb.build(seed, frames)
        kw = {} if sc["max_points"] is None else {"max_points": sc["max_points"]}
        if sc["interval"]:
            kw["publish_interval"] = sc["interval"]
        for k in ("color", "topic", "scale"):
            if k in sc:
                kw[k] = sc[k]
        fa, fb = real[sc["frame"]], real[sc["base"]]
        if sc.get("byname"):
            p = V.ReferenceFrameMarkerPublisher(fa.name, None if fa.parent is fb else fb.name, **kw)
        else:
            p = V.ReferenceFrameMarkerPublisher(fa, fb, **kw)
        exp = rb.expect(seed, frames, sc["frame"], sc["base"])
        check_path(p.marker, exp, frames[sc["base"]]["name"], sc["max_points"] or 1000)
        check_look(p.marker, 4, (sc.get("scale", 0.1), 0.0, 0.0), sc.get("color"), (0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 1.0))
        ctx.count("paths")
        topic = sc.get("topic") or f"/{frames[sc['frame']]['name']}/path"
    else:
        topic = "/marker"
        kw = dict(sc.get("make", {}))
        if "color" in sc:
            kw["color"] = sc["color"]
        m = V.get_marker(**kw)
        x = kw.get("scale", 1.0)
        check_look(m, kw.get("marker_type", 4), [x] * 3 if isinstance(x, float) else x, sc.get("color"),
                   kw.get("position", (0.0, 0.0, 0.0)), kw.get("orientation", (0.0, 0.0, 0.0, 1.0)))
        if m.header.frame_id != kw.get("frame_id", "world"):
            raise Violation("look", f"get_marker({kw}): frame {m.header.frame_id!r}")
        p = V.BaseMarkerPublisher(m, topic, publish_interval=sc["interval"])
    fail = []

    def pf(t, n):
        if not fail:
            return None
        k = fail.pop()
        e = {"ros": ros.ROSException("closed"), "ser": ros.ROSSerializationException("bad field"),
             "os": OSError(105, "no buffer space")}[k]
        e._injected = 1
        st["failures"] += 1
        return ("fail", e)

    st = {"failures": 0}
    R.publish_fault = pf
    subs = []

    def ours():
        return [r for r in R.records if r["topic"] == topic]

    def check_only_when(where):
        rs = ours()
        for x, y in zip(rs, rs[1:]):
            if content(x["msg"]) == content(y["msg"]):
                raise Violation("unchanged", f"{where}: the same marker was published twice in a row")

    def last():
        rs = ours()
        return content(rs[-1]["msg"]) if rs else None

    settle_ns = int(2.5 * max(sc["interval"], 1e-5) * 1e9) + 100
    spinning = None
    old = []  # previous versions

    for k, op in enumerate(sc["ops"]):
        o = op[0]
        where = f"op {k} {op}"
        if o in ("touch", "undo", "replace"):
            # changes are made between two rounds of the loop
            m = p.marker
            with_lock = rosmsg.clone(m)
            old.append(rosmsg.clone(m))
            if o == "touch":
                touch(m, op[1], op[2], T)
            elif o == "undo" and len(old) > 1:
                p.marker = rosmsg.clone(old[-2])
            elif o == "replace":
                p.marker = with_lock
        elif o == "publish":
            n = len(ours())
            f0 = st["failures"]
            cur = content(p.marker)
            before = last()
            try:
                p.publish()
                raised = False
            except Exception as e:
                if not getattr(e, "_injected", 0):
                    raise
                raised = True
            if raised:
                ctx.count("fault.publish-error-seen")
                if before == cur and spinning is None:
                    raise Violation("unchanged", f"{where}: an unchanged marker was sent (and failed)")
            else:
                if st["failures"] > f0 and spinning is None:
                    raise Violation("error-lost", f"{where}: the failure was not raised")
                if last() != cur:
                    raise Violation("not-published", f"{where}: publish() returned but the last published marker differs from the current one")
                if spinning is None and len(ours()) - n != int(before != cur):
                    raise Violation("count", f"{where}: {len(ours()) - n} publications, marker changed: {before != cur}")
            ctx.count("compared")
        elif o == "spin":
            spinning = p.spin()
        elif o == "stop":
            p.stop()
            S.sleep_ns(settle_ns)
            spinning = None
        elif o == "sleep":
            S.sleep_ns(min(op[1], settle_ns * 4) if spinning else op[1])
        elif o == "fail":
            fail.extend([op[1]] * op[2])
        elif o == "join":
            got = []
            sub = ros.RemoteSub(topic, got.append)
            subs.append((sub, got))
            if ours():
                ctx.count("fault.late-subscriber")
        elif o == "leave":
            pass
        elif o == "settle":
            S.sleep_ns(settle_ns)
            if spinning is not None and not fail and spinning.is_alive():
                if last() != content(p.marker):
                    raise Violation("not-published", f"{where}: the loop runs but the current marker was not published")
                ctx.count("compared")
            elif spinning is not None and not spinning.is_alive():
                if p.stopped is not True:
                    raise Violation("stopped-flag", f"{where}: the loop ended with stopped={p.stopped!r}")
                spinning = None
        check_only_when(where)
        S.log(o, len(ours()))
    # faults stop, everything converges
    fail.clear()
    if keyed(sc["seed"], "end").random() < 0.5:
        p.spin()
        S.sleep_ns(settle_ns)
    else:
        p.publish()
    if last() != content(p.marker):
        raise Violation("not-published", "end: the current marker was not published")
    S.sleep_ns(settle_ns)
    for n, (sub, got) in enumerate(subs):
        if not got or content(got[-1]) != content(p.marker):
            raise Violation("subscriber", f"subscriber {n} holds {'nothing' if not got else 'an outdated marker'}")
        ctx.count("subscribers")
    # one more joins now (the loop has ended), without any further publication
    p.stop()
    S.sleep_ns(settle_ns)
    got = []
    ros.RemoteSub(topic, got.append)
    S.sleep_ns(10**6)
    if not got or content(got[-1]) != content(p.marker):
        raise Violation("subscriber", f"a late subscriber holds {'nothing' if not got else 'an outdated marker'}")
    check_only_when("end")


def touch(m, what, v, T):
    if what == "scale":
        m.scale.x = 0.1 + v / 10
    elif what == "color":
        m.color.r = v / 100
    elif what == "point":
        m.points = list(m.points) + [T["geometry_msgs/Point"](v, 1.0, 2.0)]
    elif what == "pop":
        m.points = list(m.points)[:-1]
    elif what == "pose":
        m.pose.position.z = float(v)
    elif what == "header":
        m.header.frame_id = f"w{v}"
    elif what == "text":
        m.text = f"t{v}"
    elif what == "id":
        m.id = v
    elif what == "ns":
        m.ns = f"n{v % 3}"


def check_look(m, typ, scale, color, pos, rot):
    """Type, size, colour and pose are the ones asked for."""
    h = color or "#ffffffff"
    want = {
        "type": (m.type,), "scale": (m.scale.x, m.scale.y, m.scale.z), "color": (m.color.r, m.color.g, m.color.b, m.color.a),
        "position": rb.vec(m.pose.position),
        "orientation": tuple(getattr(m.pose.orientation, k) for k in "xyzw"),
    }
    exp = {"type": (typ,), "scale": scale, "color": [int(h[i:i + 2], 16) / 255 for i in (1, 3, 5, 7)],
           "position": pos, "orientation": rot}
    for k, v in want.items():
        if not np.allclose(v, exp[k], rtol=0, atol=1e-9):
            raise Violation("look", f"{k} {v}, expected {exp[k]}")


def check_path(m, exp, base, limit):
    pos = np.asarray(exp[0])
    n = len(pos)
    pts = np.array([rb.vec(p) for p in m.points]).reshape(-1, 3)
    k = len(pts)
    if m.header.frame_id != base:
        raise Violation("path", f"frame {m.header.frame_id!r}, expected {base!r}")
    if k > limit:
        raise Violation("path", f"{k} points of {n}, at most {limit} allowed")
    if n <= limit and k != n:
        raise Violation("path", f"{k} points of {n} although {limit} are allowed")
    if not k:
        raise Violation("path", f"no point of {n}")
    for s in range(1, n + 1):
        want = pos[::s]
        if len(want) == k and model.close(pts, want):
            return
    raise Violation("path", f"{k} of {n} points (limit {limit}) are no evenly strided subset: {pts[:5].tolist()}")
